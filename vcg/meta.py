"""Per-property level and notes (used by the checks and to generate MANIFEST.json)."""
ASSUMPTIONS = [
    "signed integer arithmetic is treated as mathematical (no overflow); unsigned arithmetic wraps exactly",
    "distinct reference/pointer parameters do not alias",
    "termination is not verified; allocation failure is ignored",
    "string contents, streams and output formatting are uninterpreted unless a contract says otherwise",
    "abstract (virtual, unknown class) const methods are functions of the object and their arguments",
]
NOT_APPLICABLE = {
}
META = {
    "C04": {"level": "proof", "note": "every contract obligation on the geometry functions of cells, patches and slices is discharged for all inputs (machine integers as mathematical, coordinates within 2^30); a sanitizer build of the same functions is searched for failing inputs (bounded, not counted as proof)"},
    "C01": {"level": "proof", "note": "occupancy check, placement (one and several cells), lookup and deletion by id, conversions: every obligation discharged for all slices, ids and patches (get_sparse_patch_by_id under the hypothesis that ids are unique in the slice); bounded sanitizer search as replay"},
    "C08": {"level": "proof", "note": "try_apply_local_instruction is proved for every slice, every kind of local instruction, every pair of adjacent in-grid cells and both routing modes; bounded sanitizer search as replay"},
    "C20": {"level": "proof", "note": "compute_volume_counts and operator+= are proved against a recursively defined count of the cells, for every slice; bounded sanitizer search as replay"},
    "C28": {"level": "proof", "note": "set intersection and union, popping and extending queues and vectors are proved for all inputs; the text helpers (splitting, joining, trimming, replacing), whose iterators walk over characters, are outside the verifier's reach and are only searched (bounded, sanitizer build)"},
    "C14": {"level": "proof", "note": "operand sets of every instruction and gate kind and both commutation traits are proved for all inputs; bounded sanitizer search as replay"},
    "C17": {"level": "proof", "note": "decomposition of rotations and controlled rotations and the stream over it are proved for all inputs; the approximation itself (gridsynth, absent from this build) is a function of the angle, assumed; bounded sanitizer search as replay"},
    "C15": {"level": "proof", "note": "the CNOT and T gadgets, the gate stream translation (every gate, every mode) and the core qubits are proved instruction by instruction for all inputs; bounded sanitizer search as replay"},
    "C16": {"level": "proof", "note": "every gadget's fresh ids and every instruction that refers to them are proved for all inputs, and so is the monotone counter they come from (fewer than 2^32 ids); the life of an id over a whole program follows from the gadget contracts and is also searched (bounded)"},
    "C19": {"level": "proof", "note": "both expansion streams are proved for every instruction of the source and both options; that the two generators of the catalytic stream are one object is taken from its constructor; bounded sanitizer search as replay"},
    "C18": {"level": "proof", "note": "the rotation stream is proved for every multi-body measurement of the source and every local instruction; bounded sanitizer search as replay"},
    "C02": {"level": "proof", "note": "advance_slice is proved cell by cell for every slice and both kinds of layout (times and clocks positive, reserved cells distinct and in the grid); bounded sanitizer search as replay"},
    "C03": {"level": "proof", "note": "advance_slice and find_place_for_magic_state: every clock, every reserved cell and every factory is proved for all slices and layouts (times and clocks positive, reserved cells distinct, cells in the grid); bounded sanitizer search of histories as replay"},
    "C05": {"level": "proof", "note": "merge_patches, stitch_boundaries, mark_routing_region and clear_routing_region are proved for every slice, pair of patches and route of any length; that the router's answer is a chain of free, distinct, in-grid cells is its own property (C06), here a hypothesis; bounded sanitizer search as replay"},
    "C07": {"level": "proof", "note": "construction of the region, the step that starts a rotation, holding the region and releasing it are proved for every patch, neighbour and slice; that three of them in a row make three time steps follows from these contracts and is also followed in a bounded sanitizer search"},
    "C10": {"level": "proof", "note": "one contract per instruction kind on try_apply_instruction_direct_followup (all kinds but the two Bell operations, see C09), proved for every slice, instruction and option; routes are assumed well formed (C06); bounded sanitizer search as replay"},
    "C11": {"level": "proof", "note": "add_node, add_edge, remove_edge, remove_node, expand, successors, predecessors, heads, tails and empty under contract for all graphs: both views kept consistent, exact effect on nodes and edges, exact refusals. The depth-first order used for building dependency DAGs is recursive and belongs to C12."},
    "C12": {"level": "proof", "note": "For all DAGs: pushing (edges exactly from the earlier instructions that are not known to commute, given acyclicity, which is kept; the depth-first order it walks lists every node of an acyclic graph once), adding, removing and expanding instructions, proximity pairs and marks, applicable and must-run-next lists. Trusted: can_commute is a function of its two arguments (its meaning is C14); termination of the recursive search is not proved."},
}
