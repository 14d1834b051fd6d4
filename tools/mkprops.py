#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                     mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

prop("C01","A grid cell holds at most one patch, and placement never overwrites",
 "Placing a patch on an occupied cell of a slice is refused with an error and leaves the slice as it was; placing it on a free cell makes that cell hold exactly the given patch (type, activity, id, label, operation id and the four boundaries) and touches nothing else. A patch made of several cells is placed cell by cell under the same rule. Deleting by patch id empties exactly the cells that hold that id; asking for a patch or its cell by id finds one exactly when some cell holds the id, and reports that cell and its content; a cell counts as free exactly when it holds nothing.",
 ["inputs","configurations"],"every slice size and content, every patch, every cell, every id",
 "The unit tests never place, delete or look up a patch on a slice; a sample of slices could not cover every occupancy pattern.",
 ["src/patches/dense_slice.cpp","include/lsqecc/patches/dense_slice.hpp","src/patches/patches.cpp"],
 [("occupancy check before the write","DenseSlice::place_single_cell_sparse_patch"),("cell traversal","DenseSlice::traverse_cells_mut"),("conversion","DensePatch::from_sparse_patch")],
 [("cells","the grid of optional patches","DenseSlice::cells")],["DenseSlice::patch_at","DenseSlice::get_cell_by_id","DenseSlice::is_cell_free"])

prop("C02","Advancing a slice ends exactly the operations that last one step",
 "When a slice is advanced, exactly the patches under measurement (single or multi-patch) disappear, patches under a unitary become idle, and edge-disjoint-path routing becomes reserved routing. Every boundary is left inactive except on patches that are rotating or reserved, and the crossing record is emptied. Apart from cells used for magic states, every other patch keeps its type, id, label, operation id and boundary types, and no new patch appears.",
 ["inputs","histories"],"every slice content and layout size, for every number of steps",
 "No test advances a slice; the claim is about every cell content and every grid size.",
 ["src/patches/dense_patch_computation.cpp"],
 [("per-cell ageing","advance_slice (first traversal)")],
 [("activity","what a patch is doing in this slice","Patch::activity")],["DenseSlice after advance_slice"])

prop("C03","Magic-state clocks: production on time, in the right place, never lost silently",
 "On each advance every distillation clock goes down by one; a factory whose clock reaches zero puts exactly one prepared magic state on the first free output cell of that factory, records it as available, and restarts its clock at the layout's time for that factory; if no output cell is free no patch appears. With cells reserved for magic states, an emptied reserved cell turns back into a distilling cell with a restarted clock, a distilling cell counts down, and a distilling cell whose clock reaches zero becomes a recorded magic state. No clock ever wraps around below zero, and no other cell changes.",
 ["inputs","histories"],"every layout (number of factories, times, output cells), every occupancy, every step count",
 "No test runs a distillation clock; a sampled layout cannot show that every factory index, time and occupancy obeys the rule.",
 ["src/patches/dense_patch_computation.cpp","src/patches/dense_slice.cpp"],
 [("clock loop","advance_slice (second half)"),("first free output","find_place_for_magic_state")],
 [("clock","steps to the next magic state per region","DenseSlice::time_to_next_magic_state_by_distillation_region"),("pool","cells that hold an unused magic state","DenseSlice::magic_states")],["DenseSlice after advance_slice"])

prop("C04","Patch geometry: neighbours, facing boundaries and quarter turns agree",
 "A cell's neighbours are exactly the cells at distance one that lie inside the grid, each direction leads to one of them and the opposite direction leads back. The boundary a patch shows towards a neighbour is the one on that side, and there is none towards a non-neighbour; X needs a rough and Z a smooth boundary, and no boundary exists for I or Y. Opposite directions and dual boundary types are involutions, four quarter turns restore a patch while one turn moves each boundary one side clockwise, and a patch is active exactly when its activity is not idle or one of its boundaries is active.",
 ["inputs"],"every cell, bounding box, direction, boundary assignment and operator",
 "No test calls these functions; the claim ranges over all coordinates and boundary assignments.",
 ["src/patches/patches.cpp","include/lsqecc/patches/patches.hpp","src/patches/dense_slice.cpp"],
 [("direction table","Cell::get_directional_neighbor"),("side lookup","SingleCellOccupiedByPatch::get_boundary_with, DenseSlice::get_boundary_between"),("turn","CellBoundaries::instant_rotate"),("dual","operator!")],
 (),["return values"])

prop("C05","A patch merge is all-or-nothing and only claims free cells",
 "A joint measurement of two patches is refused, leaving the slice untouched, when either patch is already active or no route exists. When it is accepted, exactly the two end boundaries facing the route (or each other, if adjacent) become active and every route cell, free before, becomes a routing patch of that measurement with the route's boundaries; no other cell changes. When operation ids are requested all cells of the route carry the same id and two merges never share one; otherwise they carry none.",
 ["inputs","histories"],"every slice, pair of patches and operators, and every route the router may return",
 "No test performs a merge; the claim ranges over all slices and routes of any length.",
 ["src/patches/dense_patch_computation.cpp"],
 [("activity guard and route request","merge_patches"),("end boundaries","stitch_boundaries"),("claiming cells","mark_routing_region"),("releasing cells","clear_routing_region")],
 [("op id counter","next operation id","multi_body_measurement_op_id_counter")],["DenseSlice after merge_patches"])

prop("C06","Routes are simple paths of free cells that join the requested boundaries",
 "Every route the router returns between two patches is a chain of distinct, free, in-grid cells in which consecutive cells are adjacent; it starts and ends next to the two patches, on a side that shows the boundary type of the requested operator, and the boundary marks on each route cell connect it exactly to its predecessor and successor. A route is found whenever such a chain (or direct contact) exists, and it is as short as possible.",
 ["inputs","configurations"],"every slice occupancy, every pair of patches and operators, both built-in graph searches",
 "No test routes anything; soundness and completeness of a path search are statements over all grids.",
 ["src/layout/graph_search/custom_graph_search.cpp","src/layout/router.cpp","src/layout/graph_search/boost_based_graph_search.cpp"],
 [("edge predicate","SliceSearchAdaptor::have_directed_edge"),("search and reconstruction","graph_search::graph_search_route_ancilla")],
 (),["Router::find_routing_ancilla"])

prop("C07","Patch rotation occupies two cells for three steps and turns only that patch",
 "Rotating a single-cell patch into a free neighbouring cell yields a busy region made of exactly the patch's own cell and that neighbour, joined only by the two boundaries they share, lasting three steps, after which the same patch (same cell, id, type, label) reappears with its four boundaries turned by a quarter. A patch that covers several cells is refused. While the region is busy both cells are unavailable, and when it ends the spare cell is free again.",
 ["inputs","histories"],"every patch, every adjacent pair of cells, every grid",
 "No test rotates a patch; the claim covers every patch content and neighbour direction.",
 ["src/patches/dense_patch_computation.cpp","src/patches/patches.cpp"],
 [("region construction","single_patch_rotation_a_la_litinski"),("life cycle","try_apply_instruction_direct_followup (RotateSingleCellPatch, BusyRegion)")],
 (),["BusyRegion returned; slices while it runs"])

prop("C08","A refused local instruction changes nothing, an accepted one only its cells",
 "Each local lattice-surgery instruction (state preparation, Bell preparation and measurement, move, two-patch measurement, extend-split, merge-contract) is applied only if its cells are free, occupied or inactive as it requires; otherwise it reports an error and the slice is unchanged. When applied it changes only the one or two cells it names: preparation fills free cells with the requested ids, a move carries the patch's identity to the free cell and vacates the old one, and measurements activate exactly the two facing boundaries.",
 ["inputs"],"every slice content, every local instruction and every cell pair",
 "No test applies a local instruction; guards and frames are statements over all slices.",
 ["src/patches/dense_patch_computation.cpp","include/lsqecc/ls_instructions/local_instructions.hpp"],
 [("guards then effects","try_apply_local_instruction")],
 (),["DenseSlice and result of try_apply_local_instruction"])

prop("C09","Long-range Bell operations become local steps that cover the route exactly",
 "Compiling a long-range Bell operation over a segment of a route yields local instructions in which every two-cell step acts on two consecutive cells of that segment, the two ends receive the two requested patch ids, and every cell of the segment is used: pairs are prepared on disjoint neighbouring cells and the inner halves are joined by Bell measurements of neighbouring cells. The layers are consecutive, non-overlapping index ranges that cover all instructions, no cell is used twice within a layer, and a segment that is empty, reversed or extends past the route is refused rather than read out of bounds.",
 ["inputs"],"every route length and parity, every segment of it, every pair of ids and every operation kind",
 "No test compiles a long-range operation; the claim quantifies over all route lengths and segments.",
 ["src/patches/dense_patch_computation.cpp"],
 [("layered generation","compile_long_range_Bell")],
 (),["instructions and counters returned by compile_long_range_Bell"])

prop("C10","An LS instruction is applied only when allowed, with exactly its own effect",
 "Applying a logical instruction to a slice either is refused (an error result or an exception) and leaves the slice as it was, or performs the instruction. Paulis, H, S and joint measurements are applied only to existing idle patches, a single-patch measurement to any existing patch, initialisation and preparation only to free cells; each marks exactly those patches as busy (or fills exactly one cell with the requested id) and leaves every other cell alone. A magic-state request takes one available magic state and gives it the requested id, so the number of available states falls by one exactly when a request succeeds. A region that must stay busy for n steps is held for n steps and then cleared, whatever happens elsewhere.",
 ["inputs","histories"],"every slice content and every instruction",
 "The one slicing test runs two fixed programs; guards and frames of every instruction kind over every slice are out of reach of samples.",
 ["src/patches/dense_patch_computation.cpp"],
 [("dispatch","try_apply_instruction_direct_followup")],
 [("pool","cells that hold an unused magic state","DenseSlice::magic_states")],["DenseSlice and result of try_apply_instruction_direct_followup"])

prop("C11","The dependency graph always stays a consistent directed graph",
 "After any sequence of adding and removing nodes and edges and expanding a node into a chain, the successor and predecessor views describe the same edges over the same nodes. Each operation changes exactly what it names: removing a node removes it with all and only its incident edges, and expanding a node gives its incoming edges to the first and its outgoing edges to the last node of the replacement chain. Operations on missing nodes are refused; heads are exactly the nodes without predecessors and tails those without successors.",
 ["histories","inputs"],"every graph and every sequence of operations",
 "The tests build a few graphs with at most five nodes; the invariant must survive every history.",
 ["src/dag/directed_graph.cpp","include/lsqecc/dag/directed_graph.hpp"],
 [("two mirrored adjacency maps","DirectedGraph::add_edge, remove_edge, remove_node, expand")],
 [("edges_","successors by node","DirectedGraph"),("back_edges_","predecessors by node","DirectedGraph")],["DirectedGraph::successors, predecessors, heads, tails"])

prop("C12","A dependency DAG keeps program order between non-commuting instructions",
 "Building a dependency DAG from a stream puts an edge from an earlier to a later instruction exactly when the two are not known to commute, never the other way, so an instruction becomes applicable only once every earlier non-commuting instruction was removed. Replacing an instruction by a sequence keeps those constraints for the whole sequence and orders it internally; proximity (must-run-next) marks follow the instruction when it is replaced and are released when the instruction is removed.",
 ["histories","inputs"],"every instruction stream and every sequence of head removals and expansions",
 "Tests build three small DAGs; ordering is a statement over every stream and history.",
 ["include/lsqecc/dag/dependency_dag.hpp","src/dag/domain_dags.cpp","src/dag/directed_graph.cpp"],
 [("edge rule","DependencyDag::push_instruction_based_on_commutation"),("replacement","DependencyDag::expand"),("removal","DependencyDag::pop_head")],
 [("proximate marks","pairs that must run on consecutive slices","DependencyDag::proximate_dependencies_")],["DependencyDag::applicable_instructions"])

prop("C13","The wave scheduler runs every instruction once, in program order per patch",
 "Scheduling a stream in waves applies every instruction exactly once, and two instructions that depend on a common patch are applied in program order, also when an instruction unfolds into follow-ups: dependents wait for all of them. An instruction that cannot be applied yet is retried in a later wave until its waiting budget is used up, and scheduling ends only when nothing is left.",
 ["programs","histories","schedules"],"every instruction stream and every pattern of refusals by the slice",
 "Tests run no wave schedule with dependencies; exactly-once and order must hold for every program.",
 ["src/scheduler/wave_scheduler.cpp","include/lsqecc/scheduler/wave_scheduler.hpp"],
 [("dependency counting","WaveScheduler::WaveScheduler"),("release of dependents","WaveScheduler::schedule_dependent_instructions"),("retry","WaveScheduler::schedule_instructions")],
 [("dependency_counts_","unfinished predecessors per instruction","WaveScheduler")],["instruction visitor call order"])

prop("C14","Instructions declared to commute act on disjoint qubits",
 "Two lattice-surgery instructions are reported as commuting only if the sets of patches they use, including the ones they merely depend on, are disjoint; two gates only if they share no qubit, or are both controlled with the same control and act on different targets that are not that control. The set of patches or qubits reported for an instruction or gate contains every one it acts on, for every kind of instruction and gate.",
 ["inputs"],"every pair of instructions and every pair of gates",
 "One test compares a few fixed pairs.",
 ["include/lsqecc/gates/gates.hpp","src/gates/gates.cpp","include/lsqecc/ls_instructions/ls_instructions.hpp","src/ls_instructions/ls_instructions.cpp","include/lstk/lstk.hpp"],
 [("commutation traits","dag::CommutationTrait"),("operand sets","gates::get_operating_qubits, LSInstruction::get_operating_patches")],
 (),["CommutationTrait::can_commute"])

prop("C15","Every gate becomes the right lattice-surgery instructions on the right patches",
 "Translating a gate stream emits, in program order, instructions that implement each gate on the patches of its own qubits: Paulis, H, S and its inverse one instruction each, T a magic-state request followed by its teleportation, a CNOT a ZZ measurement of control and ancilla and an XX measurement of ancilla and target in the requested order (or one Bell-based CNOT in local mode), CZ the same between two H on the target. Gates that cannot be expressed are refused rather than dropped or replaced by another one.",
 ["inputs","programs"],"every gate, every qubit index, every CNOT type and ancilla placement, local or not",
 "No test translates gates; a swapped control and target or a lost gate would go unnoticed.",
 ["src/ls_instructions/ls_instruction_stream.cpp","src/ls_instructions/ls_instructions_from_gates.cpp"],
 [("dispatch","LSInstructionStreamFromGateStream::get_next_instruction"),("gadgets","LSIinstructionFromGatesGenerator::make_cnot_instructions, make_t_gate_instructions")],
 (),["instructions returned by the stream"])

prop("C16","Freshly generated patch ids are never reused",
 "The ids given to ancillas, magic states, Y states and Bell halves are different from every id handed out before by the same generator and from the ids the generator was told to stay clear of. Each gadget uses as many fresh ids as it has auxiliary patches and refers to them consistently: every auxiliary patch is created before it is used and measured out (or released) at the end of its gadget.",
 ["histories","programs"],"every program and any number of generated ids",
 "Freshness is a property of whole histories; no test generates two ids.",
 ["include/lsqecc/ls_instructions/id_generator.hpp","src/ls_instructions/ls_instructions_from_gates.cpp","src/ls_instructions/teleported_s_gate_injection_stream.cpp","src/ls_instructions/catalytic_s_gate_injection_stream.cpp"],
 [("counter","IdGenerator::new_id")],
 [("counter_","next id","IdGenerator")],["ids in emitted instructions"])

prop("C17","Decomposing controlled rotations preserves the operation",
 "Decomposing a controlled Z rotation yields half the rotation on the control, half on the target, and minus half on the target between two CNOTs from the same control to the same target with the gate's own CNOT options, with the sign of the angle respected. Gates already in the basic set are returned unchanged, and a gate is reported as decomposed exactly when decomposing it would return just that gate.",
 ["inputs"],"every gate, angle, sign, qubit pair and CNOT option",
 "Tests check a few approximations but no controlled rotation.",
 ["src/gates/gates.cpp","src/gates/gate_approximator.cpp"],
 [("identity","gates::decompose_CRZ_gate"),("dispatch","gates::decompose, gates::is_decomposed")],
 (),["gate list returned by gates::decompose"])

prop("C18","Boundary rotations are injected exactly when an operator is hidden",
 "In the stream with injected rotations the original instructions appear unchanged and in order, and a rotation of a patch is inserted immediately before an instruction exactly when that instruction needs an operator of the patch that is hidden at that point (joint measurements, Bell-based CNOTs and S gates), so that every operator needed is exposed when its instruction runs. Exposure is tracked through every H and every injected rotation, and patches the layout does not describe are left alone.",
 ["programs","histories"],"every instruction stream and every starting exposure",
 "No test runs the injection stream; exposure tracking is a statement about whole programs.",
 ["src/ls_instructions/boundary_rotation_injection_stream.cpp","include/lsqecc/ls_instructions/boundary_rotation_injection_stream.hpp"],
 [("exposure tracking","BoundaryRotationInjectionStream::get_next_instruction")],
 [("exposed_operators_","which operators each patch shows","BoundaryRotationInjectionStream")],["instructions returned by the stream"])

prop("C19","S-gate expansion rewrites exactly the S gates on logical qubits",
 "The two S-gate expansion streams replace every S gate on a logical qubit by their gadget around a fresh Y state (request; ZZ joint measurement, X measurement and Pauli Z for teleportation; or two CNOTs with H and rotation of the Y state after each, then its release for catalysis), on that qubit and Y state only, and pass every other instruction through unchanged and in order. With the option to rotate always, each H on a logical qubit is followed by exactly one rotation of that qubit.",
 ["programs","inputs"],"every instruction stream, both options",
 "No test runs either stream.",
 ["src/ls_instructions/teleported_s_gate_injection_stream.cpp","src/ls_instructions/catalytic_s_gate_injection_stream.cpp"],
 [("rewriting","TeleportedSGateInjectionStream::get_next_instruction, CatalyticSGateInjectionStream::get_next_instruction")],
 (),["instructions returned by the streams"])

prop("C20","Occupancy statistics partition the volume",
 "For every slice the space-time volume counted equals the number of grid cells, each cell is counted in exactly one of the categories unused, distillation, dead, or other, and an unused cell is exactly an empty one. Adding statistics of several slices adds every counter, so totals over a computation are the sums over its slices.",
 ["inputs","histories"],"every slice content and grid size, every number of slices",
 "No test reads the statistics.",
 ["src/patches/slice_stats.cpp","include/lsqecc/patches/slice_stats.hpp"],
 [("counting","SliceStats::compute_volume_counts"),("accumulation","operator+=")],
 (),["SliceStats"])

prop("C21","Serialised slices mirror the compiled slices",
 "The JSON written for a slice has one entry per grid cell in the same rows and columns, empty cells as null; each patch entry shows the patch's type, id, activity and the boundary type and activity of the side it is written under. Two slices that differ in a patch's type, activity, id or a boundary's kind or activity do not serialise alike, except for distinctions the format does not have.",
 ["inputs"],"every slice content and grid size",
 "No test inspects JSON; the mapping must hold for each combination of side, boundary type and activity.",
 ["src/patches/slices_to_json.cpp"],
 [("edge mapping","boundary_to_edges / dense_patch_to_json / slice_to_json")],
 (),["JSON output"])

prop("C22","Route caching is invisible",
 "A caching router returns for every request a route that the underlying search would return for the same patches, operators and orientation: entries never leak between different source, target or operators. Asking twice gives the same answer.",
 ["histories","inputs"],"every sequence of route requests",
 "No test uses the cached router.",
 ["src/layout/router.cpp","include/lsqecc/layout/router.hpp"],
 [("cache key","CachedRouter::PathIdentifier, operator==, hash")],
 [("cached_routes_","routes by request","CachedRouter")],["CachedRouter::find_routing_ancilla"])

prop("C23","The initial slice shows exactly the layout",
 "A new slice has the layout's dimensions; its logical patches sit on the first core cells in order, one distinct requested id each, and its distillation, reserved, dead and pre-distilled cells hold exactly what the layout says; the clocks equal the layout's times, no magic state is available yet, and every other cell is free. Asking for more logical qubits than core cells is refused.",
 ["configurations","inputs"],"every layout and every set of logical ids",
 "Tests use one fixed layout and never look at the initial slice.",
 ["src/patches/dense_slice.cpp","src/layout/layout.cpp"],
 [("construction","DenseSlice::DenseSlice"),("patch template","LayoutHelpers::basic_square_patch")],
 (),["DenseSlice after construction"])

prop("C24","Edge-disjoint-path crossings keep their two label sets apart",
 "When a path crosses another one in a cell, the two boundaries of the old path in that cell end with one reserved label, the two of the new path with the other, and the neighbouring cells' facing boundaries get the same labels; only those boundaries and straight chains of adjacent crossings are relabelled, by swapping the two labels. A crossing at the rim, with an unlabelled or over-used cell, or with the wrong number of old edges is refused.",
 ["inputs","configurations"],"every slice content, crossing cell and direction",
 "No test routes edge-disjoint paths.",
 ["src/patches/dense_slice.cpp"],
 [("relabelling","DenseSlice::mark_boundaries_for_crossing_cell, flip_crossing_chain")],
 [("EDPC_crossing_vertices","cells crossed by two paths","DenseSlice")],["boundary types after the call"])

prop("C25","LS instructions survive printing and parsing",
 "Every instruction kind that has a textual form is read back from its printed text as an equal instruction, for all ids, operators, states and placements the text can express. A line that is not a complete instruction is refused with an error instead of being read as something else or crashing.",
 ["inputs"],"every instruction value and every line of text",
 "Tests parse four fixed lines.",
 ["src/ls_instructions/ls_instructions_parse.cpp","src/ls_instructions/ls_instructions.cpp","src/ls_instructions/parse_utils.cpp","include/lstk/lstk.hpp"],
 [("printer and parser tables","operator<<, parse_ls_instruction")],
 (),["parse_ls_instruction"])

prop("C26","OpenQASM gate lines are read as the gate they name",
 "Every gate line of the supported dialect yields the gate it names on the qubits it names: control and target are taken from the written positions, angles keep numerator, denominator and sign, and CNOT options written in the comment select the CNOT kind and ancilla placement. Unknown gates, bad indices and malformed angles are refused.",
 ["inputs"],"every gate line, qubit index, angle and option",
 "Two tests parse three rz lines.",
 ["src/gates/parse_gates.cpp","src/gates/gates.cpp"],
 [("line parser","parse_qasm_gate, parse_angle"),("option names","CNOTType_fromString, CNOTAncillaPlacement_fromString")],
 (),["parse_qasm_gate"])

prop("C27","The slicing pipelines apply each instruction once and never run past an error",
 "The streaming pipeline applies the instructions of its stream in order, each exactly once, advancing the slice between conflicting ones, emits every slice it builds exactly once, and stops with an error (or, in graceful mode, a clean stop) at the first instruction that cannot be applied within its waiting budget. The counts of slices and instructions it reports equal the slices emitted and the instructions applied.",
 ["programs","histories"],"every instruction stream, layout and option",
 "One test counts the slices of one program.",
 ["src/patches/dense_patch_computation.cpp"],
 [("main loops","run_through_dense_slices_streamed, run_through_dense_slices_dag, run_through_dense_slices_wave")],
 (),["slice visitor, instruction visitor, result counters"])

prop("C28","Text and set helpers behave like their mathematical counterparts",
 "Splitting a text and joining the pieces with the separator gives the text back, pieces never contain the separator, and splitting never reads outside the text; trimming removes exactly the surrounding blanks. Intersection and union of two sets contain exactly the common elements and exactly the elements of either, and popping from or extending a queue preserves order and loses nothing. Replacing a character changes its occurrences and nothing else.",
 ["inputs"],"every text, separator, set and queue",
 "Tests split five fixed strings and intersect two fixed sets.",
 ["include/lstk/lstk.hpp"],
 [("helpers","lstk::split_on, join, set_intersection, set_union, queue_pop, queue_extend")],
 (),["return values"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
print(len(P))
