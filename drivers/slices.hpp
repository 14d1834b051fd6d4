// Random slices and layouts for the replay drivers.
#pragma once
#include "drv.hpp"
#include <lsqecc/patches/dense_slice.hpp>
#include <lsqecc/patches/patches.hpp>
#include <lsqecc/layout/layout.hpp>

namespace sl {
using namespace lsqecc;
struct TestLayout : Layout {
    int rows, cols;
    std::vector<SparsePatch> core;
    std::vector<MultipleCellsOccupiedByPatch> regions;
    std::vector<std::vector<Cell>> outputs;
    DistillationTimeMap times;
    std::vector<Cell> anc, dead, reserved, ystates;
    bool magic_reserved = false;
    TestLayout(int r, int c) : rows(r), cols(c) {}
    const std::vector<SparsePatch>& core_patches() const override { return core; }
    Cell furthest_cell() const override { return Cell{rows - 1, cols - 1}; }
    const std::vector<MultipleCellsOccupiedByPatch>& distillation_regions() const override { return regions; }
    const std::vector<Cell>& distilled_state_locations(size_t i) const override { return outputs.at(i); }
    const DistillationTimeMap& distillation_times() const override { return times; }
    const std::vector<Cell>& ancilla_location() const override { return anc; }
    const std::vector<Cell>& dead_location() const override { return dead; }
    const std::vector<Cell>& reserved_for_magic_states() const override { return reserved; }
    const std::vector<Cell>& predistilled_y_states() const override { return ystates; }
    const bool magic_states_reserved() const override { return magic_reserved; }
};
inline Boundary rand_boundary() { return Boundary{static_cast<BoundaryType>(drv::rnd(0, 5)), drv::rnd(0, 3) == 0}; }
inline CellBoundaries rand_bounds() { return CellBoundaries{rand_boundary(), rand_boundary(), rand_boundary(), rand_boundary()}; }
inline SingleCellOccupiedByPatch rand_single(Cell c) { return SingleCellOccupiedByPatch{rand_bounds(), c}; }
inline DensePatch rand_patch(int max_id = 6)
{
    DensePatch p{};
    p.type = static_cast<PatchType>(drv::rnd(0, 4));
    p.activity = static_cast<PatchActivity>(drv::coin() ? 0 : drv::rnd(0, 8));
    if (drv::rnd(0, 3)) p.id = (PatchId)drv::rnd(0, max_id);
    if (drv::rnd(0, 3) == 0) p.label = "L" + std::to_string(drv::rnd(0, 3));
    if (drv::rnd(0, 3) == 0) p.operation_id = (OpId)drv::rnd(0, 9);
    p.boundaries = rand_bounds();
    return p;
}
inline DenseSlice rand_slice(const Layout& lay, int fill_pct = 60)
{
    DenseSlice s(lay);
    for (auto& row : s.cells) for (auto& c : row) if (drv::rnd(0, 99) < fill_pct) c = rand_patch();
    return s;
}
inline std::string show(const Boundary& b) { static const char* n = "-CRS12"; std::string r(1, n[(int)b.boundary_type]); if (b.is_active) r += "*"; return r; }
inline std::string show(const CellBoundaries& b) { return "[t" + show(b.top) + " b" + show(b.bottom) + " l" + show(b.left) + " r" + show(b.right) + "]"; }
inline std::string show(const SingleCellOccupiedByPatch& p) { std::ostringstream o; o << p.cell << show(static_cast<const CellBoundaries&>(p)); return o.str(); }
inline std::string show(const Patch& p)
{
    std::ostringstream o; o << "T" << (int)p.type << "A" << (int)p.activity;
    if (p.id) o << "#" << *p.id;
    if (p.label) o << "'" << *p.label;
    if (p.operation_id) o << "op" << *p.operation_id;
    return o.str();
}
inline std::string show(const DensePatch& p) { return show(static_cast<const Patch&>(p)) + show(p.boundaries); }
inline std::string show(const DenseSlice& s)
{
    std::ostringstream o; o << "{";
    for (auto& row : s.cells) { for (auto& c : row) o << (c ? show(*c) : std::string(".")) << " "; o << "/ "; }
    o << "magic:"; for (auto& c : s.magic_states) o << c;
    o << " clocks:"; for (auto t : s.time_to_next_magic_state_by_distillation_region) o << t << ",";
    o << " y:" << s.predistilled_ystates_available << " x:"; for (auto& c : s.EDPC_crossing_vertices) o << c;
    o << "}";
    return o.str();
}
inline bool same_rest(const DenseSlice& a, const DenseSlice& b)
{
    return a.magic_states == b.magic_states && a.time_to_next_magic_state_by_distillation_region == b.time_to_next_magic_state_by_distillation_region
        && a.predistilled_ystates_available == b.predistilled_ystates_available && a.EDPC_crossing_vertices == b.EDPC_crossing_vertices && &a.layout.get() == &b.layout.get();
}
inline bool patch_eq(const std::optional<DensePatch>& a, const std::optional<DensePatch>& b)
{
    if (a.has_value() != b.has_value()) return false;
    if (!a) return true;
    return static_cast<const Patch&>(*a) == static_cast<const Patch&>(*b) && a->boundaries == b->boundaries;
}
inline bool cells_eq(const DenseSlice& a, const DenseSlice& b)
{
    if (a.cells.size() != b.cells.size()) return false;
    for (size_t r = 0; r < a.cells.size(); r++) { if (a.cells[r].size() != b.cells[r].size()) return false; for (size_t c = 0; c < a.cells[r].size(); c++) if (!patch_eq(a.cells[r][c], b.cells[r][c])) return false; }
    return true;
}
// do a and b agree on every cell but the given ones?
inline bool cells_eq_except(const DenseSlice& a, const DenseSlice& b, const std::set<Cell>& ex)
{
    if (a.cells.size() != b.cells.size()) return false;
    for (size_t r = 0; r < a.cells.size(); r++) { if (a.cells[r].size() != b.cells[r].size()) return false; for (size_t c = 0; c < a.cells[r].size(); c++) if (!ex.count(Cell{(int)r, (int)c}) && !patch_eq(a.cells[r][c], b.cells[r][c])) return false; }
    return true;
}
inline bool same(const DenseSlice& a, const DenseSlice& b) { return cells_eq(a, b) && same_rest(a, b); }
}
