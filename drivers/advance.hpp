// Oracle for advancing a slice (C02, C03).
#pragma once
#include "slices.hpp"
#include <lsqecc/patches/dense_patch_computation.hpp>
namespace lsqecc { void advance_slice(DenseSlice& slice, const Layout& layout); std::optional<Cell> find_place_for_magic_state(const DenseSlice& slice, const Layout& layout, size_t distillation_region_idx); }
namespace adv {
using namespace lsqecc;
inline std::vector<Cell> pick_cells(const sl::TestLayout& l, int n)
{
    std::vector<Cell> all; for (int r = 0; r < l.rows; r++) for (int c = 0; c < l.cols; c++) all.push_back({r, c});
    std::shuffle(all.begin(), all.end(), drv::rng());
    all.resize(std::min<size_t>(all.size(), n));
    return all;
}
struct Case { sl::TestLayout lay; std::optional<DenseSlice> s; Case() : lay(drv::rnd(1, 4), drv::rnd(1, 4)) {} };
inline std::string show(const Case& k)
{
    std::ostringstream t; t << (k.lay.magic_reserved ? "reserved" : "factories") << " times:"; for (auto x : k.lay.times) t << x << ",";
    t << " reserved cells:"; for (auto c : k.lay.reserved) t << c;
    t << " outputs:"; for (auto& o : k.lay.outputs) { t << "["; for (auto c : o) t << c; t << "]"; }
    t << " " << sl::show(*k.s); return t.str();
}
inline void make(Case& k)
{
    k.lay.magic_reserved = drv::coin();
    int n = drv::rnd(0, 3);
    if (k.lay.magic_reserved) { k.lay.reserved = pick_cells(k.lay, n); n = (int)k.lay.reserved.size(); }
    for (int i = 0; i < n; i++) { k.lay.times.push_back(drv::rnd(1, 5)); k.lay.outputs.push_back(pick_cells(k.lay, drv::rnd(0, 3))); }
    static const int fill[] = {0, 30, 60, 100};
    k.s.emplace(sl::rand_slice(k.lay, fill[drv::rnd(0, 3)]));
    auto& s = *k.s;
    s.time_to_next_magic_state_by_distillation_region.clear();
    s.magic_states.clear();
    for (auto c : pick_cells(k.lay, drv::rnd(0, 2))) s.EDPC_crossing_vertices.insert(c);
    for (int i = 0; i < n; i++) s.time_to_next_magic_state_by_distillation_region.push_back(k.lay.magic_reserved ? drv::rnd(0, 3) : drv::rnd(1, 3));
    if (k.lay.magic_reserved)
        for (int i = 0; i < n; i++) {
            auto& p = s.patch_at(k.lay.reserved[i]);
            if (p && drv::coin()) p->type = PatchType::Distillation;
            auto& t = s.time_to_next_magic_state_by_distillation_region[i];
            if (p && p->type == PatchType::Distillation && t == 0) t = 1;
        }
    for (int r = 0; r < k.lay.rows; r++) for (int c = 0; c < k.lay.cols; c++) if (auto& p = s.cells[r][c]; p && p->type == PatchType::PreparedState && drv::coin()) s.magic_states.insert(Cell{r, c});
}
// one cell after a step, before magic states are produced
inline std::optional<DensePatch> step(std::optional<DensePatch> p)
{
    if (!p) return p;
    if (p->activity == PatchActivity::Measurement || p->activity == PatchActivity::MultiPatchMeasurement) return std::nullopt;
    if (p->activity == PatchActivity::Unitary) p->activity = PatchActivity::None;
    else if (p->activity == PatchActivity::EDPC) p->activity = PatchActivity::Reserved;
    if (p->activity != PatchActivity::Rotation && p->activity != PatchActivity::Reserved)
        for (Boundary* b : {&p->boundaries.top, &p->boundaries.bottom, &p->boundaries.left, &p->boundaries.right}) b->is_active = false;
    return p;
}
inline DensePatch magic()
{
    DensePatch p{}; p.type = PatchType::PreparedState; p.activity = PatchActivity::None;
    p.boundaries = {{BoundaryType::Smooth, false}, {BoundaryType::Smooth, false}, {BoundaryType::Rough, false}, {BoundaryType::Rough, false}};
    return p;
}
inline bool magic_like(const std::optional<DensePatch>& p) { if (!p) return false; DensePatch q = *p; q.label = std::nullopt; return sl::patch_eq(q, magic()); }
inline DensePatch distilling()
{
    DensePatch p{}; p.type = PatchType::Distillation; p.activity = PatchActivity::Distillation;
    Boundary b{BoundaryType::Connected, false}; p.boundaries = {b, b, b, b}; return p;
}
inline std::optional<DensePatch>& at(DenseSlice& s, Cell c) { return s.cells.at(c.row).at(c.col); }
// expected slice; prepared patches carry no label (the label is not compared)
inline DenseSlice expect(const Case& k)
{
    DenseSlice s = *k.s;
    for (auto& row : s.cells) for (auto& p : row) p = step(p);
    auto& clk = s.time_to_next_magic_state_by_distillation_region;
    for (size_t i = 0; i < clk.size(); i++) {
        if (k.lay.magic_reserved) {
            Cell c = k.lay.reserved[i]; auto& p = at(s, c);
            if (!p) { p = distilling(); clk[i] = k.lay.times[i]; }
            else if (p->type == PatchType::Distillation && --clk[i] == 0) { p = magic(); s.magic_states.insert(c); }
        } else if (--clk[i] == 0) {
            clk[i] = k.lay.times[i];
            for (Cell c : k.lay.outputs[i]) if (!at(s, c)) { at(s, c) = magic(); s.magic_states.insert(c); break; }
        }
    }
    s.EDPC_crossing_vertices.clear();
    return s;
}
}
