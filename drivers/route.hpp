// Slices with unique ids, a router whose answers are scripted, and the oracle of a merge (C05, C07, C10).
#pragma once
#include "slices.hpp"
#include <lsqecc/layout/router.hpp>
#include <lsqecc/patches/dense_patch_computation.hpp>
#include <algorithm>
namespace lsqecc {
bool merge_patches(DenseSlice&, Router&, PatchId, PauliOperator, PatchId, PauliOperator, bool);
void advance_slice(DenseSlice& slice, const Layout& layout);
InstructionApplicationResult try_apply_instruction_direct_followup(DenseSlice&, LSInstruction&, bool, bool, bool, const Layout&, Router&);
}
namespace rt {
using namespace lsqecc;
struct FakeRouter : Router {
    std::optional<RoutingRegion> answer; bool edpc = false;
    mutable int calls = 0;
    std::optional<RoutingRegion> find_routing_ancilla(const Slice&, PatchId, PauliOperator, PatchId, PauliOperator) const override { calls++; return answer; }
    void set_graph_search_provider(GraphSearchProvider) override {}
    void set_EDPC() override { edpc = true; }
    bool get_EDPC() override { return edpc; }
};
static const int DR[] = {-1, 1, 0, 0}, DC[] = {0, 0, -1, 1};
inline Boundary& side(CellBoundaries& b, Cell me, Cell o)
{
    if (o.row < me.row) return b.top;
    if (o.row > me.row) return b.bottom;
    if (o.col < me.col) return b.left;
    return b.right;
}
inline bool in(const sl::TestLayout& l, Cell c) { return c.row >= 0 && c.col >= 0 && c.row < l.rows && c.col < l.cols; }
inline std::optional<DensePatch>& at(DenseSlice& s, Cell c) { return s.cells.at(c.row).at(c.col); }
inline const std::optional<DensePatch>& at(const DenseSlice& s, Cell c) { return s.cells.at(c.row).at(c.col); }
inline bool act(const DensePatch& p)
{
    return p.activity != PatchActivity::None || p.boundaries.top.is_active || p.boundaries.bottom.is_active || p.boundaries.left.is_active || p.boundaries.right.is_active;
}
inline void calm(DensePatch& p) { p.activity = PatchActivity::None; for (Boundary* q : {&p.boundaries.top, &p.boundaries.bottom, &p.boundaries.left, &p.boundaries.right}) q->is_active = false; }
// random slice in which every id occurs once; half of the patches idle
inline DenseSlice uniq_slice(const sl::TestLayout& lay, int fill, std::vector<Cell>* where = nullptr)
{
    DenseSlice s = sl::rand_slice(lay, fill);
    PatchId n = 0; std::vector<PatchId> ids; for (int i = 0; i < 40; i++) ids.push_back(i);
    std::shuffle(ids.begin(), ids.end(), drv::rng());
    for (int r = 0; r < lay.rows; r++) for (int c = 0; c < lay.cols; c++) if (auto& p = s.cells[r][c]) {
        if (drv::rnd(0, 3)) calm(*p);
        if (drv::rnd(0, 4)) { p->id = ids[n++]; if (where) where->push_back({r, c}); } else p->id = std::nullopt;
    }
    return s;
}
// random simple path of free cells from a neighbour of a to a neighbour of b; empty when a and b touch
inline std::optional<RoutingRegion> path(const DenseSlice& s, const sl::TestLayout& lay, Cell a, Cell b)
{
    auto adj = [](Cell x, Cell y) { return std::abs(x.row - y.row) + std::abs(x.col - y.col) == 1; };
    RoutingRegion R{};
    if (a != b && adj(a, b) && drv::rnd(0, 3)) return R;
    for (int tries = 0; tries < 6; tries++) {
        std::vector<Cell> w; Cell here = a; size_t len = drv::rnd(1, 9);
        while (true) {
            if (!w.empty() && adj(here, b) && (a != b || w.size() > 1) && (w.size() >= len || drv::rnd(0, 2) == 0)) break;
            std::vector<Cell> nx;
            for (int d = 0; d < 4; d++) { Cell c{here.row + DR[d], here.col + DC[d]}; if (in(lay, c) && !at(s, c) && std::find(w.begin(), w.end(), c) == w.end()) nx.push_back(c); }
            if (nx.empty()) { w.clear(); break; }
            here = nx[drv::rnd(0, (int)nx.size() - 1)]; w.push_back(here);
        }
        if (w.empty()) continue;
        for (size_t i = 0; i < w.size(); i++) {
            SingleCellOccupiedByPatch q{CellBoundaries{{BoundaryType::None, false}, {BoundaryType::None, false}, {BoundaryType::None, false}, {BoundaryType::None, false}}, w[i]};
            for (Cell n : {i ? w[i - 1] : a, i + 1 < w.size() ? w[i + 1] : b}) side(q, w[i], n) = Boundary{BoundaryType::Connected, true};
            R.cells.push_back(q);
        }
        std::reverse(R.cells.begin(), R.cells.end());   // routers list a route from the target to the source
        return R;
    }
    return std::nullopt;
}
inline std::string show(const std::optional<RoutingRegion>& r) { if (!r) return "no route"; std::ostringstream o; o << "route"; for (auto& c : r->cells) o << " " << c.cell; return o.str(); }
// what an accepted merge makes of s
inline DenseSlice merged(DenseSlice s, Cell a, Cell b, const RoutingRegion& R, std::optional<OpId> op)
{
    Cell fa = R.cells.empty() ? b : R.cells.back().cell, fb = R.cells.empty() ? a : R.cells.front().cell;
    side(at(s, a)->boundaries, a, fa).is_active = true;
    side(at(s, b)->boundaries, b, fb).is_active = true;
    for (auto& c : R.cells) {
        DensePatch p{}; p.type = PatchType::Routing; p.activity = PatchActivity::MultiPatchMeasurement; p.operation_id = op; p.boundaries = c;
        at(s, c.cell) = p;
    }
    return s;
}
inline std::optional<OpId> op_of(const DenseSlice& s, const RoutingRegion& R) { if (R.cells.empty()) return std::nullopt; auto& o = at(s, R.cells[0].cell); if (!o) return std::nullopt; return o->operation_id; }
// ids of a series of merges are used once
struct OpIds {
    std::set<OpId> used;
    void check(const std::string& t, bool gen, const DenseSlice& r, const RoutingRegion& R)
    {
        if (R.cells.empty()) return;
        auto o = op_of(r, R);
        CHECK_("op-id", o.has_value() == gen, t << " operation id present=" << o.has_value());
        if (o) { CHECK_("op-id-shared", used.insert(*o).second, t << " operation id " << *o << " was used before"); }
    }
};
}
