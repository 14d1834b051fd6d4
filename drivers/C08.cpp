
// C08: every local instruction on random slices, with and without edge-disjoint-path routing, against a written-out oracle.
#include "slices.hpp"
#include <lsqecc/patches/dense_patch_computation.hpp>
#include <lsqecc/layout/router.hpp>
using namespace lsqecc;
namespace lsqecc {
InstructionApplicationResult try_apply_local_instruction(DenseSlice&, LocalInstruction::LocalLSInstruction, const Layout&, Router&);
}
static Boundary& side(DensePatch& p, const Cell& me, const Cell& o)
{
    if (o.row < me.row) return p.boundaries.top;
    if (o.row > me.row) return p.boundaries.bottom;
    if (o.col < me.col) return p.boundaries.left;
    return p.boundaries.right;
}
static bool act(const DensePatch& p)
{
    return p.activity != PatchActivity::None || p.boundaries.top.is_active || p.boundaries.bottom.is_active || p.boundaries.left.is_active || p.boundaries.right.is_active;
}
static DensePatch basic(std::optional<PatchId> id, PatchActivity a, std::optional<std::string> label)
{
    DensePatch p{}; p.type = PatchType::Qubit; p.activity = a; p.id = id; p.label = label;
    p.boundaries.top = p.boundaries.bottom = Boundary{BoundaryType::Smooth, false};
    p.boundaries.left = p.boundaries.right = Boundary{BoundaryType::Rough, false};
    return p;
}
static bool eq_but_label(std::optional<DensePatch> a, std::optional<DensePatch> b)
{
    if (a) a->label.reset();
    if (b) b->label.reset();
    return sl::patch_eq(a, b);
}

int main()
{
    drv::init("random slices of 1x2..4x4 cells (empty, qubit, routing, reserved, active cells), every kind of local instruction on random adjacent cells, EDPC on/off; compared with a written-out oracle");
    drv::Timer T;
    const double lim = drv::budget(20, 200);
    const int n = drv::thorough() ? 400000 : 60000;
    for (int k = 0; k < n && T.s() < lim; k++) {
        sl::TestLayout lay(drv::rnd(1, 4), drv::rnd(2, 4));
        DenseSlice s = sl::rand_slice(lay, drv::rnd(0, 2) * 35 + 15);
        Cell a{drv::rnd(0, lay.rows - 1), drv::rnd(0, lay.cols - 1)}, b = a;
        for (;;) { int d = drv::rnd(0, 3); static const int dr[] = {-1, 1, 0, 0}, dc[] = {0, 0, -1, 1}; b = Cell{a.row + dr[d], a.col + dc[d]}; if (b.row >= 0 && b.col >= 0 && b.row < lay.rows && b.col < lay.cols) break; }
        // make interesting combinations likely
        for (Cell c : {a, b}) { int w = drv::rnd(0, 5); auto& o = s.cells[c.row][c.col];
            if (w == 0) o = std::nullopt;
            if (w == 1 || w == 2) { o = basic(drv::rnd(0, 6), PatchActivity::None, std::nullopt); if (drv::coin()) o->boundaries = sl::rand_bounds(); if (drv::rnd(0, 3)) for (Boundary* q : {&o->boundaries.top, &o->boundaries.bottom, &o->boundaries.left, &o->boundaries.right}) q->is_active = false; }
            if (w == 3) { o = sl::rand_patch(); o->activity = drv::coin() ? PatchActivity::EDPC : PatchActivity::Reserved; } }
        CustomDPRouter router; bool ed = drv::coin(); if (ed) router.set_EDPC();
        auto oid = [&]() -> std::optional<PatchId> { if (drv::rnd(0, 3)) return (PatchId)drv::rnd(10, 20); return std::nullopt; };
        LocalInstruction::LocalLSInstruction in; int kind = drv::rnd(0, 6); std::optional<PatchId> i1 = oid(), i2 = oid();
        switch (kind) {
        case 0: in.operation = LocalInstruction::PrepareY{i1, a}; break;
        case 1: in.operation = LocalInstruction::BellPrepare{i1, i2, a, b}; break;
        case 2: in.operation = LocalInstruction::BellMeasure{a, b}; break;
        case 3: in.operation = LocalInstruction::Move{a, b, i1}; break;
        case 4: in.operation = LocalInstruction::TwoPatchMeasure{a, b}; break;
        case 5: in.operation = LocalInstruction::ExtendSplit{i1, a, b}; break;
        default: in.operation = LocalInstruction::MergeContract{a, b}; break;
        }
        std::ostringstream t; t << sl::show(s) << " kind " << kind << " cells " << a << b << " ids " << (i1 ? (int)*i1 : -1) << "," << (i2 ? (int)*i2 : -1) << " edpc=" << ed;
        static const char* names[] = {"PrepareY", "BellPrepare", "BellMeasure", "Move", "TwoPatchMeasure", "ExtendSplit", "MergeContract"};
        drv::cas(names[kind], t.str());
        auto usable = [&](const Cell& c) { auto& o = s.patch_at(c); return !o || (ed && (o->activity == PatchActivity::EDPC || o->activity == PatchActivity::Reserved)); };
        auto idle = [&](const Cell& c) { auto& o = s.patch_at(c); return o && !act(*o); };
        bool ok = kind == 0 ? !s.patch_at(a) : kind == 1 ? usable(a) && usable(b) : kind == 3 || kind == 5 ? idle(a) && usable(b) : idle(a) && idle(b);
        DenseSlice r = s; bool err = false;
        try { auto res = try_apply_local_instruction(r, in, lay, router); err = (bool)res.maybe_error; CHECK_("followups", res.followup_instructions.empty(), t.str() << " follow-ups"); } catch (const std::exception&) { err = true; }
        CHECK_(std::string("refusal:") + names[kind], err == !ok, t.str() << " refused=" << err);
        if (err) { CHECK_(std::string("unchanged:") + names[kind], sl::same(r, s), t.str() << " refused but became " << sl::show(r)); continue; }
        if (!ok) continue;
        DenseSlice w = s; auto &wa = w.cells[a.row][a.col], &wb = w.cells[b.row][b.col];
        std::string key = std::string("effect:") + names[kind];
        auto on = [&]() { side(*wa, a, b).is_active = true; side(*wb, b, a).is_active = true; };
        switch (kind) {
        case 0: wa = basic(i1, PatchActivity::Unitary, {}); break;
        case 1: wa = basic(i1, PatchActivity::None, {}); wb = basic(i2, PatchActivity::None, {}); on(); break;
        case 2: wa->activity = wb->activity = PatchActivity::Measurement; on(); break;
        case 3: wb = basic(i1 ? i1 : wa->id, PatchActivity::None, {}); wa->activity = PatchActivity::Measurement; wa->id.reset(); on(); break;
        case 4: on(); break;
        case 5: wb = basic(i1, PatchActivity::None, {}); on(); break;
        default: wb->activity = PatchActivity::Measurement; on(); break;
        }
        CHECK_(key, eq_but_label(r.patch_at(a), wa), t.str() << " first cell became " << sl::show(r));
        CHECK_(key, eq_but_label(r.patch_at(b), kind == 0 ? s.patch_at(b) : wb), t.str() << " second cell became " << sl::show(r));
        CHECK_(key, sl::cells_eq_except(r, s, kind == 0 ? std::set<Cell>{a} : std::set<Cell>{a, b}) && sl::same_rest(r, s), t.str() << " other cells: became " << sl::show(r));
    }
    return drv::finish();
}
