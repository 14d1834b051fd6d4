// C07: the busy region of a rotation, and its life on random slices until the patch is back.
#include "route.hpp"
using namespace lsqecc;
namespace lsqecc { BusyRegion single_patch_rotation_a_la_litinski(const SparsePatch& target_patch, const Cell& free_neighbour); }
static bool beq(const Boundary& a, const Boundary& b) { return a.boundary_type == b.boundary_type && a.is_active == b.is_active; }
static CellBoundaries turn(const CellBoundaries& b) { CellBoundaries r = b; r.right = b.top; r.bottom = b.right; r.left = b.bottom; r.top = b.left; return r; }
static bool quarter(const CellBoundaries& a, const CellBoundaries& b)
{
    CellBoundaries x = turn(a);
    return beq(x.top, b.top) && beq(x.bottom, b.bottom) && beq(x.left, b.left) && beq(x.right, b.right);
}
static bool joined(const SingleCellOccupiedByPatch& w, Cell me, Cell o)
{
    SingleCellOccupiedByPatch e{CellBoundaries{{BoundaryType::None, false}, {BoundaryType::None, false}, {BoundaryType::None, false}, {BoundaryType::None, false}}, me};
    rt::side(e, me, o) = Boundary{BoundaryType::Connected, true};
    return w.cell == me && beq(w.top, e.top) && beq(w.bottom, e.bottom) && beq(w.left, e.left) && beq(w.right, e.right);
}
static bool base(const Patch& a, const Patch& b) { return a.type == b.type && a.id == b.id && a.label == b.label; }
int main()
{
    drv::init("random single-cell patches and neighbours (region built); several-cell patches (refused); rotations of random patches on random slices of 1x2..4x4 cells followed until the busy region ends, slices advanced in between");
    drv::Timer T;
    const double lim = drv::budget(20, 200);
    const int n = drv::thorough() ? 200000 : 30000;
    for (int k = 0; k < n && T.s() < lim; k++) {
        {
            Cell me{drv::rnd(-3, 9), drv::rnd(-3, 9)}; int d = drv::rnd(0, 3); Cell o{me.row + rt::DR[d], me.col + rt::DC[d]};
            DensePatch p = sl::rand_patch();
            SparsePatch sp = p.to_sparse_patch(me);
            std::ostringstream t; t << sl::show(p) << " at " << me << " turning into " << o;
            drv::cas("region", t.str());
            BusyRegion r = single_patch_rotation_a_la_litinski(sp, o);
            CHECK_("steps", r.steps_to_clear == 3, t.str() << " lasts " << r.steps_to_clear);
            CHECK_("region", r.region.cells.size() == 2 && joined(r.region.cells[0], me, o) && joined(r.region.cells[1], o, me), t.str());
            bool one = r.state_after_clearing.size() == 1 && std::holds_alternative<SingleCellOccupiedByPatch>(r.state_after_clearing[0].cells);
            CHECK_("back", one, t.str());
            if (one) {
                auto& q = r.state_after_clearing[0]; auto& c = std::get<SingleCellOccupiedByPatch>(q.cells);
                CHECK_("back", base(q, sp) && q.activity == sp.activity && q.operation_id == sp.operation_id && c.cell == me, t.str());
                CHECK_("turn", quarter(p.boundaries, c), t.str() << " became " << sl::show(static_cast<CellBoundaries&>(c)));
            }
            if (k % 50 == 0) {
                SparsePatch m = sp; MultipleCellsOccupiedByPatch mc; mc.sub_cells = {sl::rand_single(me), sl::rand_single(o)}; m.cells = mc;
                drv::cas("several-cells", t.str());
                bool thrown = false; try { single_patch_rotation_a_la_litinski(m, Cell{me.row + 5, me.col}); } catch (const std::exception&) { thrown = true; }
                CHECK_("several-cells", thrown, t.str() << " (two cells) was rotated");
            }
        }
        sl::TestLayout lay(drv::rnd(1, 4), drv::rnd(2, 4));
        std::vector<Cell> where;
        DenseSlice s = rt::uniq_slice(lay, drv::rnd(1, 4) * 20, &where);
        if (where.empty()) continue;
        Cell me = where[drv::rnd(0, (int)where.size() - 1)];
        auto p0 = *rt::at(s, me);
        rt::FakeRouter router;
        LSInstruction in{RotateSingleCellPatch{*p0.id}};
        std::ostringstream t; t << sl::show(s) << " rotate " << *p0.id << " at " << me;
        drv::cas("life", t.str());
        bool room = false; for (int d = 0; d < 4; d++) { Cell c{me.row + rt::DR[d], me.col + rt::DC[d]}; if (rt::in(lay, c) && !rt::at(s, c)) room = true; }
        DenseSlice before = s; DenseSlice w = s;
        auto r = try_apply_instruction_direct_followup(s, in, drv::coin(), drv::coin(), drv::coin(), lay, router);
        CHECK_("refusal", (bool)r.maybe_error == !room, t.str());
        if (r.maybe_error) { CHECK_("unchanged", sl::same(s, before) && r.followup_instructions.empty(), t.str()); continue; }
        if (!room) continue;
        std::optional<Cell> spare;
        for (int d = 0; d < 4; d++) { Cell c{me.row + rt::DR[d], me.col + rt::DC[d]}; if (rt::in(lay, c) && !rt::at(before, c) && rt::at(s, c)) spare = c; }
        CHECK_("spare", spare.has_value(), t.str() << " became " << sl::show(s));
        if (!spare) continue;
        int slices = 0; bool bad = false;
        for (int step = 0; step < 8; step++) {
            // both cells busy, everything else as without the rotation
            slices++;
            for (Cell c : {me, *spare}) if (!(rt::at(s, c) && rt::at(s, c)->type == PatchType::Routing && rt::at(s, c)->activity == PatchActivity::Rotation && !rt::at(s, c)->id)) bad = true;
            if (!sl::cells_eq_except(s, w, {me, *spare})) bad = true;
            CHECK_("busy", !bad, t.str() << " after " << step << " steps: " << sl::show(s)); if (bad) break;
            if (r.followup_instructions.size() != 1) { drv::fail("followup", t.str() + " has not exactly one follow-up"); bad = true; break; }
            LSInstruction next = r.followup_instructions[0];
            advance_slice(s, lay); advance_slice(w, lay);
            r = try_apply_instruction_direct_followup(s, next, drv::coin(), drv::coin(), drv::coin(), lay, router);
            if (r.maybe_error) { drv::fail("release", t.str() + " refused: " + r.maybe_error->what()); bad = true; break; }
            if (r.followup_instructions.empty()) break;
        }
        if (bad) continue;
        CHECK_("three-steps", slices == 3, t.str() << " was busy for " << slices << " steps");
        auto& q = rt::at(s, me);
        CHECK_("back", q && base(*q, p0) && quarter(p0.boundaries, q->boundaries), t.str() << " came back as " << (q ? sl::show(*q) : "."));
        CHECK_("spare-free", !rt::at(s, *spare), t.str() << " ended as " << sl::show(s));
        CHECK_("elsewhere", sl::cells_eq_except(s, w, {me, *spare}), t.str() << " ended as " << sl::show(s));
    }
    return drv::finish();
}
