// C04 replay search: geometry of cells, boundaries and turns on the real functions.
//SOURCES: patches/patches.cpp patches/dense_slice.cpp layout/layout.cpp lstk pauli
#include "drv.hpp"
#include "slices.hpp"
using namespace lsqecc;

int main()
{
    drv::init("all small grids, cells, directions and boundary kinds, exhaustively; random coordinates beyond; non-trivial: distinct input");
    const CellDirection dirs[] = {CellDirection::top, CellDirection::bottom, CellDirection::left, CellDirection::right};
    const int dr[] = {-1, 1, 0, 0}, dc[] = {0, 0, -1, 1};
    const CellDirection opp[] = {CellDirection::bottom, CellDirection::top, CellDirection::right, CellDirection::left};
    const BoundaryType bts[] = {BoundaryType::None, BoundaryType::Connected, BoundaryType::Rough, BoundaryType::Smooth, BoundaryType::Reserved_Label1, BoundaryType::Reserved_Label2};
    const BoundaryType dual[] = {BoundaryType::Connected, BoundaryType::None, BoundaryType::Smooth, BoundaryType::Rough, BoundaryType::Reserved_Label2, BoundaryType::Reserved_Label1};
    for (int i = 0; i < 4; i++) { drv::cas("opposite", std::to_string(i)); CHECK_("opposite", !dirs[i] == opp[i], "direction " << i); }
    for (int i = 0; i < 6; i++) { drv::cas("dual", std::to_string(i)); CHECK_("dual", !bts[i] == dual[i], "boundary type " << i); }
    for (PauliOperator op : {PauliOperator::I, PauliOperator::X, PauliOperator::Y, PauliOperator::Z}) {
        drv::cas("operator", std::to_string((int)op));
        bool threw = false; BoundaryType b{};
        try { b = boundary_for_operator(op); } catch (const std::exception&) { threw = true; }
        if (op == PauliOperator::X) CHECK_("operator", !threw && b == BoundaryType::Rough, "X");
        if (op == PauliOperator::Z) CHECK_("operator", !threw && b == BoundaryType::Smooth, "Z");
        if (op == PauliOperator::I || op == PauliOperator::Y) CHECK_("operator", threw, "I or Y is not refused");
    }
    for (int orow = -1; orow <= 1; orow++) for (int ocol = -1; ocol <= 1; ocol++)
    for (int fr = 0; fr <= 3; fr++) for (int fc = 0; fc <= 3; fc++)
    for (int r = orow; r <= fr; r++) for (int c = ocol; c <= fc; c++) {
        Cell me{r, c}, o{orow, ocol}, f{fr, fc};
        std::ostringstream t; t << "cell " << me << " box " << o << f;
        drv::cas("box", t.str());
        auto ns = me.get_neigbours_within_bounding_box_inclusive(o, f);
        std::set<Cell> want;
        for (int d = 0; d < 4; d++) {
            Cell n{r + dr[d], c + dc[d]};
            bool in = n.row >= orow && n.row <= fr && n.col >= ocol && n.col <= fc;
            auto g = me.get_directional_neighbor(o, f, dirs[d]);
            CHECK_("direction", g.has_value() == in, t.str() << " dir " << d);
            if (g && in) CHECK_("direction", *g == n, t.str() << " dir " << d << " got " << *g);
            if (in) { want.insert(n); auto back = n.get_directional_neighbor(o, f, opp[d]); CHECK_("direction", back && *back == me, t.str() << " back " << d); }
        }
        CHECK_("neighbours", ns.size() == want.size() && std::set<Cell>(ns.begin(), ns.end()) == want, t.str() << " neighbours in box");
    }
    for (int k = 0; k < 400; k++) {
        Cell me{drv::rnd(-1000000, 1000000), drv::rnd(-1000000, 1000000)};
        auto ns = me.get_neigbours();
        std::set<Cell> want;
        for (int d = 0; d < 4; d++) want.insert(Cell{me.row + dr[d], me.col + dc[d]});
        std::ostringstream t; t << me; drv::cas("neighbours", t.str());
        CHECK_("neighbours", ns.size() == 4 && std::set<Cell>(ns.begin(), ns.end()) == want, "cell " << me);
    }
    // facing boundaries of a single cell
    for (int k = 0; k < 3000; k++) {
        SingleCellOccupiedByPatch p = sl::rand_single(Cell{drv::rnd(-3, 3), drv::rnd(-3, 3)});
        Cell n{p.cell.row + drv::rnd(-2, 2), p.cell.col + drv::rnd(-2, 2)};
        std::ostringstream t; t << sl::show(p) << " towards " << n; drv::cas("facing", t.str());
        std::optional<Boundary> want;
        Boundary* side[] = {&p.top, &p.bottom, &p.left, &p.right};
        int which = -1;
        for (int d = 0; d < 4; d++) if (n == Cell{p.cell.row + dr[d], p.cell.col + dc[d]}) { want = *side[d]; which = d; }
        CHECK_("facing", p.get_boundary_with(n) == want, t.str() << " get_boundary_with");
        auto m = p.get_mut_boundary_with(n);
        CHECK_("facing", m.has_value() == (which >= 0) && (which < 0 || &m->get() == side[which]), t.str() << " get_mut_boundary_with");
        auto q = p.get_boundary_reference_with(n);
        CHECK_("facing", q.has_value() == (which >= 0) && (which < 0 || *q == side[which]), t.str() << " get_boundary_reference_with");
        for (PauliOperator op : {PauliOperator::X, PauliOperator::Z})
            CHECK_("facing", p.have_boundary_of_type_with(op, n) == (want && want->boundary_type == (op == PauliOperator::X ? BoundaryType::Rough : BoundaryType::Smooth)), t.str() << " have_boundary_of_type_with");
        CellBoundaries b = p, b0 = p;
        b.instant_rotate();
        CHECK_("turn", b.right == b0.top && b.bottom == b0.right && b.left == b0.bottom && b.top == b0.left, t.str() << " quarter turn");
        b.instant_rotate(); b.instant_rotate(); b.instant_rotate();
        CHECK_("turn", b == b0, t.str() << " four turns");
        bool act = p.top.is_active || p.bottom.is_active || p.left.is_active || p.right.is_active;
        CHECK_("active", b0.has_active_boundary() == act, t.str() << " has_active_boundary");
        DensePatch dp = sl::rand_patch(); 
        bool dact = dp.boundaries.top.is_active || dp.boundaries.bottom.is_active || dp.boundaries.left.is_active || dp.boundaries.right.is_active;
        CHECK_("active", dp.is_active() == (dp.activity != PatchActivity::None || dact), sl::show(dp) << " is_active");
        SparsePatch sp; static_cast<Patch&>(sp) = dp; if (drv::coin()) sp.activity = PatchActivity::None;
        MultipleCellsOccupiedByPatch mc; bool any = false; int nn = drv::rnd(0, 4);
        for (int i = 0; i < nn; i++) { auto s = sl::rand_single(Cell{0, i}); if (drv::rnd(0, 2)) s.top.is_active = s.bottom.is_active = s.left.is_active = s.right.is_active = false;
            any = any || s.top.is_active || s.bottom.is_active || s.left.is_active || s.right.is_active; mc.sub_cells.push_back(s); }
        sp.cells = mc;
        CHECK_("active", sp.is_active() == (sp.activity != PatchActivity::None || any), "multi-cell patch of " << nn << " cells is_active");
        sp.cells = p;
        CHECK_("active", sp.is_active() == (sp.activity != PatchActivity::None || act), t.str() << " single-cell patch is_active");
    }
    // slices
    for (int k = 0; k < 1500; k++) {
        sl::TestLayout lay(drv::rnd(1, 4), drv::rnd(1, 4));
        DenseSlice s = sl::rand_slice(lay);
        Cell t{drv::rnd(0, lay.rows - 1), drv::rnd(0, lay.cols - 1)};
        Cell n{t.row + drv::rnd(-2, 2), t.col + drv::rnd(-2, 2)};
        std::ostringstream d; d << sl::show(s) << " target " << t << " neighbour " << n; drv::cas("slice", d.str());
        auto& p = s.patch_at(t);
        int which = -1;
        for (int q = 0; q < 4; q++) if (n == Cell{t.row + dr[q], t.col + dc[q]}) which = q;
        const Boundary* want = nullptr;
        if (p && which >= 0) { const Boundary* side[] = {&p->boundaries.top, &p->boundaries.bottom, &p->boundaries.left, &p->boundaries.right}; want = side[which]; }
        auto g = s.get_boundary_between(t, n);
        CHECK_("slice-facing", g.has_value() == (want != nullptr) && (!want || &g->get() == want), d.str());
        auto g2 = const_cast<const DenseSlice&>(s).get_boundary_between(t, n);
        CHECK_("slice-facing", g2.has_value() == (want != nullptr) && (!want || &g2->get() == want), d.str() << " const");
        for (PauliOperator op : {PauliOperator::X, PauliOperator::Z})
            CHECK_("slice-facing", s.have_boundary_of_type_with(t, n, op) == (want && want->boundary_type == (op == PauliOperator::X ? BoundaryType::Rough : BoundaryType::Smooth)), d.str() << " have_boundary_of_type_with");
        CHECK_("slice-facing", s.is_boundary_reserved(t, n) == (want && (want->boundary_type == BoundaryType::Reserved_Label1 || want->boundary_type == BoundaryType::Reserved_Label2)), d.str() << " is_boundary_reserved");
        std::set<Cell> wantn;
        for (int q = 0; q < 4; q++) {
            Cell x{t.row + dr[q], t.col + dc[q]};
            bool in = x.row >= 0 && x.col >= 0 && x.row < lay.rows && x.col < lay.cols;
            if (in) wantn.insert(x);
            auto y = s.get_directional_neighbor_within_slice(t, dirs[q]);
            CHECK_("slice-neighbours", y.has_value() == in && (!in || *y == x), d.str() << " dir " << q);
        }
        auto ns = s.get_neigbours_within_slice(t);
        CHECK_("slice-neighbours", ns.size() == wantn.size() && std::set<Cell>(ns.begin(), ns.end()) == wantn, d.str());
    }
    return drv::finish();
}
