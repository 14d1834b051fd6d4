//SOURCES: patches/dense_slice.cpp patches/patches.cpp layout/layout.cpp
// C01: occupancy, placement, lookup and deletion on random slices against a cell-by-cell oracle.
#include "slices.hpp"
using namespace lsqecc;

static SparsePatch one(const Cell& c)
{
    SparsePatch sp; static_cast<Patch&>(sp) = sl::rand_patch(); sp.cells = sl::rand_single(c); return sp;
}
static bool holds(const std::optional<DensePatch>& o, const SparsePatch& sp, const SingleCellOccupiedByPatch& at)
{
    return o && static_cast<const Patch&>(*o) == static_cast<const Patch&>(sp) && o->boundaries == static_cast<const CellBoundaries&>(at);
}

int main()
{
    drv::init("random slices of 1x1..4x4 cells, 0..100% filled; single- and multi-cell placements; lookups and deletions by id; compared with a cell-by-cell oracle");
    drv::Timer T;
    const double lim = drv::budget(25, 200);
    const int n = drv::thorough() ? 60000 : 6000;
    for (int k = 0; k < n && T.s() < lim; k++) {
        sl::TestLayout lay(drv::rnd(1, 4), drv::rnd(1, 4));
        static const int fill[] = {0, 20, 50, 80, 100};
        DenseSlice s = sl::rand_slice(lay, fill[drv::rnd(0, 4)]);
        const std::string before = sl::show(s);
        Cell c{drv::rnd(0, lay.rows - 1), drv::rnd(0, lay.cols - 1)};
        {
            SparsePatch sp = one(c);
            bool dist = drv::rnd(0, 3) == 0;
            std::ostringstream t; t << before << " place " << sl::show(static_cast<Patch&>(sp)) << " " << sl::show(std::get<SingleCellOccupiedByPatch>(sp.cells)) << " distillation=" << dist;
            drv::cas("place", t.str());
            for (int how = 0; how < 2; how++) {
                DenseSlice a = s; bool thrown = false; Cell got{-1, -1};
                try { if (how == 0) got = a.place_single_cell_sparse_patch(sp, dist); else a.place_sparse_patch(sp, dist); } catch (const std::exception&) { thrown = true; }
                bool occ = s.patch_at(c).has_value();
                CHECK_("place", thrown == (occ && !dist), t.str() << " refused=" << thrown);
                if (thrown) CHECK_("place-refused", sl::same(a, s), t.str() << " became " << sl::show(a));
                else {
                    CHECK_("place-cell", holds(a.patch_at(c), sp, std::get<SingleCellOccupiedByPatch>(sp.cells)), t.str() << " became " << sl::show(a));
                    CHECK_("place-others", sl::cells_eq_except(a, s, {c}) && sl::same_rest(a, s), t.str() << " became " << sl::show(a));
                    if (how == 0) CHECK_("place", got == c, t.str() << " returned " << got);
                }
            }
            CHECK_("free", s.is_cell_free(c) == !s.patch_at(c).has_value(), before << " cell " << c);
            std::vector<PatchActivity> acts; for (int i = drv::rnd(0, 3); i > 0; i--) acts.push_back(static_cast<PatchActivity>(drv::rnd(0, 8)));
            bool want = !s.patch_at(c); if (!want) for (auto x : acts) want = want || x == s.patch_at(c)->activity;
            CHECK_("free", s.is_cell_free_or_activity(c, acts) == want, before << " cell " << c << " or activities");
        }
        {   // several cells
            SparsePatch sp; static_cast<Patch&>(sp) = sl::rand_patch();
            MultipleCellsOccupiedByPatch m; std::set<Cell> used;
            for (int i = drv::rnd(0, 3); i > 0; i--) { Cell x{drv::rnd(0, lay.rows - 1), drv::rnd(0, lay.cols - 1)}; if (drv::rnd(0, 9) && used.count(x)) continue; used.insert(x); m.sub_cells.push_back(sl::rand_single(x)); }
            sp.cells = m;
            bool dist = drv::rnd(0, 3) == 0;
            std::ostringstream t; t << before << " place several " << sl::show(static_cast<Patch&>(sp)); for (auto& x : m.sub_cells) t << sl::show(x);
            drv::cas("place-several", t.str(), m.sub_cells.empty());
            DenseSlice want = s; bool refuse = false;
            for (auto& x : m.sub_cells) { auto& o = want.cells[x.cell.row][x.cell.col]; if (o && !dist) { refuse = true; break; } o = DensePatch{static_cast<Patch&>(sp), static_cast<const CellBoundaries&>(x)}; }
            DenseSlice a = s; bool thrown = false;
            try { a.place_sparse_patch(sp, dist); } catch (const std::exception&) { thrown = true; }
            CHECK_("place-several", thrown == refuse, t.str() << " refused=" << thrown);
            if (!thrown && !refuse) CHECK_("place-several", sl::same(a, want), t.str() << " became " << sl::show(a));
            else CHECK_("place-several", sl::cells_eq_except(a, s, used), t.str() << " became " << sl::show(a));
            if (m.sub_cells.size()) {
                bool th2 = false; DenseSlice b = s; try { b.place_single_cell_sparse_patch(sp, dist); } catch (const std::exception&) { th2 = true; }
                CHECK_("place-several", th2 && sl::same(b, s), t.str() << " placed as a single-cell patch");
                bool th3 = false; try { DensePatch::from_sparse_patch(sp); } catch (const std::exception&) { th3 = true; }
                CHECK_("convert", th3, t.str() << " converted to a dense patch");
            }
        }
        {   // by id (ids may repeat)
            PatchId id = drv::rnd(0, 7);
            std::ostringstream t; t << before << " id " << id; drv::cas("by-id", t.str());
            std::set<Cell> cells; for (int r = 0; r < lay.rows; r++) for (int q = 0; q < lay.cols; q++) if (s.cells[r][q] && s.cells[r][q]->id == id) cells.insert(Cell{r, q});
            CHECK_("by-id", s.has_patch(id) == !cells.empty(), t.str() << " has_patch");
            auto p = s.get_patch_by_id(id);
            CHECK_("by-id", p.has_value() == !cells.empty(), t.str() << " get_patch_by_id");
            if (p) { bool in = false; for (auto& x : cells) in = in || &*s.cells[x.row][x.col] == &p->get(); CHECK_("by-id", in, t.str() << " get_patch_by_id returns a patch with another id"); }
            auto pc = const_cast<const DenseSlice&>(s).get_patch_by_id(id);
            CHECK_("by-id", pc.has_value() == !cells.empty(), t.str() << " const get_patch_by_id");
            if (pc) { bool in = false; for (auto& x : cells) in = in || &*s.cells[x.row][x.col] == &pc->get(); CHECK_("by-id", in, t.str() << " const get_patch_by_id returns a patch with another id"); }
            auto g = s.get_cell_by_id(id);
            CHECK_("by-id", g.has_value() == !cells.empty() && (!g || cells.count(*g)), t.str() << " get_cell_by_id");
            auto sp = s.get_sparse_patch_by_id(id);
            CHECK_("by-id", sp.has_value() == !cells.empty(), t.str() << " get_sparse_patch_by_id");
            if (sp && cells.size() == 1) { auto* o = std::get_if<SingleCellOccupiedByPatch>(&sp->cells); CHECK_("by-id", o && o->cell == *cells.begin() && holds(s.patch_at(o->cell), *sp, *o), t.str() << " get_sparse_patch_by_id: another description"); }
            DenseSlice a = s, want = s; for (auto& x : cells) want.cells[x.row][x.col] = std::nullopt;
            a.delete_patch_by_id(id);
            CHECK_("delete", sl::same(a, want), t.str() << " delete: became " << sl::show(a));
        }
        if (s.patch_at(c)) {
            SparsePatch sp = s.patch_at(c)->to_sparse_patch(c);
            auto* o = std::get_if<SingleCellOccupiedByPatch>(&sp.cells);
            CHECK_("convert", o && o->cell == c && holds(s.patch_at(c), sp, *o), before << " to_sparse_patch at " << c);
            DensePatch back = DensePatch::from_sparse_patch(sp);
            CHECK_("convert", sl::patch_eq(back, s.patch_at(c)), before << " there and back at " << c);
        }
        std::vector<std::pair<Cell, const void*>> order;
        s.traverse_cells([&](const Cell& x, const std::optional<DensePatch>& p) { order.push_back({x, &p}); });
        CHECK_("traverse", (int)order.size() == lay.rows * lay.cols, before << " traversal");
        for (auto& [x, p] : order) CHECK_("traverse", p == &s.patch_at(x), before << " traversal at " << x);
    }
    return drv::finish();
}
