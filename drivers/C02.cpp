//SOURCES: patches/dense_slice.cpp patches/patches.cpp layout/layout.cpp
// C02: advancing random slices against a cell-by-cell oracle; cells touched by magic-state production belong to C03.
#include "advance.hpp"
using namespace lsqecc;
int main()
{
    drv::init("random slices of 1x1..4x4 cells (every type, activity and boundary), random factories or reserved cells; advanced and compared cell by cell with an oracle");
    drv::Timer T;
    const double lim = drv::budget(20, 200);
    const int n = drv::thorough() ? 200000 : 20000;
    for (int i = 0; i < n && T.s() < lim; i++) {
        adv::Case k; adv::make(k);
        std::string t = adv::show(k);
        drv::cas("advance", t);
        DenseSlice want = adv::expect(k), got = *k.s;
        try { advance_slice(got, k.lay); } catch (const std::exception& e) { drv::fail("throws", t + " threw " + e.what()); continue; }
        CHECK_("crossings", got.EDPC_crossing_vertices.empty(), t);
        CHECK_("rest", got.predistilled_ystates_available == k.s->predistilled_ystates_available && &got.layout.get() == &k.s->layout.get(), t);
        std::set<Cell> magic(k.lay.reserved.begin(), k.lay.reserved.end());
        if (!k.lay.magic_reserved) for (auto& o : k.lay.outputs) magic.insert(o.begin(), o.end());
        for (int r = 0; r < k.lay.rows; r++) for (int c = 0; c < k.lay.cols; c++) {
            auto& g = got.cells[r][c]; auto& w = want.cells[r][c];
            if (magic.count(Cell{r, c}) && !sl::patch_eq(adv::step(k.s->cells[r][c]), w)) continue;      // production
            CHECK_("cell", sl::patch_eq(g, w), t << " cell (" << r << "," << c << ") became " << (g ? sl::show(*g) : ".") << " expected " << (w ? sl::show(*w) : "."));
        }
    }
    return drv::finish();
}
