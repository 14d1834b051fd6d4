// C05: merges along scripted random routes on random slices, compared with a written-out oracle.
#include "route.hpp"
using namespace lsqecc;
int main()
{
    drv::init("random slices of 1x2..5x5 cells with unique ids, two patches (or one with itself), a random simple route of free cells, direct contact, or no route; operation ids on or off; merge compared with an oracle");
    drv::Timer T;
    const double lim = drv::budget(20, 200);
    const int n = drv::thorough() ? 400000 : 60000;
    rt::OpIds ids;
    for (int k = 0; k < n && T.s() < lim; k++) {
        sl::TestLayout lay(drv::rnd(1, 5), drv::rnd(2, 5));
        std::vector<Cell> where;
        DenseSlice s = rt::uniq_slice(lay, drv::rnd(1, 3) * 20, &where);
        if (where.empty()) continue;
        Cell a = where[drv::rnd(0, (int)where.size() - 1)], b = where[drv::rnd(0, (int)where.size() - 1)];
        if (drv::rnd(0, 2)) for (Cell c : {a, b}) rt::calm(*rt::at(s, c));
        rt::FakeRouter router; router.answer = drv::rnd(0, 7) ? rt::path(s, lay, a, b) : std::nullopt;
        if (a == b && router.answer && router.answer->cells.empty()) router.answer = std::nullopt;
        bool gen = drv::coin();
        PatchId ia = *rt::at(s, a)->id, ib = *rt::at(s, b)->id;
        bool busy = rt::act(*rt::at(s, a)) || rt::act(*rt::at(s, b));
        std::ostringstream t; t << sl::show(s) << " merge " << ia << a << " and " << ib << b << " " << rt::show(router.answer) << " ids=" << gen;
        drv::cas(busy ? "busy" : !router.answer ? "no-route" : router.answer->cells.empty() ? "contact" : "route", t.str());
        DenseSlice r = s; bool ok = false;
        try { ok = merge_patches(r, router, ia, PauliOperator::X, ib, PauliOperator::Z, gen); } catch (const std::exception& e) { drv::fail("throws", t.str() + " threw " + e.what()); continue; }
        CHECK_("refusal", ok == (!busy && router.answer), t.str() << " accepted=" << ok);
        if (!ok) { CHECK_("unchanged", sl::same(r, s), t.str() << " refused but became " << sl::show(r)); continue; }
        if (busy || !router.answer) continue;
        ids.check(t.str(), gen, r, *router.answer);
        DenseSlice w = rt::merged(s, a, b, *router.answer, rt::op_of(r, *router.answer));
        CHECK_("effect", sl::same(r, w), t.str() << " became " << sl::show(r) << " expected " << sl::show(w));
    }
    return drv::finish();
}
