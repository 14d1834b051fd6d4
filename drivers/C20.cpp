//SOURCES: patches/dense_slice.cpp patches/patches.cpp patches/slice_stats.cpp layout/layout.cpp
// C20: every cell of a random slice is counted in exactly one category; statistics add up counter by counter.
#include "slices.hpp"
#include <lsqecc/patches/slice_stats.hpp>
using namespace lsqecc;

namespace lsqecc { VolumeCounts operator+=(VolumeCounts& lhs, const VolumeCounts& rhs); }
struct Want { size_t vol = 0, unused = 0, dist = 0, dead = 0; };
static Want count(const DenseSlice& s)
{
    Want w;
    for (auto& row : s.cells) for (auto& c : row) {
        w.vol++;
        if (!c) w.unused++;
        else if (c->type == PatchType::Distillation || (s.layout.get().magic_states_reserved() && c->type == PatchType::PreparedState)) w.dist++;
        else if (c->type == PatchType::Dead) w.dead++;
    }
    return w;
}
static bool eq(const VolumeCounts& v, const Want& w) { return v.volume == w.vol && v.unused_routing_volume == w.unused && v.distillation_volume == w.dist && v.dead == w.dead; }
static std::string show(const VolumeCounts& v) { std::ostringstream o; o << "volume " << v.volume << " unused " << v.unused_routing_volume << " distillation " << v.distillation_volume << " dead " << v.dead; return o.str(); }

int main()
{
    drv::init("random slices of 1x1..7x7 cells of all types, 0..100% filled, both magic-state modes; random counters added; compared with a cell-by-cell count");
    drv::Timer T;
    const double lim = drv::budget(20, 150);
    const int n = drv::thorough() ? 60000 : 6000;
    VolumeCounts total{}; Want wt;
    for (int k = 0; k < n && T.s() < lim; k++) {
        sl::TestLayout lay(drv::rnd(1, 7), drv::rnd(1, 7)); lay.magic_reserved = drv::coin();
        static const int fill[] = {0, 30, 70, 100};
        DenseSlice s = sl::rand_slice(lay, fill[drv::rnd(0, 3)]);
        std::ostringstream t; t << sl::show(s) << " reserved=" << lay.magic_reserved;
        drv::cas("count", t.str());
        VolumeCounts v = compute_volume_counts(s); Want w = count(s);
        CHECK_("count", eq(v, w), t.str() << " counted " << show(v));
        CHECK_("count", v.unused_routing_volume + v.distillation_volume + v.dead <= v.volume, t.str() << " counted " << show(v));
        if (k % 50 == 0) { total = VolumeCounts{}; wt = Want{}; }
        VolumeCounts r = (total += v);
        wt.vol += w.vol; wt.unused += w.unused; wt.dist += w.dist; wt.dead += w.dead;
        drv::cas("add", show(v) + " " + std::to_string(k));
        CHECK_("add", eq(total, wt) && eq(r, wt), "after adding " << k % 50 + 1 << " slices: " << show(total) << " returned " << show(r));
    }
    return drv::finish();
}
