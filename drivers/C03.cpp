//SOURCES: patches/dense_slice.cpp patches/patches.cpp layout/layout.cpp
// C03: clocks and magic-state production on random slices, one step and histories, against an oracle.
#include "advance.hpp"
using namespace lsqecc;
static void compare(const adv::Case& k, const DenseSlice& got, const std::string& t)
{
    DenseSlice want = adv::expect(k);
    CHECK_("clocks", got.time_to_next_magic_state_by_distillation_region == want.time_to_next_magic_state_by_distillation_region, t << " became " << sl::show(got));
    CHECK_("available", got.magic_states == want.magic_states, t << " became " << sl::show(got));
    for (int r = 0; r < k.lay.rows; r++) for (int c = 0; c < k.lay.cols; c++) {
        auto& g = got.cells[r][c]; auto& w = want.cells[r][c];
        bool made = adv::magic_like(w) && !sl::patch_eq(w, adv::step(k.s->cells[r][c]));
        CHECK_("cell", made ? adv::magic_like(g) : sl::patch_eq(g, w), t << " cell (" << r << "," << c << ") became " << (g ? sl::show(*g) : ".") << " expected " << (w ? sl::show(*w) : "."));
    }
}
int main()
{
    drv::init("random slices of 1x1..4x4 cells with up to 3 factories or reserved cells; 1..8 consecutive steps with states taken and cells filled in between; clocks, places and the record of available states compared with an oracle");
    drv::Timer T;
    const double lim = drv::budget(20, 200);
    const int n = drv::thorough() ? 60000 : 6000;
    for (int i = 0; i < n && T.s() < lim; i++) {
        adv::Case k; adv::make(k);
        {
            size_t d = drv::rnd(0, (int)k.lay.outputs.size() - 1 >= 0 ? (int)k.lay.outputs.size() - 1 : 0);
            if (d < k.lay.outputs.size()) {
                std::optional<Cell> want; for (auto c : k.lay.outputs[d]) if (!adv::at(*k.s, c)) { want = c; break; }
                drv::cas("place", adv::show(k) + " factory " + std::to_string(d));
                CHECK_("place", find_place_for_magic_state(*k.s, k.lay, d) == want, adv::show(k) << " factory " << d);
            }
        }
        for (int step = drv::rnd(1, 8); step > 0; step--) {
            std::string t = adv::show(k);
            drv::cas("advance", t);
            DenseSlice got = *k.s;
            try { advance_slice(got, k.lay); } catch (const std::exception& e) { drv::fail("throws", t + " threw " + e.what()); break; }
            compare(k, got, t);
            // next step: some states are taken (become qubits or are measured), some free cells filled
            for (auto& row : got.cells) for (auto& p : row) {
                if (p && p->type == PatchType::PreparedState && drv::rnd(0, 2) == 0) { p->type = PatchType::Qubit; p->id = 9; if (drv::coin()) p->activity = PatchActivity::Measurement; }
                else if (p && p->type == PatchType::Qubit && drv::rnd(0, 3) == 0) { p->type = PatchType::Routing; p->activity = PatchActivity::Rotation; }
                else if (!p && drv::rnd(0, 5) == 0 && !k.lay.magic_reserved) p = sl::rand_patch();
            }
            for (auto it = got.magic_states.begin(); it != got.magic_states.end();) { auto& p = adv::at(got, *it); if (!p || p->type != PatchType::PreparedState) it = got.magic_states.erase(it); else ++it; }
            k.s.emplace(got);
        }
    }
    return drv::finish();
}
