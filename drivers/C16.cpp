//SOURCES: gates/gates.cpp gates/parse_gates.cpp ls_instructions/ patches/patches.cpp patches/sparse_slice.cpp
// C16: freshly generated patch ids are never reused; auxiliary patches are created before use and measured out.
#include "c15.hpp"
#include <lsqecc/ls_instructions/teleported_s_gate_injection_stream.hpp>
#include <lsqecc/ls_instructions/catalytic_s_gate_injection_stream.hpp>
using namespace gs;
int main()
{
    drv::init("random programs of up to 14 supported gates translated with and without either S gate expansion; the life of every auxiliary id followed through the whole instruction sequence; random histories of generator calls");
    drv::Timer T;
    const double lim = drv::budget(15, 120);
    const int n = drv::thorough() ? 40000 : 5000;
    for (int k = 0; k < n && T.s() < lim; k++) {
        {
            IdGenerator g; std::set<PatchId> given; PatchId start = (PatchId)drv::rnd(0, 100); g.set_start(start);
            drv::cas("generator", std::to_string(start));
            for (int i = drv::rnd(1, 30); i-- > 0;) { auto x = g.new_id(); CHECK_("id-fresh", given.insert(x).second && x >= start, "id " << x << " from a generator started at " << start << " after " << given.size() << " ids"); }
        }
        Source src; src.r.size = 12;
        const bool local = drv::coin(); const auto mode = drv::rnd(0, 3) || local ? CNOTCorrectionMode::NEVER : CNOTCorrectionMode::ALWAYS;
        std::string t = local ? "local " : "";
        for (int i = drv::rnd(1, 14); i-- > 0;) { Gate g = gs::rand_gate(11); PatchId z = 0; try { translate(g, mode, local, z); } catch (Refused&) { continue; } src.q.push_back(g); t += ins::show(g) + "; "; }
        const PatchId start = (PatchId)drv::rnd(12, 40);
        IdGenerator gen; gen.set_start(start);
        std::unique_ptr<LSInstructionStream> st = std::make_unique<LSInstructionStreamFromGateStream>(src, mode, gen, local);
        const int wrap = drv::rnd(0, 2);
        if (wrap == 1) { st = std::make_unique<TeleportedSGateInjectionStream>(std::move(st), gen, drv::coin()); t = "teleported S, " + t; }
        if (wrap == 2) { st = std::make_unique<CatalyticSGateInjectionStream>(std::move(st), gen, local, drv::coin()); t = "catalytic S, " + t; }
        drv::cas("program", "ids from " + std::to_string(start) + " " + t);
        enum { NEW, LIVE, GONE }; std::map<PatchId, int> life; std::map<PatchId, int> kind;
        int steps = 0; bool bad = false;
        while (st->has_next_instruction() && steps++ < 2000 && !bad) {
            LSInstruction i = st->get_next_instruction();
            auto is_aux = [&](PatchId p) { return p >= 12; };
            std::vector<std::pair<PatchId, int>> made;
            if (auto* d = std::get_if<PatchInit>(&i.operation)) made = {{d->target, 1}};
            if (auto* d = std::get_if<MagicStateRequest>(&i.operation)) made = {{d->target, 2}};
            if (auto* d = std::get_if<YStateRequest>(&i.operation)) { if (life[d->target] == LIVE && kind[d->target] == 3) { life[d->target] = GONE; made.clear(); if (!i.clients.empty()) made = {{d->target, 3}}; if (made.empty()) continue; } else made = {{d->target, 3}}; }
            if (auto* d = std::get_if<BellBasedCNOT>(&i.operation)) made = {{d->side1, 4}, {d->side2, 4}};
            std::set<PatchId> created;
            for (auto& [p, what] : made) {
                if (!is_aux(p) || p < start || life[p] != NEW || !created.insert(p).second) { bad = true; drv::fail("created-twice", "id " + std::to_string(p) + " is created (again) by " + canon(i) + " in " + t + " with ids from " + std::to_string(start)); }
                life[p] = what == 4 ? GONE : LIVE; kind[p] = what;
            }
            for (auto p : ins::uses(i)) if (is_aux(p) && !created.count(p) && life[p] != LIVE) { bad = true; drv::fail(life[p] == NEW ? "used-before-creation" : "used-after-end", "id " + std::to_string(p) + " is used by " + canon(i) + " in " + t); }
            if (auto* d = std::get_if<SinglePatchMeasurement>(&i.operation)) if (is_aux(d->target)) life[d->target] = GONE;
        }
        for (auto& [p, s] : life) if (p >= 12 && s == LIVE && !bad) drv::fail("not-released", "id " + std::to_string(p) + " is never measured out in " + t);
    }
    return drv::finish();
}
