//SOURCES: gates/gates.cpp gates/parse_gates.cpp ls_instructions/ patches/patches.cpp patches/sparse_slice.cpp patches/dense_slice.cpp layout/
// C18: boundary rotations injected exactly when a needed operator is hidden.
#include "c15.hpp"
#include <lsqecc/ls_instructions/boundary_rotation_injection_stream.hpp>
using namespace gs;
using E = RotatableSingleQubitPatchExposedOperators;
int main()
{
    drv::init("random instruction sequences of up to 14 instructions of every kind over ten patches, random starting exposures; rotations and remaining instructions compared with a restated tracker, step by step");
    drv::Timer T;
    const double lim = drv::budget(15, 120);
    const int n = drv::thorough() ? 60000 : 8000;
    for (int k = 0; k < n && T.s() < lim; k++) {
        auto src = std::make_unique<InstrSource>();
        tsl::ordered_map<PatchId, E> start; std::map<PatchId, E> now;
        std::string t = "exposed";
        for (PatchId p = 0; p < 10; p++) if (drv::rnd(0, 3)) { E e{drv::coin(), drv::coin()}; start[p] = e; now[p] = e; src->core.insert(p); t += " " + std::to_string(p) + (e.x_exposed ? "X" : "") + (e.z_exposed ? "Z" : ""); }
        L in; t += ": ";
        for (int i = drv::rnd(0, 14); i-- > 0;) {
            static const int kinds[] = {2, 2, 7, 7, 10, 10, 8, 1, 3, 5, 6, 11};
            auto x = ins::rand_instruction(drv::rnd(0, 5) ? kinds[drv::rnd(0, 11)] : drv::rnd(0, ins::KINDS - 1), 9);
            if (std::holds_alternative<MultiPatchMeasurement>(x.operation)) x.clients.clear();
            if (auto* b = std::get_if<BellBasedCNOT>(&x.operation)) if (b->control == b->target) continue;
            in.push_back(x); src->q.push_back(x);
        }
        t += list(in);
        drv::cas("program", t, in.empty());
        BoundaryRotationInjectionStream st{std::move(src), std::move(start)};
        for (auto& i : in) {
            std::set<PatchId> want;
            auto need = [&](PatchId p, PauliOperator o) { auto it = now.find(p); if (it == now.end()) return; bool ok = (o == PauliOperator::X && it->second.x_exposed) || (o == PauliOperator::Z && it->second.z_exposed); if (!ok) want.insert(p); };
            if (auto* m = std::get_if<MultiPatchMeasurement>(&i.operation)) for (auto& [p, o] : m->observable) need(p, o);
            if (auto* m = std::get_if<BellBasedCNOT>(&i.operation)) { need(m->control, PauliOperator::Z); need(m->target, PauliOperator::X); }
            auto* g = std::get_if<SingleQubitOp>(&i.operation);
            if (g && g->op == SingleQubitOp::Operator::S) need(g->target, PauliOperator::Z);
            std::set<PatchId> turn = want; if (g && g->op == SingleQubitOp::Operator::H && now.count(g->target)) turn.insert(g->target);
            std::set<PatchId> got; bool ended = false;
            for (;;) {
                if (!st.has_next_instruction()) { drv::fail("lost", canon(i) + " never appears in " + t); ended = true; break; }
                auto x = st.get_next_instruction();
                auto* r = std::get_if<RotateSingleCellPatch>(&x.operation);
                if (got.size() == want.size()) { CHECK_("instruction", canon(x) == canon(i), "instead of " << canon(i) << " came " << canon(x) << " in " << t); break; }
                if (!r || !want.count(r->target) || !got.insert(r->target).second || x.clients.size() || x.wait_at_most_for != FOREVER) { drv::fail("rotation", "before " + canon(i) + " came " + canon(x) + " in " + t); ended = true; break; }
            }
            for (auto p : turn) { now[p].x_exposed = !now[p].x_exposed; now[p].z_exposed = !now[p].z_exposed; }
            if (ended || !drv::fails.empty()) break;
        }
        if (drv::fails.empty()) CHECK_("ends", !st.has_next_instruction(), t << " goes on after the end");
        if (!drv::fails.empty()) break;
    }
    return drv::finish();
}
