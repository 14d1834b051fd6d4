//SOURCES: gates/gates.cpp gates/parse_gates.cpp ls_instructions/ patches/patches.cpp patches/sparse_slice.cpp
// C19: the two expansions of the S gate.
#include "c15.hpp"
#include <lsqecc/ls_instructions/teleported_s_gate_injection_stream.hpp>
#include <lsqecc/ls_instructions/catalytic_s_gate_injection_stream.hpp>
using namespace gs;
using O = SingleQubitOp::Operator;
static L expand(const LSInstruction& i, const tsl::ordered_set<PatchId>& core, bool cat, bool local, bool rot, PatchId& n)
{
    auto* g = std::get_if<SingleQubitOp>(&i.operation);
    auto rotate = [](PatchId p) { return LSInstruction{.operation = RotateSingleCellPatch{p}, .wait_at_most_for = FOREVER}; };
    if (g && core.contains(g->target)) {
        PatchId t = g->target;
        if (g->op == O::H && rot) return {i, rotate(t)};
        if (g->op == O::S) {
            PatchId y = n++;
            LSInstruction ask{.operation = YStateRequest{y, t}, .wait_at_most_for = FOREVER, .clients = {t}}, release{.operation = YStateRequest{y, t}, .wait_at_most_for = FOREVER};
            if (!cat) return {ask, joint(y, t, PauliOperator::Z), meas(y, PauliOperator::X), op(t, O::Z)};
            L o{ask};
            for (int k = 0; k < 2; k++) {
                for (auto& x : cnot(t, y, CNOTType::ZX_WITH_MBM_CONTROL_FIRST, CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL, CNOTCorrectionMode::NEVER, local, n)) o.push_back(x);
                o.push_back(op(y, O::H)); o.push_back(rotate(y));
            }
            o.push_back(release);
            return o;
        }
    }
    return {i};
}
int main()
{
    drv::init("random instruction sequences of up to 12 instructions of every kind (many S and H gates, on and off the core qubits) through both expansions with every option; compared one by one with a restated expansion");
    drv::Timer T;
    const double lim = drv::budget(15, 120);
    const int n = drv::thorough() ? 60000 : 8000;
    for (int k = 0; k < n && T.s() < lim; k++) {
        auto src = std::make_unique<InstrSource>();
        for (int i = drv::rnd(1, 6); i-- > 0;) src->core.insert(ins::pid(9));
        L in;
        for (int i = drv::rnd(0, 12); i-- > 0;) { in.push_back(ins::rand_instruction(drv::coin() ? 7 : drv::rnd(0, ins::KINDS - 1), 9)); if (drv::rnd(0, 3) == 0) in.back().wait_at_most_for = (size_t)drv::rnd(0, 9); src->q.push_back(in.back()); }
        const bool cat = drv::coin(), local = drv::coin(), rot = drv::coin();
        auto core = src->core;
        std::string t = std::string(cat ? "catalytic" : "teleported") + (local ? " local" : "") + (rot ? " rotating" : "") + " core"; for (auto c : core) t += " " + std::to_string(c); t += ": " + list(in);
        drv::cas("program", t, in.empty());
        PatchId next = (PatchId)drv::rnd(10, 40);
        IdGenerator gen; gen.set_start(next);
        L want; for (auto& i : in) for (auto& x : expand(i, core, cat, local, rot, next)) want.push_back(x);
        std::unique_ptr<LSInstructionStream> st;
        if (cat) st = std::make_unique<CatalyticSGateInjectionStream>(std::move(src), gen, local, rot); else st = std::make_unique<TeleportedSGateInjectionStream>(std::move(src), gen, rot);
        L got; while (st->has_next_instruction() && got.size() <= want.size()) got.push_back(st->get_next_instruction());
        CHECK_("core-qubits", st->core_qubits() == core, t);
        CHECK_("expand", list(got) == list(want), t << " became " << list(got) << " instead of " << list(want));
        bool threw = false; try { if (!st->has_next_instruction()) st->get_next_instruction(); else threw = true; } catch (std::exception&) { threw = true; }
        CHECK_("ends", threw, t << " goes on after the end");
        if (!drv::fails.empty()) break;
    }
    return drv::finish();
}
