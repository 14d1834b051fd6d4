// gate streams and a restated translation of gates into lattice-surgery instructions
#pragma once
#include "instr.hpp"
#include <lsqecc/ls_instructions/ls_instruction_stream.hpp>
#include <lsqecc/ls_instructions/ls_instructions_from_gates.hpp>
#include <deque>
namespace gs {
using namespace lsqecc;
using namespace lsqecc::gates;
struct Source : GateStream {
    std::deque<Gate> q; Qreg r{"q", 12};
    Gate get_next_gate() override { Gate g = q.front(); q.pop_front(); return g; }
    bool has_next_gate() const override { return !q.empty(); }
    const Qreg& get_qreg() const override { return r; }
};
struct InstrSource : LSInstructionStream {
    std::deque<LSInstruction> q; tsl::ordered_set<PatchId> core;
    LSInstruction get_next_instruction() override { if (q.empty()) throw std::logic_error("empty"); LSInstruction g = q.front(); q.pop_front(); return g; }
    bool has_next_instruction() const override { return !q.empty(); }
    const tsl::ordered_set<PatchId>& core_qubits() const override { return core; }
};
// text that determines an instruction
inline std::string canon(const LSInstruction& i)
{
    std::ostringstream o;
    if (auto* m = std::get_if<MultiPatchMeasurement>(&i.operation)) {
        o << "measure" << (m->is_negative ? "-" : "");
        std::map<PatchId, int> s; for (auto& [p, q] : m->observable) s[p] = (int)q;
        for (auto& [p, q] : s) o << " " << p << ":" << "IXZY"[q & 3];
        o << (m->local_instruction ? " with local instruction" : "");
    }
    else if (auto* m = std::get_if<PatchInit>(&i.operation)) { o << "init " << m->target << " " << (m->state == PatchInit::InitializeableStates::Plus ? "+" : "0"); if (m->place_next_to) o << " next to " << m->place_next_to->target << ":" << (int)m->place_next_to->op; }
    else if (auto* m = std::get_if<SingleQubitOp>(&i.operation)) o << "op " << (int)m->op << (m->is_dagger ? "dg " : " ") << m->target;
    else if (auto* m = std::get_if<SinglePatchMeasurement>(&i.operation)) o << "measure " << m->target << " " << (int)m->observable << (m->is_negative ? "-" : "");
    else if (auto* m = std::get_if<MagicStateRequest>(&i.operation)) o << "magic " << m->target << " near " << m->near_patch;
    else if (auto* m = std::get_if<YStateRequest>(&i.operation)) o << "ystate " << m->target << " near " << m->near_patch;
    else if (auto* m = std::get_if<RotateSingleCellPatch>(&i.operation)) o << "rotate " << m->target;
    else if (auto* m = std::get_if<PatchReset>(&i.operation)) o << "reset " << m->target;
    else if (auto* m = std::get_if<BellBasedCNOT>(&i.operation)) o << "bellcnot " << m->control << " " << m->target << " " << m->side1 << " " << m->side2 << (m->route || m->counter_pairs || m->local_instruction_sets || m->current_phase ? " started" : "");
    else o << i;
    o << " wait " << i.wait_at_most_for << " clients";
    std::set<PatchId> c(i.clients.begin(), i.clients.end()); for (auto x : c) o << " " << x;
    return o.str();
}
const size_t FOREVER = std::numeric_limits<size_t>::max();
struct Refused {};
using L = std::vector<LSInstruction>;
inline LSInstruction op(PatchId t, SingleQubitOp::Operator o, bool dg = false) { return {.operation = SingleQubitOp{t, o, dg}, .wait_at_most_for = FOREVER}; }
inline LSInstruction meas(PatchId t, PauliOperator o) { return {.operation = SinglePatchMeasurement{t, o, false}, .wait_at_most_for = FOREVER}; }
inline LSInstruction joint(PatchId a, PatchId b, PauliOperator o) { MultiPatchMeasurement m{}; m.observable[a] = o; m.observable[b] = o; m.is_negative = false; return {.operation = m, .wait_at_most_for = FOREVER}; }
inline L cnot(PatchId c, PatchId t, CNOTType k, CNOTAncillaPlacement ap, CNOTCorrectionMode m, bool local, PatchId& n)
{
    L o; bool alw = m == CNOTCorrectionMode::ALWAYS;
    if (k == CNOTType::BELL_BASED || local) { if (alw) throw Refused{}; o.push_back({.operation = BellBasedCNOT{c, t, n, n + 1}, .wait_at_most_for = FOREVER, .clients = {c, t}}); n += 2; return o; }
    PatchId a = n++;
    std::optional<PlaceNexTo> nt;
    if (ap == CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL) nt = PlaceNexTo{c, PauliOperator::Z};
    if (ap == CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET) nt = PlaceNexTo{t, PauliOperator::X};
    o.push_back({.operation = PatchInit{a, PatchInit::InitializeableStates::Plus, nt}, .wait_at_most_for = FOREVER, .clients = {c, t}});
    auto zz = joint(c, a, PauliOperator::Z), xx = joint(a, t, PauliOperator::X);
    if (k == CNOTType::ZX_WITH_MBM_CONTROL_FIRST) { o.push_back(zz); if (alw) o.push_back(op(a, SingleQubitOp::Operator::X)); o.push_back(xx); if (alw) o.push_back(op(c, SingleQubitOp::Operator::Z)); }
    else { o.push_back(xx); if (alw) o.push_back(op(a, SingleQubitOp::Operator::Z)); o.push_back(zz); if (alw) o.push_back(op(t, SingleQubitOp::Operator::X)); }
    o.push_back(meas(a, PauliOperator::X));
    return o;
}
inline L tgate(PatchId t, bool local, PatchId& n)
{
    L o; PatchId m = n++;
    o.push_back({.operation = MagicStateRequest{m, t}, .wait_at_most_for = FOREVER, .clients = {t}});
    if (local) { for (auto& x : cnot(t, m, CNOTType::BELL_BASED, CNOTAncillaPlacement::USE_DEDICATED_CELL, CNOTCorrectionMode::NEVER, true, n)) o.push_back(x); o.push_back(meas(m, PauliOperator::Z)); }
    else { o.push_back(joint(t, m, PauliOperator::Z)); o.push_back(meas(m, PauliOperator::X)); }
    o.push_back(op(t, SingleQubitOp::Operator::S));
    return o;
}
inline L translate(const Gate& g, CNOTCorrectionMode m, bool local, PatchId& n)
{
    using T = BasicSingleQubitGate::Type; using O = SingleQubitOp::Operator;
    if (auto* b = std::get_if<BasicSingleQubitGate>(&g)) switch (b->gate_type) {
        case T::X: return {op(b->target_qubit, O::X)}; case T::Y: return {op(b->target_qubit, O::Y)}; case T::Z: return {op(b->target_qubit, O::Z)};
        case T::H: return {op(b->target_qubit, O::H)}; case T::S: return {op(b->target_qubit, O::S)}; case T::SDg: return {op(b->target_qubit, O::S, true)};
        default: return tgate(b->target_qubit, local, n);
    }
    if (auto* r = std::get_if<RZ>(&g)) {
        auto& f = r->pi_fraction;
        if (f.num != 1) throw Refused{};
        if (f.den == 1) return {op(r->target_qubit, O::Z)};
        if (f.den == 2) return {op(r->target_qubit, O::S, f.is_negative)};
        if (f.den == 4) return tgate(r->target_qubit, local, n);
        throw Refused{};
    }
    if (auto* r = std::get_if<Reset>(&g)) { if (r->register_name != "q") throw Refused{}; return {{.operation = PatchReset{r->target_qubit}, .wait_at_most_for = FOREVER}}; }
    auto& c = std::get<ControlledGate>(g);
    auto* b = std::get_if<BasicSingleQubitGate>(&c.target_gate);
    if (!b || (b->gate_type != T::X && b->gate_type != T::Z)) throw Refused{};
    L o = cnot(c.control_qubit, b->target_qubit, c.cnot_type, c.cnot_ancilla_placement, m, local, n);
    if (b->gate_type == T::Z) { o.insert(o.begin(), op(b->target_qubit, O::H)); o.push_back(op(b->target_qubit, O::H)); }
    return o;
}
template <class V> std::string list(const V& v) { std::string s = "["; for (auto& x : v) s += canon(x) + "; "; return s + "]"; }
inline Gate rand_gate(int m)
{
    switch (drv::rnd(0, 9)) {
        case 0: { static const int d[] = {1, 2, 4, 4, 8}; return RZ{(QubitNum)drv::rnd(0, m), Fraction{drv::rnd(0, 5) ? 1 : 3, d[drv::rnd(0, 4)], drv::coin()}}; }
        case 1: return Reset{drv::rnd(0, 5) ? "q" : "r", (QubitNum)drv::rnd(0, m)};
        default: return ins::rand_gate(m, false);
    }
}
}
