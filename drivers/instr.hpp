// Random gates and lattice-surgery instructions for the replay drivers.
#pragma once
#include "slices.hpp"
#include <lsqecc/gates/gates.hpp>
#include <lsqecc/ls_instructions/ls_instructions.hpp>

namespace ins {
using namespace lsqecc;
inline PauliOperator rand_pauli(bool with_y = true) { static const PauliOperator p[] = {PauliOperator::X, PauliOperator::Z, PauliOperator::Y}; return p[drv::rnd(0, with_y ? 2 : 1)]; }
inline PatchId pid(int m) { return (PatchId)drv::rnd(0, m); }
inline const int KINDS = 12;
// kind 0..11 in the order of the variant
inline LSInstruction rand_instruction(int kind, int m, bool clients = true)
{
    LSInstruction r{DeclareLogicalQubitPatches{}};
    switch (kind) {
        case 0: { DeclareLogicalQubitPatches d; for (int i = drv::rnd(1, 3); i > 0; i--) d.patch_ids.insert(pid(m)); r.operation = d; break; }
        case 1: r.operation = SinglePatchMeasurement{pid(m), rand_pauli(), drv::coin()}; break;
        case 2: { MultiPatchMeasurement d{}; d.is_negative = drv::coin(); for (int i = drv::rnd(1, 4); i > 0; i--) d.observable[pid(m)] = drv::rnd(0, 7) ? rand_pauli() : PauliOperator::I; r.operation = d; break; }
        case 3: { PatchInit d{}; d.target = pid(m); d.state = drv::coin() ? PatchInit::InitializeableStates::Zero : PatchInit::InitializeableStates::Plus; if (drv::coin()) d.place_next_to = PlaceNexTo{pid(m), rand_pauli(false)}; r.operation = d; break; }
        case 4: { BellPairInit d{}; d.side1 = pid(m); d.side2 = pid(m); d.loc1 = {pid(m), rand_pauli(false)}; d.loc2 = {pid(m), rand_pauli(false)}; r.operation = d; break; }
        case 5: r.operation = MagicStateRequest{pid(m), pid(m)}; break;
        case 6: { YStateRequest d{}; d.target = pid(m); d.near_patch = pid(m); r.operation = d; break; }
        case 7: { static const SingleQubitOp::Operator o[] = {SingleQubitOp::Operator::X, SingleQubitOp::Operator::Y, SingleQubitOp::Operator::Z, SingleQubitOp::Operator::H, SingleQubitOp::Operator::S}; SingleQubitOp d{}; d.target = pid(m); d.op = o[drv::rnd(0, 4)]; d.is_dagger = drv::rnd(0, 4) == 0; r.operation = d; break; }
        case 8: r.operation = RotateSingleCellPatch{pid(m)}; break;
        case 9: {
            BusyRegion d{}; for (int i = drv::rnd(0, 3); i > 0; i--) { d.region.cells.push_back(sl::rand_single(Cell{drv::rnd(0, 4), drv::rnd(0, 4)})); }
            d.steps_to_clear = (size_t)drv::rnd(0, 4);
            for (int i = drv::rnd(0, 3); i > 0; i--) { SparsePatch p; static_cast<Patch&>(p) = sl::rand_patch(m); p.cells = sl::rand_single(Cell{drv::rnd(0, 4), drv::rnd(0, 4)}); d.state_after_clearing.push_back(p); }
            r.operation = d; break;
        }
        case 10: { BellBasedCNOT d{}; d.control = pid(m); d.target = pid(m); d.side1 = pid(m); d.side2 = pid(m); r.operation = d; break; }
        default: r.operation = PatchReset{pid(m)}; break;
    }
    if (clients) for (int i = drv::rnd(0, 5) - 3; i > 0; i--) r.clients.insert(pid(m));
    return r;
}
// the patches an instruction acts on (independent restatement)
inline std::set<PatchId> acts(const LSInstruction& i)
{
    std::set<PatchId> s;
    if (auto* d = std::get_if<SinglePatchMeasurement>(&i.operation)) s = {d->target};
    if (auto* d = std::get_if<MultiPatchMeasurement>(&i.operation)) for (auto& [p, o] : d->observable) s.insert(p);
    if (auto* d = std::get_if<PatchInit>(&i.operation)) s = {d->target};
    if (auto* d = std::get_if<BellPairInit>(&i.operation)) s = {d->side1, d->side2, d->loc1.target, d->loc2.target};
    if (auto* d = std::get_if<MagicStateRequest>(&i.operation)) s = {d->target};
    if (auto* d = std::get_if<YStateRequest>(&i.operation)) s = {d->target};
    if (auto* d = std::get_if<SingleQubitOp>(&i.operation)) s = {d->target};
    if (auto* d = std::get_if<RotateSingleCellPatch>(&i.operation)) s = {d->target};
    if (auto* d = std::get_if<BusyRegion>(&i.operation)) for (auto& p : d->state_after_clearing) if (p.id) s.insert(*p.id);
    if (auto* d = std::get_if<BellBasedCNOT>(&i.operation)) s = {d->control, d->target, d->side1, d->side2};
    if (auto* d = std::get_if<PatchReset>(&i.operation)) s = {d->target};
    return s;
}
inline std::set<PatchId> uses(const LSInstruction& i) { auto s = acts(i); for (auto c : i.clients) s.insert(c); return s; }
inline std::string show(const LSInstruction& i)
{
    std::ostringstream o; o << i; if (auto* d = std::get_if<SingleQubitOp>(&i.operation)) if (d->is_dagger) o << "(dagger)";
    if (auto* d = std::get_if<BusyRegion>(&i.operation)) { o << " then"; for (auto& p : d->state_after_clearing) o << " " << sl::show(static_cast<const Patch&>(p)); }
    if (i.clients.size()) { o << " waits for"; for (auto c : i.clients) o << " " << c; }
    return o.str();
}
inline gates::Gate rand_gate(int m, bool with_reset = true)
{
    using namespace gates;
    int k = drv::rnd(0, with_reset ? 9 : 8);
    auto basic = [&](QubitNum q) { static const BasicSingleQubitGate::Type t[] = {BasicSingleQubitGate::Type::X, BasicSingleQubitGate::Type::Y, BasicSingleQubitGate::Type::Z, BasicSingleQubitGate::Type::S, BasicSingleQubitGate::Type::T, BasicSingleQubitGate::Type::H, BasicSingleQubitGate::Type::SDg, BasicSingleQubitGate::Type::TDg}; return BasicSingleQubitGate{q, t[drv::rnd(0, 7)]}; };
    auto frac = [&] { return Fraction{drv::rnd(-5, 5), drv::rnd(1, 16), drv::rnd(0, 2) == 0}; };
    QubitNum q = (QubitNum)drv::rnd(0, m), p = (QubitNum)drv::rnd(0, m);
    if (p == q) p = (q + 1) % (QubitNum)(m + 1);
    if (k <= 2) return basic(q);
    if (k == 3) return RZ{q, frac()};
    CNOTType ct = static_cast<CNOTType>(drv::rnd(0, 2)); CNOTAncillaPlacement ap = static_cast<CNOTAncillaPlacement>(drv::rnd(0, 2));
    if (k <= 5) return CNOT(p, q, ct, ap);
    if (k == 6) return CZ(p, q, ct, ap);
    if (k == 7) return CRZ(p, q, frac(), ct, ap);
    if (k == 8) return ControlledGate{q, basic(p), ct, ap};
    return Reset{"q", q};
}
inline std::set<QubitNum> qubits(const gates::Gate& g)
{
    using namespace gates;
    if (auto* d = std::get_if<BasicSingleQubitGate>(&g)) return {d->target_qubit};
    if (auto* d = std::get_if<RZ>(&g)) return {d->target_qubit};
    if (auto* d = std::get_if<Reset>(&g)) return {d->target_qubit};
    auto& c = std::get<ControlledGate>(g);
    std::set<QubitNum> s{c.control_qubit};
    if (auto* d = std::get_if<BasicSingleQubitGate>(&c.target_gate)) s.insert(d->target_qubit);
    if (auto* d = std::get_if<RZ>(&c.target_gate)) s.insert(d->target_qubit);
    return s;
}
inline std::string show(const gates::Gate& g)
{
    using namespace gates;
    std::ostringstream o; o << g;
    if (auto* d = std::get_if<RZ>(&g)) o << (d->pi_fraction.is_negative ? "(neg)" : "");
    if (auto* d = std::get_if<ControlledGate>(&g)) { o << " type " << (int)d->cnot_type << " placement " << (int)d->cnot_ancilla_placement; if (auto* r = std::get_if<RZ>(&d->target_gate)) o << (r->pi_fraction.is_negative ? "(neg)" : ""); }
    return o.str();
}
template <class A> bool disjoint(const std::set<A>& a, const std::set<A>& b) { for (auto& x : a) if (b.count(x)) return false; return true; }
}
