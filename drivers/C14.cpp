//SOURCES: patches/patches.cpp layout/layout.cpp gates/gates.cpp gates/gate_approximator.cpp ls_instructions/ls_instructions.cpp ls_instructions/local_instructions.cpp
// C14: operand sets and commutation of random instructions and gates against a restated operand table.
#include "instr.hpp"
using namespace lsqecc;

int main()
{
    drv::init("random instructions of every kind with random clients, random gates of every kind, all pairs; operand sets and commutation compared with a restated operand table");
    drv::Timer T;
    const double lim = drv::budget(20, 150);
    const int n = drv::thorough() ? 200000 : 20000;
    for (int k = 0; k < n && T.s() < lim; k++) {
        const int m = drv::coin() ? 4 : 9;
        LSInstruction a = ins::rand_instruction(k % ins::KINDS, m), b = ins::rand_instruction((k / ins::KINDS) % ins::KINDS, m);
        {
            std::string t = ins::show(a) + " | " + ins::show(b);
            drv::cas("instructions", t);
            auto got = a.get_operating_patches(); auto dep = a.get_patch_dependencies();
            CHECK_("patches", std::set<PatchId>(got.begin(), got.end()) == ins::uses(a), ins::show(a) << " reports " << lstk::join(got, ","));
            CHECK_("dependencies", std::set<PatchId>(dep.begin(), dep.end()) == ins::uses(a), ins::show(a) << " reports " << lstk::join(dep, ","));
            bool c = dag::CommutationTrait<LSInstruction>::can_commute(a, b);
            CHECK_("commute", !c || ins::disjoint(ins::uses(a), ins::uses(b)), t);
            CHECK_("commute", c || !ins::disjoint(ins::uses(a), ins::uses(b)), t << " (not reported as commuting)");
        }
        {
            gates::Gate g = ins::rand_gate(m), h = ins::rand_gate(m);
            std::string t = ins::show(g) + " | " + ins::show(h);
            drv::cas("gates", t);
            auto got = gates::get_operating_qubits(g);
            CHECK_("qubits", std::set<QubitNum>(got.begin(), got.end()) == ins::qubits(g), ins::show(g) << " reports " << lstk::join(got, ","));
            bool c = dag::CommutationTrait<gates::Gate>::can_commute(g, h);
            bool share = !ins::disjoint(ins::qubits(g), ins::qubits(h));
            auto* cg = std::get_if<gates::ControlledGate>(&g); auto* ch = std::get_if<gates::ControlledGate>(&h);
            bool same = cg && ch && cg->control_qubit == ch->control_qubit;
            if (same) { auto x = ins::qubits(g), y = ins::qubits(h); x.erase(cg->control_qubit); y.erase(cg->control_qubit); share = !ins::disjoint(x, y); }
            CHECK_("commute-gates", c == !share, t << " reported " << c);
        }
    }
    return drv::finish();
}
