//SOURCES: gates/gates.cpp gates/parse_gates.cpp ls_instructions/ patches/patches.cpp patches/sparse_slice.cpp
// C15: translation of gates into lattice-surgery instructions.
#include "c15.hpp"
using namespace gs;
int main()
{
    drv::init("random gates of every kind on up to 12 qubits, and random programs of up to 12 gates, with every CNOT type, placement, correction mode and locality; the instructions compared one by one with a restated translation table");
    drv::Timer T;
    const double lim = drv::budget(15, 120);
    const int n = drv::thorough() ? 60000 : 8000;
    for (int k = 0; k < n && T.s() < lim; k++) {
        const int len = k % 3 ? 1 : drv::rnd(0, 12);
        Source src; src.r.size = (size_t)drv::rnd(1, 12);
        std::vector<Gate> in; for (int i = 0; i < len; i++) in.push_back(gs::rand_gate(11));
        for (auto& g : in) src.q.push_back(g);
        const bool local = drv::coin(); const auto mode = drv::rnd(0, 2) ? CNOTCorrectionMode::NEVER : CNOTCorrectionMode::ALWAYS;
        PatchId next = (PatchId)drv::rnd(12, 40);
        std::string t = (local ? "local " : "") + std::string(mode == CNOTCorrectionMode::ALWAYS ? "corrections " : "") + "from id " + std::to_string(next) + " [";
        for (auto& g : in) t += ins::show(g) + "; "; t += "]";
        drv::cas(len == 1 ? "gate" : "program", t, in.empty());
        IdGenerator gen; gen.set_start(next);
        LSInstructionStreamFromGateStream st{src, mode, gen, local};
        std::set<PatchId> want_core, core(st.core_qubits().begin(), st.core_qubits().end()); for (PatchId q = 0; q < src.r.size; q++) want_core.insert(q);
        CHECK_("core-qubits", core == want_core, "a register of " << src.r.size << " qubits has " << core.size() << " core qubits");
        for (size_t i = 0; i < in.size(); i++) {
            L want; bool refused = false; PatchId n0 = next;
            try { want = translate(in[i], mode, local, next); } catch (Refused&) { refused = true; }
            L got; bool threw = false;
            CHECK_("has-next", st.has_next_instruction(), t << " ended before gate " << i);
            try { for (size_t j = 0; j < std::max<size_t>(want.size(), 1); j++) { CHECK_("has-next", st.has_next_instruction(), t << " ended inside gate " << i); got.push_back(st.get_next_instruction()); } } catch (std::exception&) { threw = true; }
            CHECK_("refused", refused == threw, ins::show(in[i]) << (threw ? " is refused" : " is not refused") << ": became " << list(got) << " in " << t);
            if (refused || threw) break;
            CHECK_("translate", list(got) == list(want), ins::show(in[i]) << " (fresh ids from " << n0 << ") became " << list(got) << " instead of " << list(want) << " in " << t);
            if (i + 1 == in.size()) CHECK_("ends", !st.has_next_instruction(), t << " goes on after the last gate");
            if (!drv::fails.empty()) break;
        }
    }
    return drv::finish();
}
