//SOURCES: gates/gates.cpp gates/decompose_rotation_stream.cpp
//OVERRIDES approximate_RZ_gate (gridsynth is not available): a deterministic list that depends only on the qubit and the value of the angle
// C17: decomposition of rotations and controlled rotations into the basic gate set, and the stream built on it.
#include "instr.hpp"
#include <lsqecc/gates/decompose_rotation_stream.hpp>
#include <lsqecc/gates/gate_approximator.hpp>
#include <numeric>
#include <deque>
using namespace lsqecc;
using namespace lsqecc::gates;

static std::vector<Gate> rotation(QubitNum q, long long n, long long d)
{
    long long g = std::gcd(n < 0 ? -n : n, d);
    if (g) { n /= g; d /= g; }
    unsigned long long h = (unsigned long long)(n * 1000003 + d * 7919 + q * 31 + 12345);
    std::vector<Gate> out;
    int len = 1 + (int)(h % 5);
    for (int i = 0; i < len; i++) { h = h * 6364136223846793005ULL + 1442695040888963407ULL; static const BasicSingleQubitGate::Type t[] = {BasicSingleQubitGate::Type::X, BasicSingleQubitGate::Type::Z, BasicSingleQubitGate::Type::S, BasicSingleQubitGate::Type::T, BasicSingleQubitGate::Type::H}; out.push_back(BasicSingleQubitGate{q, t[(h >> 33) % 5]}); }
    return out;
}
static int last_precision;
namespace lsqecc {
std::vector<Gate> approximate_RZ_gate(const RZ rz, double precision)
{
    last_precision = (int)precision;
    return rotation(rz.target_qubit, rz.pi_fraction.is_negative ? -(long long)rz.pi_fraction.num : (long long)rz.pi_fraction.num, rz.pi_fraction.den);
}
}
static std::vector<Gate> oracle(const Gate& g)
{
    if (auto* r = std::get_if<RZ>(&g)) return rotation(r->target_qubit, r->pi_fraction.is_negative ? -(long long)r->pi_fraction.num : (long long)r->pi_fraction.num, r->pi_fraction.den);
    if (auto* c = std::get_if<ControlledGate>(&g))
        if (auto* r = std::get_if<RZ>(&c->target_gate)) {
            long long n = r->pi_fraction.is_negative ? -(long long)r->pi_fraction.num : (long long)r->pi_fraction.num, d = 2 * (long long)r->pi_fraction.den;
            std::vector<Gate> out = rotation(c->control_qubit, n, d);
            auto app = [&](std::vector<Gate> l) { for (auto& x : l) out.push_back(x); };
            app(rotation(r->target_qubit, n, d));
            Gate cn = ControlledGate{c->control_qubit, BasicSingleQubitGate{r->target_qubit, BasicSingleQubitGate::Type::X}, c->cnot_type, c->cnot_ancilla_placement};
            out.push_back(cn);
            app(rotation(r->target_qubit, -n, d));
            out.push_back(cn);
            return out;
        }
    return {g};
}
template <class It> static std::string list(It a, It b) { std::string s = "["; for (; a != b; ++a) s += ins::show(*a) + "; "; return s + "]"; }
static bool eq(const std::vector<Gate>& a, const std::vector<Gate>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (ins::show(a[i]) != ins::show(b[i])) return false; return true; }
static bool basic(const Gate& g) { auto* c = std::get_if<ControlledGate>(&g); return std::holds_alternative<BasicSingleQubitGate>(g) || std::holds_alternative<Reset>(g) || (c && std::holds_alternative<BasicSingleQubitGate>(c->target_gate)); }

struct Source : GateStream {
    std::deque<Gate> q; Qreg r{"q", 12};
    Gate get_next_gate() override { Gate g = q.front(); q.pop_front(); return g; }
    bool has_next_gate() const override { return !q.empty(); }
    const Qreg& get_qreg() const override { return r; }
};

int main()
{
    drv::init("random gates of every kind and random gate sequences; decompositions compared gate by gate with a restated identity table, the approximation of a rotation replaced by a function of the angle");
    drv::Timer T;
    const double lim = drv::budget(15, 120);
    const int n = drv::thorough() ? 100000 : 10000;
    for (int k = 0; k < n && T.s() < lim; k++) {
        const int m = drv::coin() ? 3 : 9;
        Gate g = ins::rand_gate(m);
        std::string t = ins::show(g);
        drv::cas("gate", t);
        CHECK_("is-decomposed", is_decomposed(g) == basic(g), t);
        last_precision = 10;
        auto got = decompose(g, 10);
        CHECK_("precision", last_precision == 10, t << " decomposed with precision " << last_precision);
        CHECK_("decompose", eq(got, oracle(g)), t << " became " << list(got.begin(), got.end()));
        if (k % 5 == 0) {
            auto src = std::make_unique<Source>();
            std::vector<Gate> in, want;
            for (int i = drv::rnd(0, 8); i-- > 0;) { in.push_back(ins::rand_gate(m)); src->q.push_back(in.back()); for (auto& x : oracle(in.back())) want.push_back(x); }
            std::string s = list(in.begin(), in.end());
            drv::cas("stream", s, in.empty());
            DecomposeRotationStream st{std::move(src), 10};
            CHECK_("qreg", st.get_qreg().size == 12 && st.get_qreg().name == "q", s);
            std::vector<Gate> out;
            while (st.has_next_gate() && out.size() <= want.size()) out.push_back(st.get_next_gate());
            CHECK_("stream", eq(out, want), s << " streamed as " << list(out.begin(), out.end()));
            for (auto& x : out) CHECK_("basic", basic(x), ins::show(x) << " in the output for " << s);
        }
    }
    return drv::finish();
}
