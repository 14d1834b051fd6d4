//SOURCES: dag/,ls_instructions,patches/patches.cpp,layout/layout.cpp,gates/,patches/fast_patch,patches/slice
// C12: random histories of a dependency DAG of LS instructions against plain sets.
#include "drv.hpp"
#include <lsqecc/dag/dependency_dag.hpp>
#include <lsqecc/dag/domain_dags.hpp>
#include <lsqecc/dag/commutation_trait.hpp>
#include <lsqecc/ls_instructions/ls_instructions.hpp>
using namespace lsqecc;
using dag::label_t;
using Pairs = std::set<std::pair<label_t, label_t>>;
struct Ref { std::map<label_t, LSInstruction> n; Pairs e, p; std::set<label_t> h; label_t next = 0; };
static LSInstruction some()
{
    PatchId a = drv::rnd(0, 4), b = drv::rnd(0, 4);
    switch (drv::rnd(0, 4)) {
        case 0: return {SinglePatchMeasurement{a, PauliOperator::Z, false}};
        case 1: { MultiPatchMeasurement m; m.observable[a] = PauliOperator::X; m.observable[b] = PauliOperator::Z; m.is_negative = false; return {m}; }
        case 2: return {SingleQubitOp{a, SingleQubitOp::Operator::H}};
        case 3: return {PatchInit{a, PatchInit::InitializeableStates::Zero}};
        default: return {MagicStateRequest{a, b}};
    }
}
static std::string str(const LSInstruction& i) { std::ostringstream o; o << i; return o.str(); }
static std::string str(const Pairs& s) { std::ostringstream o; for (auto [a, b] : s) o << " " << a << ">" << b; return o.str(); }
static bool comm(const LSInstruction& a, const LSInstruction& b) { return dag::CommutationTrait<LSInstruction>::can_commute(a, b); }
static void view(const char* part, const dag::DependencyDag<LSInstruction>& cd, const Ref& r, const std::string& h)
{
    auto& d = const_cast<dag::DependencyDag<LSInstruction>&>(cd);
    Pairs e; std::set<label_t> n, wn;
    for (auto& [a, s] : get_edges_for_testing(get_graph_for_testing(d))) { n.insert(a); for (auto b : s) e.insert({a, b}); }
    for (auto& [a, i] : r.n) wn.insert(a);
    CHECK_(part, n == wn && e == r.e, h << " left edges" << str(e) << " instead of" << str(r.e));
    for (auto& [a, i] : r.n) { bool same = false; try { same = str(d.at(a)) == str(i); } catch (const std::exception&) {} CHECK_(part, same, h << ": instruction " << a); }
    std::set<label_t> app, wapp, px;
    for (auto a : d.applicable_instructions()) app.insert(a);
    for (auto a : wn) { bool in = false; for (auto& ed : r.e) in |= ed.second == a; if (!in) wapp.insert(a); }
    CHECK_("applicable", app == wapp, h << ": edges" << str(r.e));
    for (auto a : d.proximate_instructions()) px.insert(a);
    std::ostringstream w; for (auto a : px) w << " " << a; w << " instead of"; for (auto a : r.h) w << " " << a;
    CHECK_("marks", px == r.h, h << ": must run next are" << w.str());
    std::ostringstream g; d.to_graphviz(g);
    Pairs p; std::istringstream in(g.str()); std::string l;
    while (std::getline(in, l)) if (l.find("[penwidth=5]") != std::string::npos) { label_t a, b; if (sscanf(l.c_str(), " %zu -> %zu", &a, &b) == 2) p.insert({a, b}); }
    CHECK_("pairs", p == r.p, h << ": proximity pairs" << str(p) << " instead of" << str(r.p));
    CHECK_("empty", d.empty() == r.n.empty(), h);
}
int main()
{
    drv::init("random histories of instructions pushed, replaced by sequences and removed from a dependency DAG; nodes, edges, instructions, applicable instructions, proximity pairs and marks compared with plain sets");
    drv::Timer T;
    const double lim = drv::budget(25, 150);
    const int runs = drv::thorough() ? 100000 : 6000;
    for (int k = 0; k < runs && T.s() < lim; k++) {
        dag::DependencyDag<LSInstruction> d; Ref r; std::ostringstream h;
        const int steps = drv::rnd(1, 16);
        for (int i = 0; i < steps; i++) {
            auto have = [&]() -> label_t { if (r.n.empty() || drv::rnd(0, 14) == 0) return r.next + 3; auto it = r.n.begin(); std::advance(it, drv::rnd(0, (int)r.n.size() - 1)); return it->first; };
            const int what = drv::rnd(0, 9);
            h << (i ? "; " : "");
            bool thrown = false, refuse = false; const char* part;
            if (what <= 4) {
                auto ins = some(); part = "push"; h << "push " << str(ins);
                drv::cas(part, h.str());
                for (auto& [a, o] : r.n) if (!comm(o, ins)) r.e.insert({a, r.next});
                r.n[r.next] = ins;
                auto l = d.push_instruction_based_on_commutation(LSInstruction(ins));
                CHECK_(part, l == r.next, h.str() << ": label " << l);
                r.next++;
            } else if (what <= 6) {
                auto x = have(); part = "pop"; h << "pop " << x; refuse = !r.n.count(x);
                drv::cas(part, h.str());
                if (!refuse) {
                    Pairs e, p;
                    for (auto& ed : r.e) if (ed.first != x && ed.second != x) e.insert(ed);
                    for (auto& pr : r.p) { if (pr.second == x && r.e.count(pr)) r.h.insert(pr.first); else p.insert(pr); }
                    r.h.erase(x); r.e = e; r.p = p; r.n.erase(x);
                }
                try { d.pop_head(x); } catch (const std::exception&) { thrown = true; }
            } else if (what == 9 && !r.n.empty()) { auto x = have(); part = "mark"; h << "mark " << x; drv::cas(part, h.str()); r.h.insert(x); d.make_proximate(x); }
            else {
                auto x = have(); std::vector<LSInstruction> rep; int n = drv::rnd(0, 9) == 0 ? 0 : drv::rnd(1, 4); bool px = drv::rnd(0, 2) > 0;
                for (int j = 0; j < n; j++) rep.push_back(some());
                part = "expand"; h << "expand " << x << " into " << n << (px ? " proximate" : ""); refuse = !n || !r.n.count(x);
                drv::cas(part, h.str());
                if (refuse && n) break; // a missing node leaves labels behind; checked on its own below
                if (!refuse) {
                    label_t f = r.next, l = r.next + n - 1; Pairs e, p;
                    for (auto [a, b] : r.e) e.insert({a == x ? l : a, b == x ? f : b});
                    for (int j = 1; j < n; j++) { e.insert({f + j - 1, f + j}); if (px) p.insert({f + j - 1, f + j}); }
                    for (auto [a, b] : r.p) p.insert({a == x ? l : a, b == x ? f : b});
                    if (r.h.erase(x)) r.h.insert(f);
                    r.n.erase(x); for (int j = 0; j < n; j++) r.n[f + j] = rep[j];
                    r.e = e; r.p = p; r.next += n;
                }
                try { auto l = d.expand(x, std::move(rep), px); CHECK_(part, !refuse && r.n.count(l) && l == r.next - n, h.str() << ": start " << l); } catch (const std::exception&) { thrown = true; }
            }
            CHECK_("refusals", thrown == refuse, h.str() << (thrown ? " was refused" : " was carried out"));
            view(part, d, r, h.str());
        }
    }
    return drv::finish();
}
