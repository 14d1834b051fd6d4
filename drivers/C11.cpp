//SOURCES: dag/directed_graph.cpp
// C11: random histories of graph operations against plain sets of nodes and edges.
#include "drv.hpp"
#include <lsqecc/dag/directed_graph.hpp>
#include <memory>
using namespace lsqecc::dag;
using Nodes = std::set<label_t>;
using Edges = std::set<std::pair<label_t, label_t>>;
struct Ref { Nodes n; Edges e; };
static std::string txt(const Ref& r)
{
    std::ostringstream o; o << "nodes"; for (auto x : r.n) o << " " << x; o << " edges"; for (auto [a, b] : r.e) o << " " << a << ">" << b; return o.str();
}
static void view(const char* part, const DirectedGraph& g, const Ref& r, const std::string& hist)
{
    Nodes n, bn; Edges e, be;
    for (auto& [a, s] : get_edges_for_testing(g)) { n.insert(a); for (auto b : s) e.insert({a, b}); }
    for (auto& [b, s] : get_back_edges_for_testing(g)) { bn.insert(b); for (auto a : s) be.insert({a, b}); }
    CHECK_(part, n == r.n && e == r.e, hist << " gave " << txt({n, e}) << " instead of " << txt(r));
    CHECK_("views", bn == n && be == e, hist << ": predecessors say " << txt({bn, be}) << ", successors say " << txt({n, e}));
    for (auto x : r.n) {
        auto s = g.successors(x), p = g.predecessors(x);
        Edges got; bool dup = false;
        for (auto y : s) dup |= !got.insert({x, y}).second;
        Edges gotb; for (auto y : p) dup |= !gotb.insert({y, x}).second;
        for (auto& ed : r.e) { if (ed.first == x && !got.count(ed)) dup = true; if (ed.second == x && !gotb.count(ed)) dup = true; }
        for (auto& ed : got) if (!r.e.count(ed)) dup = true;
        for (auto& ed : gotb) if (!r.e.count(ed)) dup = true;
        CHECK_("neighbours", !dup, hist << ": neighbours of " << x << " in " << txt(r));
    }
    Nodes h, t, wh, wt;
    for (auto x : g.heads()) h.insert(x);
    for (auto x : g.tails()) t.insert(x);
    for (auto x : r.n) { bool in = false, out = false; for (auto& ed : r.e) { in |= ed.second == x; out |= ed.first == x; } if (!in) wh.insert(x); if (!out) wt.insert(x); }
    CHECK_("heads-tails", h == wh && t == wt, hist << ": " << txt(r));
    CHECK_("empty", g.empty() == r.n.empty(), hist);
}
int main()
{
    drv::init("random histories of node and edge additions and removals and expansions over up to nine labels; after each step both adjacency views, the neighbour lists, heads and tails are compared with plain sets");
    drv::Timer T;
    const double lim = drv::budget(20, 150);
    const int runs = drv::thorough() ? 200000 : 15000;
    for (int k = 0; k < runs && T.s() < lim; k++) {
        DirectedGraph g; Ref r; std::ostringstream h;
        const int top = drv::rnd(2, 9), steps = drv::rnd(1, 14);
        auto lab = [&] { return (label_t)drv::rnd(0, top); };
        auto have = [&] { if (r.n.empty() || drv::rnd(0, 9) == 0) return lab(); auto it = r.n.begin(); std::advance(it, drv::rnd(0, (int)r.n.size() - 1)); return *it; };
        label_t fresh = 20;
        for (int i = 0; i < steps; i++) {
            Ref w = r; bool refuse = false; std::string part; std::function<void()> op; std::ostringstream o;
            const int what = drv::rnd(0, 9);
            if (what == 0) { auto x = lab(); part = "add-node"; o << "node " << x; w.n.insert(x); op = [&g, x] { g.add_node(x); }; }
            else if (what <= 4) { auto x = lab(), y = lab(); part = "add-edge"; o << "edge " << x << ">" << y; w.n.insert({x, y}); w.e.insert({x, y}); op = [&g, x, y] { g.add_edge(x, y); }; }
            else if (what == 5) { auto x = have(), y = have(); if (!r.e.empty() && drv::coin()) { auto it = r.e.begin(); std::advance(it, drv::rnd(0, (int)r.e.size() - 1)); std::tie(x, y) = *it; } part = "remove-edge"; o << "drop " << x << ">" << y; refuse = !r.n.count(x) || !r.n.count(y); w.e.erase({x, y}); op = [&g, x, y] { g.remove_edge(x, y); }; }
            else if (what <= 7) { auto x = have(); part = "remove-node"; o << "drop " << x; refuse = !r.n.count(x); w.n.erase(x); for (auto& ed : r.e) if (ed.first == x || ed.second == x) w.e.erase(ed); op = [&g, x] { g.remove_node(x); }; }
            else {
                auto x = have(); std::vector<label_t> rep; int n = drv::rnd(0, 8) == 0 ? 0 : drv::rnd(1, 4);
                for (int j = 0; j < n; j++) rep.push_back(drv::rnd(0, 15) == 0 ? lab() : fresh++);
                part = "expand"; o << "expand " << x << " into"; for (auto y : rep) o << " " << y;
                refuse = !r.n.count(x) || rep.empty(); for (auto y : rep) refuse |= r.n.count(y) > 0;
                if (!refuse) {
                    w = {r.n, {}}; w.n.erase(x); for (auto y : rep) w.n.insert(y);
                    for (auto [a, b] : r.e) w.e.insert({a == x ? rep.back() : a, b == x ? rep.front() : b});
                    for (size_t j = 1; j < rep.size(); j++) w.e.insert({rep[j - 1], rep[j]});
                }
                op = [&g, x, rep] { g.expand(x, rep); };
            }
            if (refuse) w = r;
            h << (i ? "; " : "") << o.str();
            drv::cas(part, h.str() + " on " + txt(r), r.n.empty());
            bool thrown = false;
            try { op(); } catch (const std::exception&) { thrown = true; }
            CHECK_("refusals", thrown == refuse, h.str() << (thrown ? " was refused" : " was carried out") << " on " << txt(r));
            r = w;
            view(part.c_str(), g, r, h.str());
            if (i == steps - 1) { label_t x = 999; bool a = false, b = false; try { (void)g.successors(x); } catch (const std::exception&) { a = true; } try { (void)g.predecessors(x); } catch (const std::exception&) { b = true; } CHECK_("refusals", a && b, "neighbours of a missing node"); }
        }
    }
    return drv::finish();
}
