"""C12: the dependency DAG over instructions."""
from _common import *
from c01_occupancy import cur_of, changes
from c11_graph import pos, pos_def, succ_def, listed, succ, N, E, edge, consistent, entry_of, X, Y, sets_ok

C = []
P = ("C12",)
GATE = "std::variant<lsqecc::gates::BasicSingleQubitGate,lsqecc::gates::RZ,lsqecc::gates::ControlledGate,lsqecc::gates::Reset>"
G = "lsqecc::dag::DirectedGraph::"
I = z3.Int("i!dag")


def rank(g):
    """ghost: a rank that grows along every edge, for acyclic graphs; below top"""
    f = g.E.uf("rank", g.T.sort(), z3.IntSort(), z3.IntSort())
    return lambda x: f(g.T, x)


def top(g):
    return g.E.uf("top", g.T.sort(), z3.IntSort())(g.T)


def acyclic(g):
    """specification predicate: some assignment of ranks grows along every edge"""
    return g.E.uf("acyclic", g.T.sort(), z3.BoolSort())(g.T)


def acyclic_def(cx, ct, f=None, ftop=None):
    """the definition (rank is an assignment that works if any does), used with the assignment f"""
    h = z3.Const("g!ac", cx.eng.T.sort(ct))
    g = V(cx.eng, h, ct)
    k = rank(g)
    out = [z3.ForAll([h, X, Y], z3.Implies(And(acyclic(g), edge(g, X, Y)), k(X) < k(Y)), patterns=[MP(acyclic(g), E(g, X, Y))]),
           z3.ForAll([h, X], z3.Implies(And(acyclic(g), N(g, X)), And(0 <= k(X), k(X) < top(g))), patterns=[MP(acyclic(g), N(g, X))]),
           z3.ForAll([h], z3.Implies(acyclic(g), top(g) >= 0), patterns=[acyclic(g)])]
    if f is not None:
        a, b, c = (z3.Function("no_rank_" + n, h.sort(), z3.IntSort())(h) for n in "abc")
        out.append(z3.ForAll([h], Or(And(edge(g, a, b), f(a) >= f(b)), And(N(g, c), Or(f(c) < 0, f(c) >= ftop)), ftop < 0, acyclic(g)), patterns=[acyclic(g)]))
    return out


def closed(g, v0, v1, but=None):
    """what was added to v0 has its successors in v1"""
    return FA([X, Y], z3.Implies(And(v1.IN(X), *([Not(v0.IN(X))] if v0 is not None else []), *([X != but] if but is not None else []), N(g, X), E(g, X, Y)), v1.IN(Y)), patterns=[MP(v1.IN(X), E(g, X, Y))])


def grown(g, v0, o0, v1, o1, cur=None):
    """depth-first search went from (v0, o0) to (v1, o1); cur is visited but not yet in the order"""
    new = lambda x: And(v1.IN(x), Not(v0.IN(x)), *([x != cur] if cur is not None else []))
    J = z3.Int("j!dag")
    return [("visited stays visited", FA([X], z3.Implies(v0.IN(X), v1.IN(X)), patterns=[v1.IN(X), v0.IN(X)])), ("only nodes", FA([X], z3.Implies(And(v1.IN(X), Not(v0.IN(X))), N(g, X)), patterns=[v1.IN(X)])),
            ("closed", closed(g, v0, v1, cur)), ("order grows", o1.LEN >= o0.LEN), ("order kept", FA([I], z3.Implies(And(0 <= I, I < o0.LEN), o1[I] == o0[I]), patterns=[o1[I], o0[I]])),
            ("the new ones are in the order", FA([X], z3.Implies(new(X), listed(o1, X)), patterns=[v1.IN(X)])),
            ("the order has new ones only", FA([I], z3.Implies(And(o0.LEN <= I, I < o1.LEN), new(o1[I])), patterns=[o1[I]])),
            ("each once", FA([I, J], z3.Implies(And(o0.LEN <= I, I < J, J < o1.LEN), o1[I] != o1[J]), patterns=[MP(o1[I], o1[J])]))]


def helper_ens(cx):
    g = cx.this
    return [("visited", cx.b(1).IN(cx.a(0)))] + grown(g, cx.a(1), cx.a(2), cx.b(1), cx.b(2))


def helper_inv(lp):
    cx = lp.eng.topctx
    g, c = cx.this, cx.a(0)
    v1, o1 = cur_of(lp, 1), cur_of(lp, 2)
    w = g.edges_[c]
    return [(And(v1.IN(c), Not(cx.a(1).IN(c))), "current is visited"), (FA([X], z3.Implies(And(w.IN(X), w.POS(X) < lp.it), v1.IN(X)), patterns=[w.IN(X), v1.IN(X)]), "neighbours so far")] + [(f, "hint " + l) for l, f in grown(g, cx.a(1), cx.a(2), v1, o1, c)]


def ax(cx):
    return sets_ok(cx) + [pos_def(cx.eng, cx.a(2).CT)]


C.append(Contract(G + "topological_order_helper", P, requires=lambda cx: consistent(cx.this) + [("a node", N(cx.this, cx.a(0)))], modifies=((1,), (2,)), ensures=helper_ens, loops=[helper_inv], opts={"axioms": ax, "paths": True}))


def head(g, x):
    return And(N(g, x), g.back_edges_[x].LEN == 0)


def order_ok(g, r):
    J = z3.Int("j!dag")
    return [("only nodes", FA([I], z3.Implies(And(0 <= I, I < r.LEN), N(g, r[I])), patterns=[r[I]])), ("each once", FA([I, J], z3.Implies(And(0 <= I, I < J, J < r.LEN), r[I] != r[J]), patterns=[MP(r[I], r[J])])),
            ("starts from the heads", FA([X], z3.Implies(head(g, X), listed(r, X)), patterns=[g.back_edges_[X].LEN])),
            ("closed", FA([X, Y], z3.Implies(And(listed(r, X), N(g, X), E(g, X, Y)), listed(r, Y)), patterns=[MP(pos(r, X), E(g, X, Y))]))]


def tails_first_ens(cx):
    g, r = cx.this, cx.ret
    return order_ok(g, r) + [("every node of an acyclic graph", Implies(acyclic(g), FA([X], z3.Implies(N(g, X), listed(r, X)), patterns=[N(g, X), pos(r, X)])))]


def tails_first_inv(lp):
    cx = lp.eng.topctx
    g = cx.this
    v1 = o1 = None
    for l in lp.locs:
        if l.h is not None and l.ct.kind == "set":
            v1 = V(lp.eng, l.h, l.ct)
        if l.h is not None and l.ct.kind == "vec":
            o1 = V(lp.eng, l.h, l.ct)
    w = cx.wrap(lp.eng.load(lp.s0, lp.cont))
    J = z3.Int("j!dag")
    return [(FA([X], z3.Implies(v1.IN(X), N(g, X)), patterns=[v1.IN(X)]), "hint only nodes"), (closed(g, None, v1), "hint closed"),
            (FA([X], z3.Implies(v1.IN(X), listed(o1, X)), patterns=[v1.IN(X)]), "hint in the order"), (FA([I], z3.Implies(And(0 <= I, I < o1.LEN), v1.IN(o1[I])), patterns=[o1[I]]), "hint visited only"),
            (FA([I, J], z3.Implies(And(0 <= I, I < J, J < o1.LEN), o1[I] != o1[J]), patterns=[MP(o1[I], o1[J])]), "hint each once"),
            (FA([X], z3.Implies(And(w.IN(X), w.POS(X) < lp.it), v1.IN(X)), patterns=[w.IN(X)]), "hint heads so far")]


def first_bad(cx):
    """natural numbers are well-ordered: if some node is missing from a list, one of least rank is"""
    g = cx.this
    ct = cx.eng.T.parse("std::vector<unsigned long>")
    r, m = z3.Const("r!wo", cx.eng.T.sort(ct)), z3.Function("least_missing", cx.eng.T.sort(ct), z3.IntSort())
    v = V(cx.eng, r, ct)
    k = rank(g)
    bad = lambda x: And(N(g, x), Not(listed(v, x)))
    b = g.back_edges_[m(r)]
    p = b.KEY(0)
    least = And(bad(m(r)), k(m(r)) <= k(X), b.LEN >= 0, z3.Implies(b.LEN > 0, b.IN(p)), z3.Implies(bad(p), k(m(r)) <= k(p)))
    return sets_ok(cx) + acyclic_def(cx, g.CT) + [pos_def(cx.eng, ct), z3.ForAll([r, X], z3.Implies(And(acyclic(g), bad(X)), least), patterns=[pos(v, X)])]


C.append(Contract(G + "topological_order_tails_first", P, requires=lambda cx: consistent(cx.this), ensures=tails_first_ens, loops=[tails_first_inv], opts={"axioms": first_bad, "paths": True}))


# ---------------------------------------------------------------- the DAG of instructions
from contract import pure_uf
from c11_graph import graph


def dag_ok(d):
    """every node has its instruction; labels still to be given are not nodes"""
    g = d.graph_
    return [("graph: " + l, f) for l, f in consistent(g)] + [("every node has an instruction", FA([X], z3.Implies(N(g, X), d.instructions_.IN(X)), patterns=[N(g, X), d.instructions_.IN(X)])),
            ("labels are below the next one", FA([X], z3.Implies(N(g, X), And(0 <= X, X < d.current_label_)), patterns=[N(g, X)]))]


def room(d, n=1):
    return [("labels do not run out", d.current_label_ + n < 2 ** 64)]


def others_kept(d0, d1, but):
    return ("other instructions kept", FA([X], z3.Implies(And(d0.instructions_.IN(X), Not(but(X))), And(d1.instructions_.IN(X), d1.instructions_[X] == d0.instructions_[X])), patterns=[d1.instructions_.IN(X), d0.instructions_.IN(X)]))


def commutes(cx, inst, a, b):
    return pure_uf(cx.eng, "lsqecc::dag::CommutationTrait<%s>::can_commute" % inst, z3.BoolSort(), a, b)


GI = (("this", "graph_"), ("this", "instructions_"), ("this", "current_label_"))


def iso_ens(cx):
    d0, d1, r = cx.this, cx.this2, cx.ret
    g0 = d0.graph_
    return [("next label", And(r == d0.current_label_, d1.current_label_ == d0.current_label_ + 1)), ("instruction stored", And(d1.instructions_.IN(r), d1.instructions_[r] == cx.a(0)))] \
        + graph(d1.graph_, lambda x: Or(N(g0, x), x == r), lambda x, y: edge(g0, x, y)) + [others_kept(d0, d1, lambda x: x == r)] + dag_ok(d1)


def push_ens(inst):
    def f(cx):
        d0, d1, r = cx.this, cx.this2, cx.ret
        g0, g1 = d0.graph_, d1.graph_
        new = lambda x, y: And(y == r, N(g0, x), Not(commutes(cx, inst, d0.instructions_[x], cx.a(0))))
        return [("next label", And(r == d0.current_label_, d1.current_label_ == d0.current_label_ + 1)), ("instruction stored", And(d1.instructions_.IN(r), d1.instructions_[r] == cx.a(0))),
                ("one more node", FA([X], N(g1, X) == Or(N(g0, X), X == r), patterns=[N(g1, X)])), ("edges are kept", FA([X, Y], z3.Implies(edge(g0, X, Y), E(g1, X, Y)), patterns=[E(g1, X, Y), E(g0, X, Y)])),
                ("only edges from earlier instructions that do not commute", FA([X, Y], z3.Implies(And(N(g1, X), E(g1, X, Y)), Or(edge(g0, X, Y), new(X, Y))), patterns=[E(g1, X, Y)])),
                ("all of them in an acyclic graph", Implies(acyclic(g0), FA([X], z3.Implies(And(N(g0, X), new(X, r)), E(g1, X, r)), patterns=[E(g1, X, r), N(g0, X)]))), ("stays acyclic", Implies(acyclic(g0), acyclic(g1))),
                others_kept(d0, d1, lambda x: x == r)] + dag_ok(d1)
    return f


def push_inv(inst):
    def f(lp):
        cx = lp.eng.topctx
        d1, d = cur_of(lp, "this"), entry_of(lp, "this")
        w = cx.wrap(lp.eng.load(lp.s0, lp.cont))
        g0, g1 = d.graph_, d1.graph_
        new = cx.this.current_label_
        e = lambda x, y: Or(edge(g0, x, y), And(y == new, x != new, listed(w, x), pos(w, x) < lp.it, Not(commutes(cx, inst, d.instructions_[x], d.instructions_[new]))))
        return [(f, l) for l, f in graph(g1, lambda x: N(g0, x), e)] + [(f, "hint " + l) for l, f in consistent(g1)]
    return f


def push_axioms(cx):
    d = cx.this
    g = d.graph_
    return [pos_def(cx.eng, cx.eng.T.parse("std::vector<unsigned long>"))] + acyclic_def(cx, g.CT, lambda x: z3.If(x == d.current_label_, top(g), rank(g)(x)), top(g) + 1)


for inst in ("lsqecc::LSInstruction", GATE):
    D = "lsqecc::dag::DependencyDag<%s>::" % inst
    C.append(Contract(D + "add_instruction_isolated", P, requires=lambda cx: dag_ok(cx.this) + room(cx.this), modifies=GI, ensures=iso_ens))
    C.append(Contract(D + "push_instruction_based_on_commutation", P, requires=lambda cx: dag_ok(cx.this) + room(cx.this), modifies=GI, ensures=push_ens(inst), loops=[push_inv(inst)],
                      opts={"paths": True, "axioms": push_axioms}))


LD = "lsqecc::dag::DependencyDag<lsqecc::LSInstruction>::"
A, B_ = z3.Int("a!prox"), z3.Int("b!prox")


def pair(s, a, b):
    """membership of a pair of labels"""
    ct = s.CT.args[0]
    s.E.T.sort(ct)
    return s.IN(ct.con[0](a, b))


def prox(d0, d1, deps, heads):
    p0, p1 = d0.proximate_dependencies_, d1.proximate_dependencies_
    return [("exactly the right proximity pairs", FA([A, B_], pair(p1, A, B_) == deps(A, B_), patterns=[pair(p1, A, B_)])),
            ("exactly the right must-run-next marks", FA([X], d1.proximate_heads_.IN(X) == heads(X), patterns=[d1.proximate_heads_.IN(X)]))]


def pop_ens(cx):
    d0, d1, t = cx.this, cx.this2, cx.a(0)
    g0, p0 = d0.graph_, d0.proximate_dependencies_
    moved = lambda a: And(edge(g0, a, t), pair(p0, a, t))
    return graph(d1.graph_, lambda x: And(N(g0, x), x != t), lambda x, y: And(edge(g0, x, y), x != t, y != t)) + [others_kept(d0, d1, lambda x: x == t)] \
        + prox(d0, d1, lambda a, b: And(pair(p0, a, b), Not(And(b == t, edge(g0, a, t)))), lambda x: And(x != t, Or(d0.proximate_heads_.IN(x), moved(x)))) + dag_ok(d1)


def pop_inv(lp):
    cx = lp.eng.topctx
    t = cx.a(0)
    d1, d = cur_of(lp, "this"), entry_of(lp, "this")
    w = d.graph_.back_edges_[t]
    p0 = d.proximate_dependencies_
    done = lambda a: And(edge(d.graph_, a, t), w.IN(a), w.POS(a) < lp.it)
    return [(f, "hint " + l) for l, f in prox(d, d1, lambda a, b: And(pair(p0, a, b), Not(And(b == t, done(a)))), lambda x: Or(d.proximate_heads_.IN(x), And(done(x), pair(p0, x, t))))]


C.append(Contract(LD + "pop_head", P, requires=lambda cx: dag_ok(cx.this), modifies=(("this",),), throws=lambda cx: Not(N(cx.this.graph_, cx.a(0))), exact_throw=True, ensures=pop_ens, loops=[pop_inv], opts={"paths": True}))
C.append(Contract(LD + "empty", P, inline=True, ensures=lambda cx: [("no node", cx.ret == (cx.this.graph_.edges_.LEN == 0))]))
C.append(Contract(LD + "make_proximate", P, modifies=(("this", "proximate_heads_"),), ensures=lambda cx: [("only that mark is added", FA([X], cx.this2.proximate_heads_.IN(X) == Or(cx.this.proximate_heads_.IN(X), X == cx.a(0)), patterns=[cx.this2.proximate_heads_.IN(X)]))]))


def in_order(cx, w):
    """the elements of the set w, in its order"""
    r = cx.ret
    return [("as many", r.LEN == w.LEN), ("in the set's order", FA([I], z3.Implies(And(0 <= I, I < r.LEN), r[I] == w.KEY(I)), patterns=[r[I]])), ("each of them", FA([X], z3.Implies(w.IN(X), And(w.POS(X) >= 0, w.POS(X) < r.LEN, r[w.POS(X)] == X)), patterns=[w.IN(X)]))]


def copy_inv(lp):
    w = lp.eng.topctx.wrap(lp.eng.load(lp.s0, lp.cont))
    for l in lp.locs:
        if l.h is not None and l.ct.kind == "vec":
            r = V(lp.eng, l.h, l.ct)
            return [(And(r.LEN == lp.it, FA([I], z3.Implies(And(0 <= I, I < lp.it), r[I] == w.KEY(I)), patterns=[r[I]])), "hint the first ones in order"),
                    (FA([X], z3.Implies(And(w.IN(X), w.POS(X) < lp.it), r[w.POS(X)] == X), patterns=[w.IN(X)]), "hint each where it stands")]
    return []


def applicable_ens(cx):
    g, r = cx.this.graph_, cx.ret
    return [("only nodes", FA([I], z3.Implies(And(0 <= I, I < r.LEN), N(g, r[I])), patterns=[r[I]])), ("nothing comes before them", FA([I, X], z3.Implies(And(0 <= I, I < r.LEN), Not(edge(g, X, r[I]))), patterns=[E(g, X, r[I])])),
            ("all of them", FA([X], z3.Implies(head(g, X), EX([I], And(0 <= I, I < r.LEN, r[I] == X), patterns=[r[I]])), patterns=[g.back_edges_[X].LEN]))]


C.append(Contract(LD + "applicable_instructions", P, requires=lambda cx: dag_ok(cx.this), ensures=applicable_ens, loops=[copy_inv]))
C.append(Contract(LD + "proximate_instructions", P, ensures=lambda cx: in_order(cx, cx.this.proximate_heads_), loops=[copy_inv]))

GP = (("this",),)


def exp_nodes(d0, t, x, n):
    return Or(And(N(d0.graph_, x), x != t), And(d0.current_label_ <= x, x < d0.current_label_ + n))


def exp_edges(d0, t, x, y, n):
    g, c = d0.graph_, d0.current_label_
    last = c + n - 1
    return Or(And(edge(g, x, y), x != t, y != t), And(x == last, y != t, edge(g, t, y)), And(y == c, x != t, edge(g, x, t)), And(x == last, y == c, edge(g, t, t)), And(c <= x, y == x + 1, y <= last))


def exp_pairs(base, t, first, last):
    """the pairs with the replaced label exchanged"""
    return lambda a, b: Or(And(base(a, b), a != t, b != t), And(a == last, b != t, base(t, b)), And(b == first, a != t, base(a, t)), And(a == last, b == first, base(t, t)))


def expand_ens(cx):
    d0, d1, t, rep = cx.this, cx.this2, cx.a(0), cx.a(1)
    c, n = d0.current_label_, rep.LEN
    last = c + n - 1
    p0 = d0.proximate_dependencies_
    base = lambda a, b: Or(pair(p0, a, b), And(cx.a(2), c <= a, b == a + 1, b <= last))
    return [("start of the replacement", cx.ret == c), ("next label", d1.current_label_ == c + n)] + graph(d1.graph_, lambda x: exp_nodes(d0, t, x, n), lambda x, y: exp_edges(d0, t, x, y, n)) \
        + [("replacement stored", FA([X], z3.Implies(And(c <= X, X < c + n), And(d1.instructions_.IN(X), d1.instructions_[X] == rep[X - c])), patterns=[d1.instructions_.IN(X)])), others_kept(d0, d1, lambda x: And(c <= x, x <= last))] \
        + prox(d0, d1, exp_pairs(base, t, c, last), lambda x: Or(And(d0.proximate_heads_.IN(x), x != t), And(x == c, Or(d0.proximate_heads_.IN(t), d0.proximate_heads_.IN(x))))) + dag_ok(d1)


def expand_inv(lp):
    cx = lp.eng.topctx
    t, rep, d0 = cx.a(0), cx.a(1), cx.this
    c, n = d0.current_label_, rep.LEN
    last = c + n - 1
    nl = ups = None
    for l in lp.locs:
        if l.h is not None and l.ct.kind == "vec" and l.name.split("#")[0] != "replacement":
            nl = V(lp.eng, l.h, l.ct)
        if l.h is not None and l.ct.kind == "set" and not l.name.startswith("this"):
            ups = V(lp.eng, l.h, l.ct)
    if nl is not None and changes(lp, "this"):
        d1, d = cur_of(lp, "this"), entry_of(lp, "this")
        return [(And(nl.LEN == lp.it, d1.current_label_ == c + lp.it, FA([I], z3.Implies(And(0 <= I, I < lp.it), nl[I] == c + I), patterns=[nl[I]])), "labels"),
                (FA([X], z3.Implies(And(c <= X, X < c + lp.it), nl[X - c] == X), patterns=[pos(nl, X)]), "where each label is"),
                (FA([X, Y], z3.Implies(And(c <= X, Y == X + 1, Y < c + lp.it), And(nl[X - c] == X, nl[X - c + 1] == Y)), patterns=[succ(nl, X, Y)]), "where each pair of labels is"),
                (FA([X], z3.Implies(And(c <= X, X < c + lp.it), And(d1.instructions_.IN(X), d1.instructions_[X] == rep[X - c])), patterns=[d1.instructions_.IN(X)]), "stored so far"),
                (others_kept(d, d1, lambda x: And(c <= x, x < c + lp.it))[1], "others kept")]
    if ups is not None:
        p0 = cx.wrap(lp.eng.load(lp.s0, lp.cont))
        done = lambda a, b: And(pair(p0, a, b), p0.POS(p0.CT.args[0].con[0](a, b)) < lp.it)
        e = exp_pairs(done, t, c, last)
        return [(FA([A, B_], pair(ups, A, B_) == e(A, B_), patterns=[pair(ups, A, B_)]), "hint pairs so far")]
    if changes(lp, "this"):
        d1, d = cur_of(lp, "this"), entry_of(lp, "this")
        p0, p1 = d.proximate_dependencies_, d1.proximate_dependencies_
        return [(l.h == lp.it, "index") for l in lp.locs if l.h is not None and l.ct.kind == "int"] + [(lp.it + 1 <= n, "in range"), (FA([A, B_], pair(p1, A, B_) == Or(pair(p0, A, B_), And(c <= A, B_ == A + 1, B_ <= c + lp.it)), patterns=[pair(p1, A, B_)]), "hint chain pairs so far")]
    return []


C.append(Contract(LD + "expand", P, requires=lambda cx: dag_ok(cx.this) + room(cx.this, cx.a(1).LEN), modifies=GP, throws=lambda cx: Or(cx.a(1).LEN == 0, Not(N(cx.this.graph_, cx.a(0)))), exact_throw=True, ensures=expand_ens, loops=[expand_inv],
                  opts={"paths": True, "axioms": lambda cx: [d(cx.eng, cx.eng.T.parse("std::vector<unsigned long>")) for d in (pos_def, succ_def)]}))
CONTRACTS = C
