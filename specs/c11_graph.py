"""C11: the directed graph behind the dependency DAG: two mirrored adjacency maps."""
from _common import *
from c01_occupancy import cur_of, changes

C = []
P = ("C11",)
G = "lsqecc::dag::DirectedGraph::"
X, Y = z3.Int("x!g"), z3.Int("y!g")


def add(name, **k):
    C.append(Contract(G + name, k.pop("props", P), **k))


def N(g, x):
    return g.edges_.IN(x)


def E(g, x, y):
    return g.edges_[x].IN(y)


def Bk(g, x, y):
    return g.back_edges_[y].IN(x)


def edge(g, x, y):
    return And(N(g, x), E(g, x, y))


def consistent(g, tag=""):
    """successor and predecessor views describe the same edges over the same nodes"""
    return [("same nodes", FA([X], g.back_edges_.IN(X) == N(g, X), patterns=[g.back_edges_.IN(X), N(g, X)])),
            ("successors are mirrored", FA([X, Y], z3.Implies(edge(g, X, Y), And(N(g, Y), Bk(g, X, Y))), patterns=[E(g, X, Y)])),
            ("predecessors are mirrored", FA([X, Y], z3.Implies(And(N(g, Y), Bk(g, X, Y)), edge(g, X, Y)), patterns=[Bk(g, X, Y)]))]


def graph(g1, nodes, edges, g0=None):
    """g1 has exactly these nodes and edges"""
    return [("exactly the right nodes", FA([X], N(g1, X) == nodes(X), patterns=[N(g1, X)])),
            ("exactly the right edges", FA([X, Y], z3.Implies(N(g1, X), E(g1, X, Y) == edges(X, Y)), patterns=[E(g1, X, Y)] + ([E(g0, X, Y)] if g0 is not None else [])))]


def split_edges(cs):
    """the same, as two claims"""
    out = []
    for l, f in cs:
        if l == "exactly the right edges":
            imp = f.body().arg(1)
            sub = [z3.substitute_vars(x, Y, X) for x in (f.body().arg(0), imp.arg(0), imp.arg(1))]
            out += [("only the right edges", FA([X, Y], z3.Implies(And(sub[0], sub[1]), sub[2]), patterns=[sub[1]])), *[("all the right edges (%d)" % (i + 1), FA([X, Y], z3.Implies(And(sub[0], c), sub[1]), patterns=[sub[1]])) for i, c in enumerate(sub[2].children())]]
        else:
            out.append((l, f))
    return out


def same_graph(g0, g1):
    return graph(g1, lambda x: N(g0, x), lambda x, y: edge(g0, x, y))


def T(g):
    return g.this


GM = (("this", "edges_"), ("this", "back_edges_"))
req = lambda cx: consistent(cx.this)


def ens(nodes, edges):
    def f(cx):
        g0, g1 = cx.this, cx.this2
        return graph(g1, lambda x: nodes(cx, g0, x), lambda x, y: edges(cx, g0, x, y), g0) + consistent(g1)
    return f


add("add_node", requires=req, modifies=GM, ensures=ens(lambda cx, g, x: Or(N(g, x), x == cx.a(0)), lambda cx, g, x, y: edge(g, x, y)))
add("add_edge", requires=req, modifies=GM, ensures=ens(lambda cx, g, x: Or(N(g, x), x == cx.a(0), x == cx.a(1)), lambda cx, g, x, y: Or(edge(g, x, y), And(x == cx.a(0), y == cx.a(1)))))


def unchanged(cx):
    return [("graph as it was", cx.this == cx.this2)]


add("remove_edge", requires=req, modifies=GM, throws=lambda cx: Not(And(N(cx.this, cx.a(0)), N(cx.this, cx.a(1)))), exact_throw=True, on_throw=unchanged,
    ensures=ens(lambda cx, g, x: N(g, x), lambda cx, g, x, y: And(edge(g, x, y), Not(And(x == cx.a(0), y == cx.a(1))))))


def is_graph(lp):
    return "this" in lp.eng.topctx.pre


def _rn_inv(lp):
    """the edges listed so far are gone"""
    if not changes(lp, "this"):
        return []
    cx = lp.eng.topctx
    t = cx.a(0)
    g1, g0 = cur_of(lp, "this"), entry_of(lp, "this")
    so, si = g0.edges_[t], g0.back_edges_[t]
    out = []
    for nm, e in (("out", lambda x, y: And(edge(g0, x, y), Not(And(x == t, so.POS(y) < lp.it)))), ("in", lambda x, y: And(edge(g0, x, y), Not(And(y == t, si.POS(x) < lp.it))))):
        if _kind(lp.n) in (None, "drop " + nm):
            out += [(f, "%s: %s" % (nm, l)) for l, f in graph(g1, lambda x: N(g0, x), e)]
    return out + [(f, "hint " + l) for l, f in consistent(g1)]


def entry_of(lp, k):
    """value of a parameter when the loop is entered"""
    cx = lp.eng.topctx
    root = lp.eng.toproots[k]
    return cx.wrap(lp.eng.load(lp.s0, root))


add("remove_node", requires=req, modifies=GM, throws=lambda cx: Not(N(cx.this, cx.a(0))), exact_throw=True, on_throw=unchanged, loops=[_rn_inv], opts={"paths": True},
    ensures=ens(lambda cx, g, x: And(N(g, x), x != cx.a(0)), lambda cx, g, x, y: And(edge(g, x, y), x != cx.a(0), y != cx.a(0))))


def pos(r, x):
    """some index at which the list r has x, if there is one"""
    f = r.E.uf("index_in<%s>" % r.CT.key, r.T.sort(), z3.IntSort(), z3.IntSort())
    return f(r.T, x)


def succ(r, x, y):
    """some index (from 1) at which the list r has y right after x, if there is one"""
    f = r.E.uf("pair_in<%s>" % r.CT.key, r.T.sort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    return f(r.T, x, y)


def pos_def(eng, ct):
    r, i = z3.Const("r!pos", eng.T.sort(ct)), z3.Int("i!pos")
    v = V(eng, r, ct)
    p = pos(v, v[i])
    return z3.ForAll([r, i], z3.Implies(And(0 <= i, i < v.LEN), And(0 <= p, p < v.LEN, v[p] == v[i])), patterns=[v[i]])


def succ_def(eng, ct):
    r, i, j = z3.Const("r!pos", eng.T.sort(ct)), z3.Int("i!pos"), z3.Int("j!pos")
    v = V(eng, r, ct)
    q = succ(v, X, Y)
    return z3.ForAll([r, i, j, X, Y], z3.Implies(And(0 <= i, j == i + 1, j < v.LEN, v[i] == X, v[j] == Y), And(1 <= q, q < v.LEN, v[q - 1] == X, v[q] == Y)), patterns=[MP(q, v[i], v[j])])


def listed(r, x):
    return And(0 <= pos(r, x), pos(r, x) < r.LEN, r[pos(r, x)] == x)


def follows(r, x, y):
    p = succ(r, x, y)
    return And(1 <= p, p < r.LEN, r[p - 1] == x, r[p] == y)


J = z3.Int("j!ex")


def _chain_edges(rep, hi, x, y):
    """x and y follow each other in the replacement (second index at most hi)"""
    return EX([J], And(1 <= J, J <= hi, x == rep[J - 1], y == rep[J]), patterns=[MP(rep[J - 1], rep[J])])


def _in_rep(rep, hi, x):
    return EX([J], And(0 <= J, J <= hi, x == rep[J]), patterns=[rep[J]])


def _ex_nodes(cx, g, x):
    rep = cx.a(1)
    return Or(And(N(g, x), x != cx.a(0)), listed(rep, x))


def _ex_edges(cx, g, x, y):
    rep, t = cx.a(1), cx.a(0)
    front, back = rep[0], rep[rep.LEN - 1]
    old = And(edge(g, x, y), x != t, y != t)
    return Or(old, And(x == back, y != t, edge(g, t, y)), And(y == front, x != t, edge(g, x, t)), And(x == back, y == front, edge(g, t, t)), follows(rep, x, y))


def _ex_inv(lp):
    cx = lp.eng.topctx
    rep, t = cx.a(1), cx.a(0)
    out = []
    if not changes(lp, "this"):
        for l in lp.locs:
            if l.h is not None and l.ct.kind == "set":
                r, w = V(lp.eng, l.h, l.ct), cx.wrap(lp.eng.load(lp.s0, lp.cont))
                return [(FA([X], r.IN(X) == And(w.IN(X), w.POS(X) < lp.it), patterns=[r.IN(X)]), "hint those seen so far")]
        g0 = entry_of(lp, "this")
        return [(FA([J], z3.Implies(And(0 <= J, J < lp.it), Not(N(g0, rep[J]))), patterns=[rep[J]]), "the labels seen so far are new")]
    g1, g0 = cur_of(lp, "this"), entry_of(lp, "this")
    cons = [(f, "hint " + l) for l, f in consistent(g1)]
    if lp.cont is None:
        out = [(lp.it + 1 <= rep.LEN, "in range")] + [(l.h == lp.it + 1, "index") for l in lp.locs if l.h is not None and l.ct.kind == "int"]
        return out + [(f, "chain: " + l) for l, f in graph(g1, lambda x: Or(N(g0, x), _in_rep(rep, lp.it, x)), lambda x, y: Or(edge(g0, x, y), _chain_edges(rep, lp.it, x, y)), g0)] + cons
    w = cx.wrap(lp.eng.load(lp.s0, lp.cont))
    done = lambda x: And(w.IN(x), w.POS(x) < lp.it)
    front, back, kind = rep[0], rep[rep.LEN - 1], _kind(lp.n)
    out = [(f, l) for l, f in graph(g1, lambda x: N(g0, x), lambda x, y: False)][:1]
    for nm, e in (("drop out", lambda x, y: And(edge(g0, x, y), Not(And(x == t, done(y))))), ("drop in", lambda x, y: And(edge(g0, x, y), Not(And(y == t, done(x))))),
                  ("add out", lambda x, y: Or(edge(g0, x, y), And(x == back, done(y)))), ("add in", lambda x, y: Or(edge(g0, x, y), And(y == front, done(x))))):
        if kind is not None and nm != kind:
            continue  # only to save time: candidates that do not hold are dropped
        out += [(f, "%s: %s" % (nm, l)) for l, f in graph(g1, lambda x: N(g0, x), e, g0)[1:]]
    return out + cons


def _kind(n):
    """which of the four loops this is, as far as its text shows"""
    if not isinstance(n, dict):
        return None
    if n.get("kind") == "CXXMemberCallExpr" and n["inner"][0].get("name") in ("remove_edge", "add_edge") and len(n["inner"]) == 3:
        a = n["inner"][1]
        while a.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            a = a["inner"][0]
        first = a.get("kind") == "DeclRefExpr" and a.get("referencedDecl", {}).get("kind") == "VarDecl"
        return ("drop " if n["inner"][0]["name"] == "remove_edge" else "add ") + ("in" if first else "out")
    for c in n.get("inner", ()):
        k = _kind(c)
        if k:
            return k
    return None


def lists_set(cx, w):
    """the elements of the set w, each once, in the set's order"""
    i, j = z3.Int("i!ls"), z3.Int("j!ls")
    r = cx.ret
    return [("as many", r.LEN == w.LEN), ("in the set's order", FA([i], z3.Implies(And(0 <= i, i < r.LEN), r[i] == w.KEY(i)), patterns=[r[i]])),
            ("only those", FA([i], z3.Implies(And(0 <= i, i < r.LEN), w.IN(r[i])), patterns=[r[i]])), ("each of them", FA([X], z3.Implies(w.IN(X), And(w.POS(X) >= 0, w.POS(X) < r.LEN, r[w.POS(X)] == X)), patterns=[w.IN(X)])),
            ("each once", FA([i, j], z3.Implies(And(0 <= i, i < j, j < r.LEN), r[i] != r[j]), patterns=[MP(r[i], r[j])]))]


def _list_inv(which):
    def f(lp):
        cx = lp.eng.topctx
        w = which(cx)
        i = z3.Int("i!li")
        for l in lp.locs:
            if l.h is not None and l.ct.kind == "vec":
                r = V(lp.eng, l.h, l.ct)
                return [(And(r.LEN == lp.it, FA([i], z3.Implies(And(0 <= i, i < lp.it), r[i] == w.KEY(i)), patterns=[r[i]])), "hint the first ones in order")]
        return []
    return f


for nm, which in (("successors", lambda cx: cx.this.edges_[cx.a(0)]), ("predecessors", lambda cx: cx.this.back_edges_[cx.a(0)])):
    add(nm, requires=req, throws=lambda cx: Not(N(cx.this, cx.a(0))), exact_throw=True, loops=[_list_inv(which)], ensures=lambda cx, which=which: lists_set(cx, which(cx)))


def sets_ok(cx):
    """a set that has an element has a positive size (library fact, here for the sets inside the two maps)"""
    g = cx.this
    return [FA([X, Y], z3.Implies(r[X].IN(Y), r[X].LEN >= 1), patterns=[r[X].IN(Y)]) for r in (g.edges_, g.back_edges_)]


def ends(rel):
    def ens_(cx):
        g, r = cx.this, cx.ret
        return [("only nodes", FA([X], z3.Implies(r.IN(X), N(g, X)), patterns=[r.IN(X)])), ("without such edges", FA([X, Y], z3.Implies(r.IN(X), Not(rel(g, X).IN(Y))), patterns=[MP(r.IN(X), rel(g, X).IN(Y))])),
                ("all of them", FA([X], z3.Implies(And(N(g, X), rel(g, X).LEN == 0), r.IN(X)), patterns=[r.IN(X), rel(g, X).LEN]))]

    def inv(lp):
        cx = lp.eng.topctx
        g = cx.this
        for l in lp.locs:
            if l.h is not None and l.ct.kind == "set":
                r = V(lp.eng, l.h, l.ct)
                return [(FA([X], r.IN(X) == And(N(g, X), g.edges_.POS(X) < lp.it, rel(g, X).LEN == 0), patterns=[r.IN(X)]), "hint those seen so far")]
        return []
    return ens_, inv


for nm, rel in (("heads", lambda g, x: g.back_edges_[x]), ("tails", lambda g, x: g.edges_[x])):
    e_, i_ = ends(rel)
    add(nm, requires=req, ensures=e_, loops=[i_], opts={"axioms": sets_ok})
add("expand", requires=lambda cx: consistent(cx.this), modifies=GM, loops=[_ex_inv], opts={"paths": True, "axioms": lambda cx: [pos_def(cx.eng, cx.a(1).CT), succ_def(cx.eng, cx.a(1).CT)]}, exact_throw=True, on_throw=unchanged,
    throws=lambda cx: Or(Not(N(cx.this, cx.a(0))), cx.a(1).LEN == 0, EX([J], And(0 <= J, J < cx.a(1).LEN, N(cx.this, cx.a(1)[J])), patterns=[cx.a(1)[J]])), ensures=lambda cx: split_edges(ens(_ex_nodes, _ex_edges)(cx)))
add("empty", inline=True, ensures=lambda cx: [("no node", cx.ret == (cx.this.edges_.LEN == 0))])
CONTRACTS = C
