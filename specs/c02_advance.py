"""C02, C03: advancing a slice ends the one-step operations; magic-state clocks and production."""
from _common import *
from c01_occupancy import cur_of
C = []
P = ("C02", "C03")
LAY = "lsqecc::Layout::"
CELLS = "std::vector<lsqecc::Cell>"
TIMES = "std::vector<lsqecc::SurfaceCodeTimestep>"
CLK = "time_to_next_magic_state_by_distillation_region"


def lists(lay):
    return dict(reserved=abstract(lay, LAY + "reserved_for_magic_states", CELLS), times=abstract(lay, LAY + "distillation_times", TIMES),
                mode=abstract(lay, LAY + "magic_states_reserved", "bool"), outs=lambda i: abstract(lay, LAY + "distilled_state_locations", CELLS, i))


# ---------------------------------------------------------------- one cell, before anything is produced
def ended(cx, o):
    return And(o.HAS, Or(o.VAL.activity == pa(cx, "Measurement"), o.VAL.activity == pa(cx, "MultiPatchMeasurement")))


def stepped(cx, o, n):
    """n is what one time step leaves of o (patches under measurement excluded)"""
    a, b = o.VAL, n.VAL
    act = Ite(a.activity == pa(cx, "Unitary"), pa(cx, "None"), Ite(a.activity == pa(cx, "EDPC"), pa(cx, "Reserved"), a.activity))
    keep = Or(act == pa(cx, "Rotation"), act == pa(cx, "Reserved"))
    out = [n.HAS, b.type == a.type, b.activity == act, b.id == a.id, b.label == a.label, b.operation_id == a.operation_id]
    for s, _, _ in SIDES:
        x, y = a.boundaries.F(s), b.boundaries.F(s)
        out += [y.boundary_type == x.boundary_type, y.is_active == And(keep, x.is_active)]
    return And(*out)


def adv(cx, o, n):
    return Ite(Or(Not(o.HAS), ended(cx, o)), Not(n.HAS), stepped(cx, o, n))


def gone(cx, o):
    return Or(Not(o.HAS), ended(cx, o))


def prepared(cx, n):
    """a fresh magic state"""
    b = n.VAL
    out = [n.HAS, b.type == pt(cx, "PreparedState"), b.activity == pa(cx, "None"), Not(b.id.HAS), Not(b.operation_id.HAS)]
    for s, _, _ in SIDES:
        out += [b.boundaries.F(s).boundary_type == bt(cx, "Smooth" if s in ("top", "bottom") else "Rough"), Not(b.boundaries.F(s).is_active)]
    return And(*out)


def distilling(cx, n):
    b = n.VAL
    out = [n.HAS, b.type == pt(cx, "Distillation"), b.activity == pa(cx, "Distillation"), Not(b.id.HAS), Not(b.label.HAS), Not(b.operation_id.HAS)]
    for s, _, _ in SIDES:
        out += [b.boundaries.F(s).boundary_type == bt(cx, "Connected"), Not(b.boundaries.F(s).is_active)]
    return And(*out)


# ---------------------------------------------------------------- requirements on slice and layout
def sane(cx):
    s, lay = cx.a(0), cx.a(1)
    L = lists(lay)
    clk, t, res = s.F(CLK), L["times"], L["reserved"]
    i, j, k = z3.Int("i!sn"), z3.Int("j!sn"), z3.Int("k!sn")
    rng = lambda x, n: And(0 <= x, x < n)
    return slice_ok(s) + [
        ("a time for every clock", And(t.LEN == clk.LEN, Implies(L["mode"], clk.LEN == res.LEN))),
        ("times are positive", FA([i], z3.Implies(rng(i, t.LEN), t[i] >= 1), patterns=[t[i]])),
        ("factory clocks are positive", Implies(Not(L["mode"]), FA([i], z3.Implies(rng(i, clk.LEN), clk[i] >= 1), patterns=[clk[i]]))),
        ("reserved cells lie in the grid", FA([i], z3.Implies(rng(i, res.LEN), inside(s, res[i])), patterns=[res[i].T])),
        ("reserved cells are distinct", FA([i, j], z3.Implies(And(rng(i, res.LEN), rng(j, res.LEN), res[i].T == res[j].T), i == j), patterns=[MP(res[i].T, res[j].T)])),
        ("a distilling reserved cell has time left", Implies(L["mode"], FA([i], z3.Implies(And(rng(i, res.LEN), at(s, res[i]).HAS, at(s, res[i]).VAL.type == pt(cx, "Distillation")), clk[i] >= 1), patterns=[clk[i]]))),
        ("output cells lie in the grid", FA([i, k], z3.Implies(And(rng(i, clk.LEN), rng(k, L["outs"](i).LEN)), inside(s, L["outs"](i)[k])), patterns=[L["outs"](i)[k].T]))]


# ---------------------------------------------------------------- loops
def is_traverse(lp):
    steps = []
    if lp.cont is None:
        return None
    ct = lp.eng.lvct(lp.s0, lp.cont)
    if ct.kind != "vec":
        return None
    e = ct.elem
    if e.kind == "vec" or e.kind == "opt":
        st = [x for x in lp.cont.path if x[0] == "i"]
        return (st[0][1], lp.it) if st else (lp.it, z3.IntVal(0))
    return None


def inv_traverse(lp):
    cx = lp.eng.topctx
    rc = is_traverse(lp)
    if rc is None:
        return []
    s0, s1 = cx.a(0), cur_of(lp, 0)
    R, K = rc
    r, c = z3.Int("r!tv"), z3.Int("c!tv")
    o0, o1 = at_rc(s0, r, c), at_rc(s1, r, c)
    done = Or(r < R, And(r == R, c < K))
    return [(And(same_shape(s0, s1), FA([r, c], z3.Implies(in_rc(s0, r, c), Ite(done, adv(cx, o0, o1), o1.T == o0.T)), patterns=[o1.T])), "hint cells so far")]


def reserved_rel(cx, s0, s1, L, n, whole):
    """what the first n reserved cells became; everything else merely advanced"""
    res, t = L["reserved"], L["times"]
    c0, c1 = s0.F(CLK), s1.F(CLK)
    i, r, c = z3.Int("i!rs"), z3.Int("r!rs"), z3.Int("c!rs")
    k = z3.Const("k!rs", res[0].T.sort())
    o0, o1 = at(s0, res[i]), at(s1, res[i])
    dist = And(o0.HAS, Not(ended(cx, o0)), o0.VAL.type == pt(cx, "Distillation"))
    one = Ite(gone(cx, o0), And(distilling(cx, o1), c1[i] == t[i]), Ite(dist, And(c1[i] == c0[i] - 1, Ite(c1[i] == 0, prepared(cx, o1), stepped(cx, o0, o1))), And(c1[i] == c0[i], stepped(cx, o0, o1))))
    q0, q1 = at_rc(s0, r, c), at_rc(s1, r, c)
    here = EX([i], And(0 <= i, i < n, res[i].row == r, res[i].col == c), patterns=[res[i].T])
    m0, m1 = s0.magic_states, s1.magic_states
    V_ = lambda x: V(s0.E, x, res[0].CT)
    new = EX([i], And(0 <= i, i < n, res[i].T == k, dist, c1[i] == 0), patterns=[res[i].T])
    return [("reserved cells restart, count down and finish", FA([i], z3.Implies(And(0 <= i, i < n), one), patterns=[res[i].T, c1[i]])),
            ("reserved: no other clock", And(c1.LEN == c0.LEN, FA([i], z3.Implies(And(n <= i, i < c0.LEN), c1[i] == c0[i]), patterns=[c1[i]]))),
            ("reserved: no other cell", And(same_shape(s0, s1), FA([r, c], z3.Implies(in_rc(s0, r, c), Or(adv(cx, q0, q1), here)), patterns=[q1.T]))),
            ("reserved: recorded exactly those finished", FA([k], m1.IN(V_(k)) == Or(m0.IN(V_(k)), new), patterns=[m1.IN(V_(k))]))]


def due(c0, i):
    return c0[i] == 1


def counted(c0):
    """specification function: number of clocks among the first n that reach zero"""
    f = z3.Function("due_count", c0.T.sort(), z3.IntSort(), z3.IntSort())
    return lambda n: f(c0.T, n)


def axioms(cx):
    c0 = cx.a(0).F(CLK)
    f = counted(c0)
    i = z3.Int("i!du")
    return [f(z3.IntVal(0)) == 0, FA([i], z3.Implies(And(0 <= i, i < c0.LEN), f(i + 1) == f(i) + Ite(due(c0, i), z3.IntVal(1), z3.IntVal(0))), patterns=[f(i)])]


def factory_rel(cx, s0, s1, L, n):
    t, outs = L["times"], L["outs"]
    c0, c1 = s0.F(CLK), s1.F(CLK)
    i, k, j, r, c = [z3.Int(x + "!fa") for x in "ikjrc"]
    q0, q1 = at_rc(s0, r, c), at_rc(s1, r, c)
    m0, m1 = s0.magic_states, s1.magic_states
    mine = lambda i, k: at(s1, outs(i)[k])
    fresh = lambda i, k: And(gone(cx, at(s0, outs(i)[k])), prepared(cx, mine(i, k)))
    # some due factory put a state here, and every earlier output cell of that factory is occupied
    src = EX([i, k], And(0 <= i, i < n, due(c0, i), 0 <= k, k < outs(i).LEN, outs(i)[k].row == r, outs(i)[k].col == c,
                                z3.ForAll([j], z3.Implies(And(0 <= j, j < k), mine(i, j).HAS), patterns=[outs(i)[j].T])), patterns=[outs(i)[k].T])
    x = z3.Const("x!fa", outs(z3.IntVal(0))[0].T.sort())
    X = V(s0.E, x, outs(z3.IntVal(0))[0].CT)
    f = counted(c0)
    return [("clocks go down by one and restart", And(c1.LEN == c0.LEN, FA([i], z3.Implies(And(0 <= i, i < n), c1[i] == Ite(due(c0, i), t[i], c0[i] - 1)), patterns=[c1[i]]))),
            ("factories: later clocks untouched", FA([i], z3.Implies(And(n <= i, i < c0.LEN), c1[i] == c0[i]), patterns=[c1[i]])),
            ("every other cell merely advances; a new state is prepared, on a free output cell of a due factory", And(same_shape(s0, s1),
                FA([r, c], z3.Implies(in_rc(s0, r, c), Or(adv(cx, q0, q1), And(gone(cx, q0), prepared(cx, q1), src))), patterns=[q1.T]))),
            ("a due factory delivers, or none of its output cells is free", FA([i], z3.Implies(And(0 <= i, i < n, due(c0, i)), z3.Or(
                EX([k], And(0 <= k, k < outs(i).LEN, fresh(i, k), m1.IN(outs(i)[k])), patterns=[outs(i)[k].T]),
                z3.ForAll([k], z3.Implies(And(0 <= k, k < outs(i).LEN), mine(i, k).HAS), patterns=[outs(i)[k].T]))), patterns=[outs(i).T])),
            ("recorded exactly the new ones", FA([x], m1.IN(X) == Or(m0.IN(X), And(inside(s0, X), gone(cx, at(s0, X)), at(s1, X).HAS)), patterns=[m1.IN(X)])),
            ("at most one per due factory", m1.LEN <= m0.LEN + f(n))]


def inv_clocks(lp):
    cx = lp.eng.topctx
    if is_traverse(lp) is not None or lp.cont is None:
        return []
    s0, s1 = cx.a(0), cur_of(lp, 0)
    L = lists(cx.a(1))
    ct = lp.eng.lvct(lp.s0, lp.cont)
    if ct.kind != "vec":
        return []
    if ct.elem.kind == "rec":
        idx = [l for l in lp.locs if l.h is not None and l.ct is not None and l.ct.kind == "int" and l.name and "index" in l.name]
        return [(g, "hint " + n) for n, g in reserved_rel(cx, s0, s1, L, lp.it, False)] + [(l.h == lp.it, "index") for l in idx]
    idx = [l for l in lp.locs if l.h is not None and l.ct is not None and l.ct.kind == "int" and l.name and "index" in l.name]
    return [(g, "hint " + n) for n, g in factory_rel(cx, s0, s1, L, lp.it)] + [(l.h == lp.it, "index") for l in idx]


def ens(cx):
    s0, s1 = cx.a(0), cx.b(0)
    L = lists(cx.a(1))
    res, outs = L["reserved"], L["outs"]
    mode = L["mode"]
    out = [("no crossing remains", s1.EDPC_crossing_vertices.LEN == 0), ("shape", same_shape(s0, s1)),
           ("the rest", And(s1.predistilled_ystates_available == s0.predistilled_ystates_available, s1.layout.T == s0.layout.T))]
    out += [(n, Implies(mode, g)) for n, g in reserved_rel(cx, s0, s1, L, res.LEN, True)]
    out += [(n, Implies(Not(mode), g)) for n, g in factory_rel(cx, s0, s1, L, s0.F(CLK).LEN)]
    i = z3.Int("i!nw")
    c1 = s1.F(CLK)
    out += [("no clock is left at zero or wraps", And(Implies(Not(mode), FA([i], z3.Implies(And(0 <= i, i < c1.LEN), c1[i] >= 1), patterns=[c1[i]])),
                                                    Implies(mode, FA([i], z3.Implies(And(0 <= i, i < res.LEN, at(s1, res[i]).HAS, at(s1, res[i]).VAL.type == pt(cx, "Distillation")), c1[i] >= 1), patterns=[c1[i]]))))]
    return out


C.append(Contract("lsqecc::advance_slice", P, requires=sane, ensures=ens, modifies=[(0, "cells"), (0, CLK), (0, "magic_states"), (0, "EDPC_crossing_vertices")],
                  loops=[inv_traverse, inv_clocks], opts={"axioms": axioms, "paths": True}))


# ---------------------------------------------------------------- finding a place
def _fp(cx):
    s, lay, d = cx.a(0), cx.a(1), cx.a(2)
    o = lists(lay)["outs"](d)
    k, j = z3.Int("k!fp"), z3.Int("j!fp")
    return [("the first free output cell", Implies(cx.ret.HAS, EX([k], And(0 <= k, k < o.LEN, o[k].T == cx.ret.VAL.T, Not(at(s, o[k]).HAS),
                                                   z3.ForAll([j], z3.Implies(And(0 <= j, j < k), at(s, o[j]).HAS), patterns=[o[j].T])), patterns=[o[k].T]))),
            ("none only if all are occupied", Implies(Not(cx.ret.HAS), FA([k], z3.Implies(And(0 <= k, k < o.LEN), at(s, o[k]).HAS), patterns=[o[k].T])))]


def _fp_inv(lp):
    cx = lp.eng.topctx
    o = lists(cx.a(1))["outs"](cx.a(2))
    k = z3.Int("k!fi")
    return [(FA([k], z3.Implies(And(0 <= k, k < lp.it), at(cx.a(0), o[k]).HAS), patterns=[o[k].T]), "occupied so far")]


def _fp_req(cx):
    s = cx.a(0)
    o = lists(cx.a(1))["outs"](cx.a(2))
    k = z3.Int("k!fr")
    return slice_ok(s) + [("output cells lie in the grid", FA([k], z3.Implies(And(0 <= k, k < o.LEN), inside(s, o[k])), patterns=[o[k].T]))]


C.append(Contract("lsqecc::find_place_for_magic_state", ("C03",), requires=_fp_req, ensures=_fp, loops=[_fp_inv]))
CONTRACTS = C
