"""C20: every cell of a slice is counted in exactly one category; statistics add up."""
from _common import *

C = []
P = ("C20",)
MOD = 2 ** 64


def category(cx, sl, r, c):
    """(unused, distillation, dead) of a cell"""
    o = at_rc(sl, r, c)
    lay = layout_of(sl)
    res = abstract(lay, "lsqecc::Layout::magic_states_reserved", "bool")
    dist = And(o.HAS, Or(o.VAL.type == pt(cx, "Distillation"), And(res, o.VAL.type == pt(cx, "PreparedState"))))
    return Not(o.HAS), dist, And(o.HAS, Not(dist), o.VAL.type == pt(cx, "Dead"))


NAMES = ("unused_routing_volume", "distillation_volume", "dead")


def counter(sl, k):
    """specification function: number of cells of category k before position (r, c) in reading order"""
    f = z3.Function("count_" + NAMES[k], sl.cells.T.sort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    return lambda r, c: f(sl.cells.T, r, c)


def axioms(cx):
    sl = cx.a(0)
    out = []
    r, c = z3.Int("r!cn"), z3.Int("c!cn")
    fc = furthest(layout_of(sl))
    for k in range(3):
        f = counter(sl, k)
        cat = category(cx, sl, r, c)[k]
        out.append(f(z3.IntVal(0), z3.IntVal(0)) == 0)
        out.append(FA([r, c], z3.Implies(in_rc(sl, r, c), f(r, c + 1) == f(r, c) + z3.If(cat, z3.IntVal(1), z3.IntVal(0))), patterns=[f(r, c)]))
        out.append(FA([r], z3.Implies(And(r >= 0, r < sl.cells.LEN), f(r + 1, z3.IntVal(0)) == f(r, fc.col + 1)), patterns=[f(r, z3.IntVal(0))]))
    # area(r) = r * (columns): products of numbers below 2^24 + 1 stay below 2^48 + 2^25
    ar = area(sl)
    out.append(ar(z3.IntVal(0)) == 0)
    out.append(ar(fc.row + 1) == (fc.row + 1) * (fc.col + 1))
    out.append(FA([r], z3.Implies(And(r >= 0, r <= fc.row), And(ar(r) >= 0, ar(r) <= 2 ** 49, ar(r + 1) == ar(r) + fc.col + 1, ar(r + 1) <= 2 ** 49)), patterns=[ar(r)]))
    out.append(And(ar(fc.row + 1) >= 0, ar(fc.row + 1) <= 2 ** 49))
    return out


def area(sl):
    f = z3.Function("area", sl.cells.T.sort(), z3.IntSort(), z3.IntSort())
    return lambda r: f(sl.cells.T, r)


def inv(lp):
    if "this" in lp.eng.toproots or 0 not in lp.eng.topctx.pre:
        return []
    cx = lp.eng.topctx
    sl = cx.a(0)
    if not hasattr(sl, "cells") or lp.cont is None:
        return []
    hs = {}
    for l in lp.locs:
        if l.h is not None:
            for k, n in enumerate(NAMES):
                if l.sub and l.sub[-1] == n or l.pre and l.pre[-1][-1] == n:
                    hs[k] = l.h
    if len(hs) != 3:
        return []
    steps = [x for x in lp.cont.path if x[0] == "i"]
    r, c = (steps[0][1], lp.it) if steps else (lp.it, z3.IntVal(0))
    out = [(hs[k] == counter(sl, k)(r, c), "hint count so far " + NAMES[k]) for k in range(3)]
    out += [(And(hs[0] + hs[1] + hs[2] <= area(sl)(r) + c, hs[0] >= 0, hs[1] >= 0, hs[2] >= 0), "hint at most one category per cell")]
    return out


def ens(cx):
    sl, v = cx.a(0), cx.ret
    fc = furthest(layout_of(sl))
    n = (fc.row + 1) * (fc.col + 1)
    out = [("volume is the number of cells", v.volume == n)]
    for k in range(3):
        out.append((NAMES[k] + " counts exactly its cells", v.F(NAMES[k]) == counter(sl, k)(fc.row + 1, z3.IntVal(0))))
    out.append(("the rest is not negative", v.unused_routing_volume + v.distillation_volume + v.dead <= v.volume))
    return out


C.append(Contract("lsqecc::compute_volume_counts", P, requires=lambda cx: slice_ok(cx.a(0)), ensures=ens, loops=[inv], opts={"axioms": axioms}))
C.append(Contract("lsqecc::operator+=", P, sig="VolumeCounts (VolumeCounts &, const VolumeCounts &)", inline=True, modifies=[(0,)],
                  ensures=lambda cx: [(n, And(cx.b(0).F(n) == (cx.a(0).F(n) + cx.a(1).F(n)) % MOD, cx.ret.F(n) == cx.b(0).F(n))) for n in NAMES + ("volume",)]))


CONTRACTS = C
