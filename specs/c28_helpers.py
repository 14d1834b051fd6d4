"""C28: set and queue helpers (the text helpers are searched with the replay driver only: their iterators walk over characters)."""
from _common import *

C = []
P = ("C28",)


def member(f):
    def ens(cx):
        k = z3.Const("k!set", z3.IntSort())
        a, b, r = cx.a(0), cx.a(1), cx.ret
        return [("exactly the right elements", FA([k], r.IN(k) == f(a.IN(k), b.IN(k)), patterns=[r.IN(k), a.IN(k), b.IN(k)]))]
    return ens


def common(cx):
    k = z3.Const("k!set", z3.IntSort())
    a, b, r = cx.a(0), cx.a(1), cx.ret
    return [("only common elements", FA([k], z3.Implies(r.IN(k), And(a.IN(k), b.IN(k))), patterns=[r.IN(k)])),
            ("every common element", FA([k], z3.Implies(And(a.IN(k), b.IN(k)), r.IN(k)), patterns=[r.IN(k), a.IN(k), b.IN(k)]))]


def common_inv(lp):
    cx = lp.eng.topctx
    a, b = cx.a(0), cx.a(1)
    k, i = z3.Int("k!si"), z3.Int("i!si")
    for l in lp.locs:
        if l.h is not None and l.ct.kind == "set":
            r = V(lp.eng, l.h, l.ct)
            return [(FA([k], z3.Implies(r.IN(k), And(a.IN(k), b.IN(k))), patterns=[r.IN(k)]), "hint only common elements"),
                    (FA([k], z3.Implies(And(a.IN(k), b.IN(k), a.POS(k) < lp.it), r.IN(k)), patterns=[r.IN(k)]), "hint the common elements so far")]
    return []


C.append(Contract("lstk::set_intersection", P, ensures=common, loops=[common_inv]))
C.append(Contract("lstk::set_union", P, ensures=member(lambda a, b: Or(a, b))))


def shifted(q, q2, k, n):
    """q2 is q without its first k elements"""
    i = z3.Int("i!q")
    return And(q2.LEN == q.LEN - k, FA([i], z3.Implies(z3.And(0 <= i, i < q.LEN - k), q2[i] == q[i + k] if not isinstance(q2[i], V) else q2[i].T == q[i + k].T), patterns=[(q2[i].T if isinstance(q2[i], V) else q2[i])]))


def tt(x):
    return x.T if isinstance(x, V) else x


for q in ("lstk::queue_pop", "lstk::deque_pop"):
    C.append(Contract(q, P, requires=lambda cx: [("not empty", cx.a(0).LEN > 0)], modifies=[(0,)], inline=True,
                      ensures=lambda cx: [("the front element", tt(cx.ret) == tt(cx.a(0)[0])), ("the rest keeps its order", shifted(cx.a(0), cx.b(0), 1, 0))]))


def ext(cx):
    t, s, t2, s2 = cx.a(0), cx.a(1), cx.b(0), cx.b(1)
    i = z3.Int("i!x")
    return [("nothing lost", t2.LEN == t.LEN + s.LEN), ("source emptied", s2.LEN == 0),
            ("first the old elements", FA([i], z3.Implies(z3.And(0 <= i, i < t.LEN), tt(t2[i]) == tt(t[i])), patterns=[tt(t2[i])])),
            ("then the new ones in order", FA([i], z3.Implies(z3.And(0 <= i, i < s.LEN), tt(t2[t.LEN + i]) == tt(s[i])), patterns=[tt(s[i])]))]


def ext_inv(lp):
    cx = lp.eng.topctx
    t, s = cx.a(0), cx.a(1)
    out = []
    cur = {}
    for l in lp.locs:
        for k in (0, 1):
            if l.h is not None and l.root == lp.eng.toproots[k].root and not l.pre:
                cur[k] = V(lp.eng, l.h, l.ct)
    if len(cur) != 2:
        return []
    t2, s2 = cur[0], cur[1]
    i = z3.Int("i!xi")
    return [(And(s2.LEN >= 0, s2.LEN <= s.LEN, t2.LEN == t.LEN + s.LEN - s2.LEN), "hint lengths"),
            (FA([i], z3.Implies(z3.And(0 <= i, i < s2.LEN), tt(s2[i]) == tt(s[s.LEN - s2.LEN + i])), patterns=[tt(s2[i])]), "hint rest of the source"),
            (FA([i], z3.Implies(z3.And(0 <= i, i < t.LEN), tt(t2[i]) == tt(t[i])), patterns=[tt(t2[i])]), "hint old elements"),
            (FA([i], z3.Implies(z3.And(0 <= i, i < s.LEN - s2.LEN), tt(t2[t.LEN + i]) == tt(s[i])), patterns=[tt(s[i])]), "hint moved elements")]


C.append(Contract("lstk::queue_extend", P, modifies=[(0,), (1,)], ensures=ext, loops=[ext_inv]))


def vext(cx):
    t, s, t2 = cx.a(0), cx.a(1), cx.b(0)
    i = z3.Int("i!x")
    return [("nothing lost", t2.LEN == t.LEN + s.LEN),
            ("first the old elements", FA([i], z3.Implies(z3.And(0 <= i, i < t.LEN), tt(t2[i]) == tt(t[i])), patterns=[tt(t2[i])])),
            ("then the new ones in order", FA([i], z3.Implies(z3.And(0 <= i, i < s.LEN), tt(t2[t.LEN + i]) == tt(s[i])), patterns=[tt(s[i])]))]


C.append(Contract("lstk::vector_extend", P, modifies=[(0,)], ensures=vext))
CONTRACTS = C
