"""C05: joint measurement of two patches: guard, end boundaries, claimed cells, operation ids."""
from _common import *
from c01_occupancy import has_id, uniq, cur_of, changes
from c07_rotation_patch import claimed, marked, distinct, cells_inside, rng
from c08_local import dense_active, same_identity

C = []
P = ("C05",)
COUNTER = "lsqecc::multi_body_measurement_op_id_counter"


def add(qual, **k):
    C.append(Contract(qual, k.pop("props", P), **k))


def toward(sides, me, other):
    return [(s, cell_is(other, me.row + dr, me.col + dc)) for s, dr, dc in sides]


class RC:
    """a cell given by its coordinates"""

    def __init__(self, r, c):
        self.row, self.col = r, c


def pick(b, x, y):
    """cell x if b else y"""
    return RC(Ite(b, x.row, y.row), Ite(b, x.col, y.col))


def turned_on(o0, o1, me, facing):
    """o1 is o0 with the boundaries towards the given (condition, cell) pairs active"""
    a, b = o0.VAL, o1.VAL
    out = [o1.HAS, same_identity(a, b), b.activity == a.activity]
    for s, dr, dc in SIDES:
        x, y = a.boundaries.F(s), b.boundaries.F(s)
        on = Or(*[And(g, cell_is(c, me.row + dr, me.col + dc)) for g, c in facing])
        out += [y.boundary_type == x.boundary_type, y.is_active == Or(x.is_active, on)]
    return And(*out)


# ---------------------------------------------------------------- end boundaries
def _st_req(cx):
    s, a, b, w = cx.a(0), cx.a(1), cx.a(2), cx.a(3).cells
    last, first = w[w.LEN - 1].cell, w[0].cell
    return slice_ok(s) + [("both in the grid", And(inside(s, a), inside(s, b))), ("both hold a patch", And(at(s, a).HAS, at(s, b).HAS)),
                          ("neighbours, or next to the ends of the route", Ite(w.LEN == 0, adjacent(a, b), And(adjacent(a, last), adjacent(b, first))))]


def _st_ens(cx):
    s0, s1, a, b, w = cx.a(0), cx.b(0), cx.a(1), cx.a(2), cx.a(3).cells
    z = w.LEN == 0
    fa, fb = pick(z, b, w[w.LEN - 1].cell), pick(z, a, w[0].cell)
    same = same_cell(a, b)
    T = z3.BoolVal(True)
    return [("source side", turned_on(at(s0, a), at(s1, a), a, [(T, fa), (same, fb)])), ("target side", turned_on(at(s0, b), at(s1, b), b, [(T, fb), (same, fa)])),
            ("no other cell", cells_same_except(s0, s1, a, b)), ("nothing else of the slice", rest_same(s0, s1, "cells")), ("route as given", cx.b(3) == cx.a(3))]


add("lsqecc::stitch_boundaries", requires=_st_req, ensures=_st_ens, modifies=[(0, "cells")])


# ---------------------------------------------------------------- merge
def route(cx, r=None, s=None, args=None):
    r, s = r or cx.a(1), s or cx.a(0)
    args = args or [cx.a(i) for i in (2, 3, 4, 5)]
    return abstract(r, "lsqecc::Router::find_routing_ancilla", "std::optional<lsqecc::RoutingRegion>", s, *args)


def route_ok(s, ans, src, tgt):
    """a returned route lies in the grid, names no operation, and joins the two patches"""
    w = ans.VAL.cells
    i = z3.Int("i!ro")
    r, c, r2, c2 = [z3.Int(n + "!ro") for n in ("r", "c", "r2", "c2")]
    o, o2 = at_rc(s, r, c), at_rc(s, r2, c2)
    last, first = w[w.LEN - 1].cell, w[0].cell
    return Implies(ans.HAS, And(w.LEN >= 0, Not(ans.VAL.routing_region_id.HAS), FA([i], z3.Implies(rng(i, w.LEN), inside(s, w[i].cell)), patterns=[w[i].T]),
                                Implies(w.LEN > 0, And(FA([r, c], z3.Implies(And(in_rc(s, r, c), has_id(o, src)), adjacent(RC(r, c), last)), patterns=[o.T]),
                                                       FA([r, c], z3.Implies(And(in_rc(s, r, c), has_id(o, tgt)), adjacent(RC(r, c), first)), patterns=[o.T]))),
                                Implies(w.LEN == 0, FA([r, c, r2, c2], z3.Implies(And(in_rc(s, r, c), in_rc(s, r2, c2), has_id(o, src), has_id(o2, tgt)), adjacent(RC(r, c), RC(r2, c2))),
                                                       patterns=[MP(o.T, o2.T)]))))


def present(s, k):
    r, c = z3.Int("r!pr"), z3.Int("c!pr")
    return EX([r, c], And(in_rc(s, r, c), has_id(at_rc(s, r, c), k)), patterns=[at_rc(s, r, c).T])


def some_active(cx, s, k):
    r, c = z3.Int("r!ac"), z3.Int("c!ac")
    o = at_rc(s, r, c)
    return EX([r, c], And(in_rc(s, r, c), has_id(o, k), dense_active(cx, o.VAL)), patterns=[o.T])


def merged(cx, s0, s1, w, src, tgt, op):
    """what an accepted merge over route w does"""
    i, r, c, r2, c2 = [z3.Int(n + "!mg") for n in ("i", "r", "c", "r2", "c2")]
    o0, o1, p0 = at_rc(s0, r, c), at_rc(s1, r, c), at_rc(s0, r2, c2)
    n, last, first = w.LEN, w[w.LEN - 1].cell, w[0].cell
    here = EX([i], And(0 <= i, i < n, w[i].cell.row == r, w[i].cell.col == c), patterns=[w[i].T])
    me, him = RC(r, c), RC(r2, c2)
    both = And(r == r2, c == c2)
    fs, ft = pick(n == 0, him, last), pick(n == 0, me, first)      # what source and target face
    gs, gt = pick(n == 0, him, first), pick(n == 0, me, last)
    tr = z3.BoolVal(True)
    ends = lambda a, b: And(in_rc(s0, r, c), in_rc(s0, r2, c2), has_id(o0, a), has_id(p0, b))
    return [("every route cell was free and is claimed for the operation", FA([i], z3.Implies(And(0 <= i, i < n), And(Not(at(s0, w[i].cell).HAS), claimed(cx, at(s1, w[i].cell), w[i], pa(cx, "MultiPatchMeasurement"), op))), patterns=[w[i].T])),
            ("no cell occurs twice", distinct(w, n)),
            ("source: exactly the boundary facing the route is activated", FA([r, c, r2, c2], z3.Implies(ends(src, tgt), turned_on(o0, o1, me, [(tr, fs), (both, gs)])), patterns=[MP(o1.T, p0.T)])),
            ("target: exactly the boundary facing the route is activated", FA([r, c, r2, c2], z3.Implies(ends(tgt, src), turned_on(o0, o1, me, [(tr, gs), (both, fs)])), patterns=[MP(o1.T, p0.T)])),
            ("no other cell changes", And(same_shape(s0, s1), FA([r, c], z3.Implies(And(in_rc(s0, r, c), Not(has_id(o0, src)), Not(has_id(o0, tgt))), Or(o1.T == o0.T, here)), patterns=[o1.T])))]


def m_req(cx):
    s = cx.a(0)
    return slice_ok(s) + [("ids are unique", uniq(s)), ("both patches are on the lattice", And(present(s, cx.a(2)), present(s, cx.a(4)))),
                          ("the router answers with a route", route_ok(s, route(cx), cx.a(2), cx.a(4))), ("ids left", cx.pre["g:multi_body_measurement_op_id_counter"] < (1 << 31) - 1)]


def m_bad(cx):
    """the returned route is not free (only a router that does not look at the slice answers so)"""
    s, w = cx.a(0), route(cx).VAL.cells
    i = z3.Int("i!mb")
    return And(route(cx).HAS, Or(z3.Not(distinct(w, w.LEN)), EX([i], And(rng(i, w.LEN), at(s, w[i].cell).HAS))))


def m_ens(cx):
    s0, s1, R = cx.a(0), cx.b(0), route(cx)
    k0, k1 = cx.pre["g:multi_body_measurement_op_id_counter"], cx.post["g:multi_body_measurement_op_id_counter"]
    w = R.VAL.cells
    ok = And(R.HAS, Not(some_active(cx, s0, cx.a(2))), Not(some_active(cx, s0, cx.a(4))))
    ct = R.VAL.routing_region_id.CT
    op = Ite(cx.a(6), cx.some(ct, k0).T, cx.none(ct).T)
    op = V(s0.E, op, ct)
    return [("accepted exactly when both are idle and a route exists", cx.ret == ok), ("refused: slice as it was", Implies(Not(ok), s0 == s1)),
            ("ids are used once", k1 == Ite(And(ok, cx.a(6)), k0 + 1, k0)), ("nothing else of the slice", rest_same(s0, s1, "cells"))] + [(l, Implies(ok, g)) for l, g in merged(cx, s0, s1, w, cx.a(2), cx.a(4), op)]


add("lsqecc::merge_patches", requires=m_req, ensures=m_ens, throws=m_bad, modifies=[(0, "cells"), ("g:multi_body_measurement_op_id_counter",)], opts={"globals": [COUNTER], "paths": True})

CONTRACTS = C
