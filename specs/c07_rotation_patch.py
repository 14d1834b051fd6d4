"""C07: rotating a single-cell patch; releasing the cells of a region."""
from _common import *
from c01_occupancy import base_same, single, one, cur_of, changes

C = []
P = ("C07",)


def add(qual, **k):
    C.append(Contract(qual, k.pop("props", P), **k))


def quarter(a, b):
    """b's boundaries are a's after a quarter turn"""
    return And(b.right == a.top, b.bottom == a.right, b.left == a.bottom, b.top == a.left)


def joined(cx, w, here, there):
    """route cell w lies at `here` and is connected exactly towards `there`"""
    out = [same_cell(w.cell, here)]
    for s, dr, dc in SIDES:
        f = cell_is(there, here.row + dr, here.col + dc)
        out += [w.F(s).boundary_type == Ite(f, bt(cx, "Connected"), bt(cx, "None")), w.F(s).is_active == f]
    return And(*out)


def rotation_region(cx, r, sp, cell, spare):
    """r is the busy region of the single-cell patch sp at `cell` turning with the help of `spare`"""
    w = r.region.cells
    q = r.state_after_clearing[0]
    return [("two cells", w.LEN == 2), ("the cell of the patch", joined(cx, w[0], cell, spare)), ("spare cell", joined(cx, w[1], spare, cell)),
            ("no operation id", Not(r.region.routing_region_id.HAS)),
            ("one patch afterwards", r.state_after_clearing.LEN == 1)] + ([] if sp is None else [
            ("same patch", And(base_same(sp, q), single(q), same_cell(one(q).cell, cell))), ("quarter turn", quarter(one(sp), one(q)))])


add("lsqecc::single_patch_rotation_a_la_litinski", requires=lambda cx: [("own cell", coord_ok(one(cx.a(0)).cell)), ("neighbour", Implies(single(cx.a(0)), adjacent(cx.a(1), one(cx.a(0)).cell)))],
    throws=lambda cx: Not(single(cx.a(0))), exact_throw=True,
    ensures=lambda cx: [("three steps", cx.ret.steps_to_clear == 3)] + rotation_region(cx, cx.ret, cx.a(0), one(cx.a(0)).cell, cx.a(1)))


# ---------------------------------------------------------------- claiming and releasing the cells of a route
def rng(i, n):
    return And(0 <= i, i < n)


def cells_inside(sl, w, what="route cells lie in the grid"):
    i = z3.Int("i!ci")
    f = furthest(layout_of(sl))
    c = w[i].cell
    return (what, FA([i], z3.Implies(rng(i, w.LEN), And(c.row >= 0, c.row <= f.row, c.col >= 0, c.col <= f.col)), patterns=[w[i].T]))


def no_id(o):
    return Not(o.HAS)


def claimed(cx, o, wi, act, op):
    """optional dense patch o is the routing patch of route cell wi"""
    p = o.VAL
    return And(o.HAS, p.type == pt(cx, "Routing"), p.activity == act, Not(p.id.HAS), Not(p.label.HAS), p.operation_id == op, *[p.boundaries.F(s) == wi.F(s) for s, _, _ in SIDES])


def marked(cx, s0, s1, w, act, op, n, j=None):
    """the first n cells of route w, free before, are claimed; nothing else changed"""
    i, r, c = z3.Int("i!mk"), z3.Int("r!mk"), z3.Int("c!mk")
    o0, o1 = at_rc(s0, r, c), at_rc(s1, r, c)
    here = EX([i], And(0 <= i, i < n, w[i].cell.row == r, w[i].cell.col == c), patterns=[w[i].T])
    return [("every route cell was free and is claimed for the operation", FA([i], z3.Implies(And(0 <= i, i < n), And(Not(at(s0, w[i].cell).HAS), claimed(cx, at(s1, w[i].cell), w[i], act, op))), patterns=[w[i].T])),
            ("no other cell changes", And(same_shape(s0, s1), FA([r, c], z3.Implies(in_rc(s0, r, c), Or(o1.T == o0.T, here)), patterns=[o1.T])))]


def distinct(w, n, i0="i"):
    i, j = z3.Int("i!di"), z3.Int("j!di")
    return FA([i, j], z3.Implies(And(0 <= i, i < n, 0 <= j, j < n, same_cell(w[i].cell, w[j].cell)), i == j), patterns=[MP(w[i].T, w[j].T)])


def _mark_inv(lp):
    cx = lp.eng.topctx
    if not changes(lp, 0) or lp.cont is None or lp.eng.lvct(lp.s0, lp.cont).elem.key != "lsqecc::SingleCellOccupiedByPatch":
        return []
    s0, s1, w, act = cx.a(0), cur_of(lp, 0), cx.a(1).cells, cx.a(2)
    out = [(g, "hint " + l) for l, g in marked(cx, s0, s1, w, act, cx.a(1).routing_region_id, lp.it)]
    out.append((distinct(w, lp.it), "hint distinct so far"))
    out.append((rest_same(s0, s1, "cells"), "hint rest"))
    for l in lp.locs:
        if l.name.split("#")[0] == "counter":
            out.append((l.h == lp.it, "index"))
        if l.root == lp.eng.toproots[1].root:
            out.append((cur_of(lp, 1).T == cx.a(1).T, "hint route as given"))
    return out


def not_edpc(cx):
    return cx.a(2) != pa(cx, "EDPC")


def _mark(cx):
    s0, s1, w = cx.a(0), cx.b(0), cx.a(1).cells
    return marked(cx, s0, s1, w, cx.a(2), cx.a(1).routing_region_id, w.LEN) + [("no cell occurs twice", distinct(w, w.LEN)), ("nothing else of the slice", rest_same(s0, s1, "cells")), ("route as given", cx.b(1) == cx.a(1))]


def _mark_bad(cx):
    s0, w = cx.a(0), cx.a(1).cells
    i = z3.Int("i!mb")
    return Or(z3.Not(distinct(w, w.LEN)), EX([i], And(rng(i, w.LEN), at(s0, w[i].cell).HAS)))


add("lsqecc::mark_routing_region", props=("C05", "C07"), requires=lambda cx: slice_ok(cx.a(0)) + [("not for edge-disjoint paths", not_edpc(cx)), cells_inside(cx.a(0), cx.a(1).cells)],
    modifies=[(0, "cells")], throws=_mark_bad, ensures=_mark, loops=[_mark_inv], opts={"paths": True})


def routed(cx, sl, w):
    i = z3.Int("i!rt")
    o = at(sl, w[i].cell)
    return FA([i], z3.Implies(rng(i, w.LEN), And(o.HAS, o.VAL.type == pt(cx, "Routing"))), patterns=[w[i].T])


def cleared(s0, s1, w, n):
    i, r, c = z3.Int("i!cl"), z3.Int("r!cl"), z3.Int("c!cl")
    o0, o1 = at_rc(s0, r, c), at_rc(s1, r, c)
    here = EX([i], And(0 <= i, i < n, w[i].cell.row == r, w[i].cell.col == c), patterns=[w[i].T])
    return [("every route cell is free", FA([i], z3.Implies(rng(i, n), Not(at(s1, w[i].cell).HAS)), patterns=[w[i].T])),
            ("no other cell changes", And(same_shape(s0, s1), FA([r, c], z3.Implies(in_rc(s0, r, c), Or(o1.T == o0.T, here)), patterns=[o1.T])))]


def _clear_inv(lp):
    cx = lp.eng.topctx
    if not changes(lp, 0):
        return []
    s0, s1, w = cx.a(0), cur_of(lp, 0), cx.a(1).cells
    return [(g, "hint " + l) for l, g in cleared(s0, s1, w, lp.it)] + [(rest_same(s0, s1, "cells"), "hint rest")]


add("lsqecc::clear_routing_region", props=("C05", "C07"), requires=lambda cx: slice_ok(cx.a(0)) + [cells_inside(cx.a(0), cx.a(1).cells), ("distinct", distinct(cx.a(1).cells, cx.a(1).cells.LEN)), ("routing patches", routed(cx, cx.a(0), cx.a(1).cells))],
    modifies=[(0, "cells")], ensures=lambda cx: cleared(cx.a(0), cx.b(0), cx.a(1).cells, cx.a(1).cells.LEN) + [("nothing else of the slice", rest_same(cx.a(0), cx.b(0), "cells"))],
    loops=[_clear_inv], opts={"paths": True})

CONTRACTS = C
