"""C04: neighbours, facing boundaries, quarter turns, activity."""
from _common import *

P = ("C04",)
C = []


def add(*a, **k):
    k.setdefault("props", P)
    C.append(Contract(*a, **k))


add("lsqecc::operator!", sig="BoundaryType (BoundaryType)", inline=True,
    ensures=lambda cx: [(a + " -> " + b, Implies(cx.a(0) == bt(cx, a), cx.ret == bt(cx, b))) for a, b in
                        (("None", "Connected"), ("Connected", "None"), ("Rough", "Smooth"), ("Smooth", "Rough"),
                         ("Reserved_Label1", "Reserved_Label2"), ("Reserved_Label2", "Reserved_Label1"))])

add("lsqecc::operator!", sig="CellDirection (CellDirection)", inline=True,
    ensures=lambda cx: [(a + " -> " + b, Implies(cx.a(0) == cd(cx, a), cx.ret == cd(cx, b))) for a, b in
                        (("top", "bottom"), ("bottom", "top"), ("left", "right"), ("right", "left"))])

add("lsqecc::boundary_for_operator", inline=True,
    throws=lambda cx: Or(cx.a(0) == po(cx, "I"), cx.a(0) == po(cx, "Y")),
    ensures=lambda cx: [("X needs rough", Implies(cx.a(0) == po(cx, "X"), cx.ret == bt(cx, "Rough"))),
                        ("Z needs smooth", Implies(cx.a(0) == po(cx, "Z"), cx.ret == bt(cx, "Smooth"))),
                        ("none for I and Y", And(cx.a(0) != po(cx, "I"), cx.a(0) != po(cx, "Y")))])


def _dirn(cx):
    o, f, d, me = cx.a(0), cx.a(1), cx.a(2), cx.this
    lim = {"top": me.row > o.row, "bottom": me.row < f.row, "left": me.col > o.col, "right": me.col < f.col}
    out = []
    for s, dr, dc in SIDES:
        is_ = d == cd(cx, s)
        out.append((s + ": exists exactly inside the grid", Implies(is_, cx.ret.HAS == lim[s])))
        out.append((s + ": the cell on that side", Implies(And(is_, cx.ret.HAS), cell_is(cx.ret.VAL, me.row + dr, me.col + dc))))
    return out


add("lsqecc::Cell::get_directional_neighbor", inline=True, requires=lambda cx: [coord_ok(cx.this)], ensures=_dirn)


def _four(cx):
    me = cx.this
    return [("four neighbours", cx.ret.LEN == 4)] + [(s, Or(*[cell_is(cx.ret[i], me.row + dr, me.col + dc) for i in range(4)])) for s, dr, dc in SIDES]


add("lsqecc::Cell::get_neigbours", inline=True, requires=lambda cx: [coord_ok(cx.this)], ensures=_four)


def _inbox(cx):
    o, f, me, r = cx.a(0), cx.a(1), cx.this, cx.ret
    lim = {"top": me.row > o.row, "bottom": me.row < f.row, "left": me.col > o.col, "right": me.col < f.col}
    out = [("at most four", And(r.LEN >= 0, r.LEN <= 4))]
    for s, dr, dc in SIDES:
        has = Or(*[And(r.LEN > i, cell_is(r[i], me.row + dr, me.col + dc)) for i in range(4)])
        out.append((s + ": listed exactly when inside", has == lim[s]))
    for i in range(4):
        out.append(("element %d is at distance one" % i, Implies(r.LEN > i, adjacent(r[i], me))))
        for j in range(i):
            out.append(("elements %d and %d differ" % (j, i), Implies(r.LEN > i, Not(same_cell(r[i], r[j])))))
    return out


add("lsqecc::Cell::get_neigbours_within_bounding_box_inclusive", inline=True, requires=lambda cx: [coord_ok(cx.this)], ensures=_inbox)


def _bw(cx):
    me, n, r = cx.this, cx.a(0), cx.ret
    out = [("present exactly towards a neighbour", r.HAS == adjacent(n, me.cell))]
    for s, dr, dc in SIDES:
        out.append((s, Implies(cell_is(n, me.cell.row + dr, me.cell.col + dc), And(r.HAS, r.VAL == me.F(s)))))
    return out


add("lsqecc::SingleCellOccupiedByPatch::get_boundary_with", inline=True, requires=lambda cx: [coord_ok(cx.this.cell)], ensures=_bw)


def _side_cf(cx):
    """path step naming the side of this patch that faces argument 0"""
    me, n = cx.this, cx.a(0)
    return [(cell_is(n, me.cell.row + dr, me.cell.col + dc), s) for s, dr, dc in SIDES]


def _hb(cx):
    me, op, n = cx.this, cx.a(0), cx.a(1)
    want = Ite(op == po(cx, "X"), bt(cx, "Rough"), bt(cx, "Smooth"))
    out = [("never towards a non-neighbour", Implies(Not(adjacent(n, me.cell)), Not(cx.ret)))]
    for s, dr, dc in SIDES:
        out.append((s, Implies(cell_is(n, me.cell.row + dr, me.cell.col + dc), cx.ret == (me.F(s).boundary_type == want))))
    return out


add("lsqecc::SingleCellOccupiedByPatch::have_boundary_of_type_with", inline=True, requires=lambda cx: [coord_ok(cx.this.cell)],
    throws=lambda cx: And(adjacent(cx.a(1), cx.this.cell), Or(cx.a(0) == po(cx, "I"), cx.a(0) == po(cx, "Y"))), ensures=_hb)

add("lsqecc::CellBoundaries::has_active_boundary", inline=True,
    ensures=lambda cx: [("exactly when a side is active", cx.ret == Or(cx.this.top.is_active, cx.this.bottom.is_active, cx.this.left.is_active, cx.this.right.is_active))])

add("lsqecc::CellBoundaries::instant_rotate", inline=True, modifies=["this"],
    ensures=lambda cx: [("top goes right", cx.this2.right == cx.this.top), ("right goes bottom", cx.this2.bottom == cx.this.right),
                        ("bottom goes left", cx.this2.left == cx.this.bottom), ("left goes top", cx.this2.top == cx.this.left)])

add("lsqecc::DensePatch::is_active", inline=True,
    ensures=lambda cx: [("busy or a side active", cx.ret == Or(cx.this.activity != pa(cx, "None"), cx.this.boundaries.top.is_active, cx.this.boundaries.bottom.is_active,
                                                               cx.this.boundaries.left.is_active, cx.this.boundaries.right.is_active))])


def _spact(cx):
    me = cx.this
    one = me.cells.IS("SingleCellOccupiedByPatch")
    s = me.cells.AS("SingleCellOccupiedByPatch")
    m = me.cells.AS("MultipleCellsOccupiedByPatch")

    def act(c):
        return Or(c.top.is_active, c.bottom.is_active, c.left.is_active, c.right.is_active)
    busy = me.activity != pa(cx, "None")
    i = z3.Int("i!sa")
    some = EX([i], z3.And(0 <= i, i < m.sub_cells.LEN, act(m.sub_cells[i])))
    return [("busy", Implies(busy, cx.ret)),
            ("single cell", Implies(And(one, Not(busy)), cx.ret == act(s))),
            ("several cells", Implies(And(Not(one), Not(busy)), cx.ret == some))]


def _spact_inv(lp):
    """is_active over several cells: found so far"""
    E = lp.eng
    out = []
    for l in lp.locs:
        if l.ct is not None and l.ct.kind == "bool" and lp.cont is not None:
            m = E.topctx.this.cells.AS("MultipleCellsOccupiedByPatch")
            i = z3.Int("i!inv")
            c = m.sub_cells[i]
            a = Or(c.top.is_active, c.bottom.is_active, c.left.is_active, c.right.is_active)
            out.append((l.h == Or(l.x0, EX([i], z3.And(0 <= i, i < lp.it, a))), "some visited cell is active"))
    return out


add("lsqecc::SparsePatch::is_active", inline=True, ensures=_spact, loops=[_spact_inv])


def _inv(eng):
    """four quarter turns restore a patch, and the opposite of the opposite is the original: over the contracts above"""
    cx = Ctx(eng)
    T = eng.T
    ct = T.parse("lsqecc::CellBoundaries")
    turn = [c for c in C if isinstance(c, Contract) and c.qual.endswith("instant_rotate")][0]
    vs = [V(eng, eng.fresh(ct, "b%d" % i), ct) for i in range(5)]
    hyps = []
    from contract import conds, Obl
    for a, b in zip(vs, vs[1:]):
        x = Ctx(eng)
        x.pre["this"], x.post["this"] = a, b
        hyps += [g for _, g in conds(turn.ensures(x))]
    eng.obs.append(Obl(eng, "lemma four quarter turns restore the boundaries", "lemma", hyps, vs[4].T == vs[0].T))
    for sig, e in (("BoundaryType (BoundaryType)", BT), ("CellDirection (CellDirection)", CD)):
        c = [c for c in C if isinstance(c, Contract) and c.sig == sig][0]
        q = T.parse(e)
        a, b, d = [eng.fresh(q, "e%d" % i) for i in range(3)]
        lo, hi = T.enum_range(q)
        hyps = [a >= lo, a <= hi]
        for u, v in ((a, b), (b, d)):
            x = Ctx(eng)
            x.pre[0], x.ret = u, v
            hyps += [g for _, g in conds(c.ensures(x))]
        eng.obs.append(Obl(eng, "lemma opposite of the opposite (%s)" % e, "lemma", hyps, d == a))


C.append(Lemma("lemma:involutions and quarter turns", P, _inv))


# ---- slices
def _gb_ret(cx, fresh, roots):
    t, n = cx.a(0), cx.a(1)
    sl = cx.this
    base = roots("this").at("f", "cells").at("i", t.row).at("i", t.col).at("v").at("f", "boundaries")
    cs = tuple((cell_is(n, t.row + dr, t.col + dc), s) for s, dr, dc in SIDES)
    return And(at(sl, t).HAS, adjacent(n, t)), base.at("cf", cs)


def _gbool(cx, fn):
    sl, t, n = cx.this, cx.a(0), cx.a(1)
    p = at(sl, t)
    out = [("nothing towards a non-neighbour or from an empty cell", Implies(Or(Not(p.HAS), Not(adjacent(n, t))), Not(cx.ret)))]
    for s, dr, dc in SIDES:
        out.append((s, Implies(And(p.HAS, cell_is(n, t.row + dr, t.col + dc)), cx.ret == fn(p.VAL.boundaries.F(s)))))
    return out


add("lsqecc::DenseSlice::have_boundary_of_type_with", inline=True, requires=lambda cx: slice_ok(cx.this) + [("in", inside(cx.this, cx.a(0)))],
    throws=lambda cx: And(at(cx.this, cx.a(0)).HAS, adjacent(cx.a(1), cx.a(0)), Or(cx.a(2) == po(cx, "I"), cx.a(2) == po(cx, "Y"))),
    ensures=lambda cx: _gbool(cx, lambda b: b.boundary_type == Ite(cx.a(2) == po(cx, "X"), bt(cx, "Rough"), bt(cx, "Smooth"))))

add("lsqecc::DenseSlice::is_boundary_reserved", inline=True, requires=lambda cx: slice_ok(cx.this) + [("in", inside(cx.this, cx.a(0)))],
    ensures=lambda cx: _gbool(cx, lambda b: Or(b.boundary_type == bt(cx, "Reserved_Label1"), b.boundary_type == bt(cx, "Reserved_Label2"))))

def _dirslice(cx):
    f = furthest(layout_of(cx.this))
    c, d = cx.a(0), cx.a(1)
    lim = {"top": c.row > 0, "bottom": c.row < f.row, "left": c.col > 0, "right": c.col < f.col}
    out = []
    for s, dr, dc in SIDES:
        is_ = d == cd(cx, s)
        out.append((s, Implies(is_, And(cx.ret.HAS == lim[s], Implies(lim[s], cell_is(cx.ret.VAL, c.row + dr, c.col + dc))))))
    out.append(("an in-grid cell has only in-grid neighbours", Implies(And(inside(cx.this, c), cx.ret.HAS), inside(cx.this, cx.ret.VAL))))
    return out


add("lsqecc::DenseSlice::get_directional_neighbor_within_slice", inline=True, requires=lambda cx: slice_ok(cx.this) + [coord_ok(cx.a(0))], ensures=_dirslice)


def _nslice(cx):
    f = furthest(layout_of(cx.this))
    me, r = cx.a(0), cx.ret
    lim = {"top": me.row > 0, "bottom": me.row < f.row, "left": me.col > 0, "right": me.col < f.col}
    out = [("at most four", And(r.LEN >= 0, r.LEN <= 4))]
    for s, dr, dc in SIDES:
        has = Or(*[And(r.LEN > i, cell_is(r[i], me.row + dr, me.col + dc)) for i in range(4)])
        out.append((s + ": listed exactly when inside", has == lim[s]))
    for i in range(4):
        out.append(("element %d adjacent and in the grid" % i, Implies(And(r.LEN > i, inside(cx.this, me)), And(adjacent(r[i], me), inside(cx.this, r[i])))))
    return out


add("lsqecc::DenseSlice::get_neigbours_within_slice", inline=True, requires=lambda cx: slice_ok(cx.this) + [coord_ok(cx.a(0))], ensures=_nslice)

add("lsqecc::DenseSlice::get_boundary_between", sig="(const Cell &, const Cell &)", inline=True, requires=lambda cx: slice_ok(cx.this) + [("in", inside(cx.this, cx.a(0)))], ret=_gb_ret,
    ensures=lambda cx: [("present exactly between a patch and an adjacent cell", cx.ret_has == And(at(cx.this, cx.a(0)).HAS, adjacent(cx.a(1), cx.a(0))))])

CONTRACTS = C
