"""C01: a grid cell holds at most one patch; placement, lookup and deletion by id."""
from _common import *

C = []
P = ("C01",)


def add(qual, **k):
    props = k.pop("props", P)
    C.append(Contract(qual, props, **k))


def base_same(a, b):
    return And(a.type == b.type, a.activity == b.activity, a.id == b.id, a.label == b.label, a.operation_id == b.operation_id)


def bounds_same(a, b):
    return And(*[a.F(s) == b.F(s) for s, _, _ in SIDES])


def single(sp):
    return sp.cells.IS("SingleCellOccupiedByPatch")


def one(sp):
    return sp.cells.AS("SingleCellOccupiedByPatch")


def holds(o, sp):
    """optional dense patch o is exactly the single-cell sparse patch sp"""
    return And(o.HAS, base_same(o.VAL, sp), bounds_same(o.VAL.boundaries, one(sp)))


add("lsqecc::DensePatch::from_sparse_patch", inline=True, throws=lambda cx: Not(single(cx.a(0))), exact_throw=True,
    ensures=lambda cx: [("same description", base_same(cx.ret, cx.a(0))), ("same boundaries", bounds_same(cx.ret.boundaries, one(cx.a(0))))])

add("lsqecc::DensePatch::to_sparse_patch", inline=True, props=("C01", "C07"),
    ensures=lambda cx: [("one cell", And(single(cx.ret), one(cx.ret).cell == cx.a(0))), ("same description", base_same(cx.ret, cx.this)),
                        ("same boundaries", bounds_same(cx.this.boundaries, one(cx.ret)))])

add("lsqecc::DenseSlice::patch_at", sig="std::optional<DensePatch> &(const Cell &)", inline=True, requires=lambda cx: slice_ok(cx.this) + [("in", inside(cx.this, cx.a(0)))],
    ret=lambda cx, fresh, roots: (None, roots("this").at("f", "cells").at("i", cx.a(0).row).at("i", cx.a(0).col)), ensures=lambda cx: [("a reference", cx.ret_has)])

add("lsqecc::DenseSlice::is_cell_free", inline=True, requires=lambda cx: slice_ok(cx.this) + [("in", inside(cx.this, cx.a(0)))],
    ensures=lambda cx: [("exactly when it holds nothing", cx.ret == Not(at(cx.this, cx.a(0)).HAS))])


def _foa(cx):
    o, acts = at(cx.this, cx.a(0)), cx.a(1)
    i = z3.Int("i!act")
    hit = EX([i], z3.And(0 <= i, i < acts.LEN, acts[i] == o.VAL.activity))
    return [("free or one of the activities", cx.ret == Or(Not(o.HAS), hit))]


def _foa_inv(lp):
    o = at(lp.eng.topctx.this, lp.eng.topctx.a(0)) if "this" in lp.eng.topctx.pre else None
    acts = lp.eng.topctx.pre.get(1)
    if o is None or not hasattr(acts, "LEN"):
        return []
    i = z3.Int("i!inv")
    return [(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lp.it), acts[i] != o.VAL.activity)), "no earlier activity matches")]


add("lsqecc::DenseSlice::is_cell_free_or_activity", inline=True, requires=lambda cx: slice_ok(cx.this) + [("in", inside(cx.this, cx.a(0)))], ensures=_foa)


def _place_req(cx):
    return slice_ok(cx.this) + [("its cell is in the grid", Implies(single(cx.a(0)), inside(cx.this, one(cx.a(0)).cell)))]


def _place_ens(cx):
    sp = cx.a(0)
    c = one(sp).cell
    return [("the cell holds exactly the patch", holds(at(cx.this2, c), sp)), ("no other cell", cells_same_except(cx.this, cx.this2, c)), ("returns the cell", same_cell(cx.ret, c)),
            ("placement never overwrites", Or(cx.a(1), Not(at(cx.this, c).HAS)))]


add("lsqecc::DenseSlice::place_single_cell_sparse_patch", inline=True, requires=_place_req, modifies=[("this", "cells")],
    throws=lambda cx: Or(Not(single(cx.a(0))), And(Not(cx.a(1)), at(cx.this, one(cx.a(0)).cell).HAS)), exact_throw=True,
    on_throw=lambda cx: [("slice as it was", cells_same_except(cx.this, cx.this2))], ensures=_place_ens)


# ---- several cells
def multi(sp):
    return sp.cells.AS("MultipleCellsOccupiedByPatch").sub_cells


def _pm_req(cx):
    sp = cx.a(0)
    m = multi(sp)
    i = z3.Int("i!pm")
    return _place_req(cx) + [("its cells are in the grid", Implies(Not(single(sp)), FA([i], z3.Implies(z3.And(0 <= i, i < m.LEN), inside(cx.this, m[i].cell)), patterns=[m[i].T])))]


def _pm_cells(s0, s1, sp, n):
    """what the first n sub-cells of sp left behind"""
    m = multi(sp)
    r, c = z3.Int("r!pm"), z3.Int("c!pm")
    i = z3.Int("i!pm2")
    o1, o0 = at_rc(s1, r, c), at_rc(s0, r, c)
    put = EX([i], And(0 <= i, i < n, m[i].cell.row == r, m[i].cell.col == c, o1.HAS, base_same(o1.VAL, sp), bounds_same(o1.VAL.boundaries, m[i])))
    return FA([r, c], z3.Implies(in_rc(s0, r, c), Or(o1.T == o0.T, put)), patterns=[o1.T])


def _pm_all(s1, sp, n):
    """every one of the first n cells holds the description of the patch"""
    m = multi(sp)
    i = z3.Int("i!pm3")
    o = at(s1, m[i].cell)
    return FA([i], z3.Implies(z3.And(0 <= i, i < n), And(o.HAS, base_same(o.VAL, sp))), patterns=[m[i].T])


def _pm_ens(cx):
    sp = cx.a(0)
    m = multi(sp)
    c = one(sp).cell
    return [("one cell: holds exactly the patch", Implies(single(sp), holds(at(cx.this2, c), sp))),
            ("one cell: no other cell", Implies(single(sp), cells_same_except(cx.this, cx.this2, c))),
            ("several cells: every cell holds the patch", Implies(Not(single(sp)), _pm_all(cx.this2, sp, m.LEN))),
            ("several cells: changes only to sub-cells, with their boundaries", Implies(Not(single(sp)), And(same_shape(cx.this, cx.this2), _pm_cells(cx.this, cx.this2, sp, m.LEN)))),
            ]


def cur_of(lp, name):
    """value of a parameter object at the loop head"""
    r = lp.eng.toproots[name]
    z = lp.H.store[r.root]
    return V(lp.eng, z.t, z.ct)


def changes(lp, name):
    return any(l.root == lp.eng.toproots[name].root for l in lp.locs)


def _pm_inv(lp):
    cx = lp.eng.topctx
    if "this" not in lp.eng.toproots or not changes(lp, "this"):
        return []
    sp = cx.a(0)
    s1 = cur_of(lp, "this")
    return [(_pm_all(s1, sp, lp.it), "hint placed so far"), (And(same_shape(cx.this, s1), _pm_cells(cx.this, s1, sp, lp.it)), "hint changes so far")]


add("lsqecc::DenseSlice::place_sparse_patch", inline=True, requires=_pm_req, modifies=[("this", "cells")], throws=True, ensures=_pm_ens, loops=[_pm_inv])


# ---- by id
def has_id(o, k):
    return And(o.HAS, o.VAL.id.HAS, o.VAL.id.VAL == k)


def nowhere(sl, k):
    r, c = z3.Int("r!id"), z3.Int("c!id")
    return FA([r, c], z3.Implies(in_rc(sl, r, c), Not(has_id(at_rc(sl, r, c), k))), patterns=[at_rc(sl, r, c).T])


def _gp_ret(cx, fresh, roots):
    return None, roots("this").at("f", "cells").at("i", fresh()).at("i", fresh()).at("v")


def _gp(cx):
    r, c = cx.ret_idx[0], cx.ret_idx[1]
    return [("found: the cell holds the id", Implies(cx.ret_has, And(in_rc(cx.this, r, c), has_id(at_rc(cx.this, r, c), cx.a(0))))),
            ("not found: no cell holds the id", Implies(Not(cx.ret_has), nowhere(cx.this, cx.a(0))))]


for sg in ("std::optional<std::reference_wrapper<DensePatch>> (PatchId)", "std::optional<std::reference_wrapper<const DensePatch>> (PatchId) const"):
    add("lsqecc::DenseSlice::get_patch_by_id", requires=lambda cx: slice_ok(cx.this), ret=_gp_ret, ensures=_gp, sig=sg)

add("lsqecc::DenseSlice::get_cell_by_id", requires=lambda cx: slice_ok(cx.this),
    ensures=lambda cx: [("found: the cell holds the id", Implies(cx.ret.HAS, And(inside(cx.this, cx.ret.VAL), has_id(at(cx.this, cx.ret.VAL), cx.a(0))))),
                        ("not found: no cell holds the id", Implies(Not(cx.ret.HAS), nowhere(cx.this, cx.a(0))))])

add("lsqecc::DenseSlice::has_patch", requires=lambda cx: slice_ok(cx.this),
    ensures=lambda cx: [("exactly when some cell holds the id", cx.ret == Not(nowhere(cx.this, cx.a(0))))])


def uniq(sl):
    """no id sits in two cells"""
    r, c, r2, c2 = [z3.Int(n + "!uq") for n in ("r", "c", "r2", "c2")]
    a, b = at_rc(sl, r, c), at_rc(sl, r2, c2)
    return FA([r, c, r2, c2], z3.Implies(And(in_rc(sl, r, c), in_rc(sl, r2, c2), a.HAS, b.HAS, a.VAL.id.HAS, b.VAL.id.HAS, a.VAL.id.VAL == b.VAL.id.VAL), And(r == r2, c == c2)),
              patterns=[MP(a.T, b.T)])


def _gs(cx):
    sp = cx.ret.VAL
    o = at(cx.this, one(sp).cell)
    return [("not found: no cell holds the id", Implies(Not(cx.ret.HAS), nowhere(cx.this, cx.a(0)))),
            ("found: the cell and its content", Implies(cx.ret.HAS, And(single(sp), inside(cx.this, one(sp).cell), has_id(o, cx.a(0)), base_same(sp, o.VAL), bounds_same(o.VAL.boundaries, one(sp)))))]


add("lsqecc::DenseSlice::get_sparse_patch_by_id", requires=lambda cx: slice_ok(cx.this) + [("ids are unique", uniq(cx.this))], ensures=_gs)


def _del(cx):
    s0, s1, k = cx.this, cx.this2, cx.a(0)
    r, c = z3.Int("r!dl"), z3.Int("c!dl")
    o0, o1 = at_rc(s0, r, c), at_rc(s1, r, c)
    return [("shape", same_shape(s0, s1)),
            ("empties exactly the cells that hold the id", FA([r, c], z3.Implies(in_rc(s0, r, c), And(o1.HAS == And(o0.HAS, Not(has_id(o0, k))), Implies(o1.HAS, o1.T == o0.T))), patterns=[o1.T]))]


add("lsqecc::DenseSlice::delete_patch_by_id", requires=lambda cx: slice_ok(cx.this), modifies=[("this", "cells")], ensures=_del, opts={"cost": 9})

CONTRACTS = C
