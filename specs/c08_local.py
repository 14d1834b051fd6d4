"""C08: local lattice-surgery instructions: applied only when allowed, with exactly their own effect."""
from _common import *

C = []
P = ("C08",)


def add(qual, **k):
    props = k.pop("props", P)
    C.append(Contract(qual, props, **k))


def patch_basic(o, ident, label=None, activity=None, cx=None, active=()):
    """optional dense patch o is the standard square patch: logical qubit, idle, smooth above and below, rough left and right"""
    p = o.VAL
    b = p.boundaries
    out = [o.HAS, p.type == pt(cx, "Qubit"), p.activity == (activity if activity is not None else pa(cx, "None")), p.id == ident, Not(p.operation_id.HAS)]
    for s, t in (("top", "Smooth"), ("bottom", "Smooth"), ("left", "Rough"), ("right", "Rough")):
        out.append(b.F(s).boundary_type == bt(cx, t))
    return And(*out)


def side_active(p, me, other, only=True):
    """the side of patch p (in cell me) facing `other` is active; with only, the other three are not"""
    out = []
    for s, dr, dc in SIDES:
        f = cell_is(other, me.row + dr, me.col + dc)
        a = p.boundaries.F(s).is_active
        out.append(a == f if only else Implies(f, a))
    return And(*out)


def bounds_turned_on(p0, p1, me, other):
    """boundaries of p1 are those of p0 with the side facing `other` made active"""
    out = []
    for s, dr, dc in SIDES:
        f = cell_is(other, me.row + dr, me.col + dc)
        b0, b1 = p0.boundaries.F(s), p1.boundaries.F(s)
        out += [b1.boundary_type == b0.boundary_type, b1.is_active == Or(b0.is_active, f)]
    return And(*out)


def same_identity(p0, p1):
    return And(p0.type == p1.type, p0.id == p1.id, p0.label == p1.label, p0.operation_id == p1.operation_id)


def dense_active(cx, p):
    b = p.boundaries
    return Or(p.activity != pa(cx, "None"), b.top.is_active, b.bottom.is_active, b.left.is_active, b.right.is_active)


def edpc(cx):
    r = cx.a(3)
    return abstract(r, "lsqecc::Router::get_EDPC", "bool")


TWO = {"BellPrepare": ("cell1", "cell2"), "BellMeasure": ("cell1", "cell2"), "Move": ("source_cell", "target_cell"), "TwoPatchMeasure": ("cell1", "cell2"),
       "ExtendSplit": ("target_cell", "extension_cell"), "MergeContract": ("preserved_cell", "measured_cell")}


def local_ok(cx, sl, op, ed):
    """the instruction's own requirement on its cells"""
    def usable(c):
        o = at(sl, c)
        return Or(Not(o.HAS), And(ed, Or(o.VAL.activity == pa(cx, "EDPC"), o.VAL.activity == pa(cx, "Reserved"))))

    def idle(c):
        o = at(sl, c)
        return And(o.HAS, Not(dense_active(cx, o.VAL)))
    out = {}
    out["PrepareY"] = Not(at(sl, op.AS("PrepareY").target_cell).HAS)
    for k, (a, b) in TWO.items():
        x = op.AS(k)
        c, d = x.F(a), x.F(b)
        if k == "BellPrepare":
            out[k] = And(usable(c), usable(d))
        elif k in ("Move", "ExtendSplit"):
            out[k] = And(idle(c), usable(d))
        else:
            out[k] = And(idle(c), idle(d))
    return out


def wellformed(sl, op):
    out = [("PrepareY in grid", Implies(op.IS("PrepareY"), inside(sl, op.AS("PrepareY").target_cell)))]
    for k, (a, b) in TWO.items():
        x = op.AS(k)
        c, d = x.F(a), x.F(b)
        out.append((k + " names two adjacent cells of the grid", Implies(op.IS(k), And(inside(sl, c), inside(sl, d), adjacent(c, d)))))
    return out


def local_effect(cx, s0, s1, op, ed):
    """[(label, cond)]: what an accepted instruction does"""
    out = []
    x = op.AS("PrepareY")
    out.append(("PrepareY: fills its cell", Implies(op.IS("PrepareY"), And(patch_basic(at(s1, x.target_cell), x.target_id, activity=pa(cx, "Unitary"), cx=cx), Not(dense_active_sides(at(s1, x.target_cell).VAL))))))
    out.append(("PrepareY: no other cell", Implies(op.IS("PrepareY"), cells_same_except(s0, s1, x.target_cell))))
    for k, (a, b) in TWO.items():
        x = op.AS(k)
        c, d = x.F(a), x.F(b)
        c0, d0, c1, d1 = at(s0, c), at(s0, d), at(s1, c), at(s1, d)
        out.append((k + ": no other cell", Implies(op.IS(k), cells_same_except(s0, s1, c, d))))
        e = []
        if k == "BellPrepare":
            e += [("first half", And(patch_basic(c1, x.side1, cx=cx), side_active(c1.VAL, c, d))), ("second half", And(patch_basic(d1, x.side2, cx=cx), side_active(d1.VAL, d, c)))]
        elif k == "Move":
            nid = x.new_id_for_target
            e += [("target takes the identity", And(d1.HAS, d1.VAL.type == pt(cx, "Qubit"), d1.VAL.activity == pa(cx, "None"),
                                                    Implies(nid.HAS, d1.VAL.id == nid), Implies(Not(nid.HAS), d1.VAL.id == c0.VAL.id), side_active(d1.VAL, d, c))),
                  ("source is being vacated", And(c1.HAS, c1.VAL.activity == pa(cx, "Measurement"), Not(c1.VAL.id.HAS), bounds_turned_on(c0.VAL, c1.VAL, c, d), c1.VAL.type == c0.VAL.type))]
        elif k == "ExtendSplit":
            e += [("extension", And(patch_basic(d1, x.extension_id, cx=cx), side_active(d1.VAL, d, c))),
                  ("origin", And(c1.HAS, same_identity(c0.VAL, c1.VAL), c1.VAL.activity == c0.VAL.activity, bounds_turned_on(c0.VAL, c1.VAL, c, d)))]
        else:
            ends = {"BellMeasure": (1, 1), "TwoPatchMeasure": (0, 0), "MergeContract": (0, 1)}[k]
            for w, me, other, p0, p1, m in (("first", c, d, c0, c1, ends[0]), ("second", d, c, d0, d1, ends[1])):
                act = pa(cx, "Measurement") if m else p0.VAL.activity
                e.append((w + " patch", And(p1.HAS, same_identity(p0.VAL, p1.VAL), p1.VAL.activity == act, bounds_turned_on(p0.VAL, p1.VAL, me, other))))
        for n, g in e:
            out.append(("%s: %s" % (k, n), Implies(op.IS(k), g)))
    return out


def dense_active_sides(p):
    b = p.boundaries
    return Or(b.top.is_active, b.bottom.is_active, b.left.is_active, b.right.is_active)


add("lsqecc::CustomDPRouter::get_EDPC", inline=True, opts={"query_of": ["lsqecc::Router::get_EDPC"]}, ensures=lambda cx: [("the flag", cx.ret == cx.this.EDPC)])
add("lsqecc::CachedRouter::get_EDPC", inline=True, opts={"query_of": ["lsqecc::Router::get_EDPC"]}, ensures=lambda cx: [("never", Not(cx.ret))])


def _req(cx):
    return slice_ok(cx.a(0)) + wellformed(cx.a(0), cx.a(1).operation)


def _ok(cx):
    op = cx.a(1).operation
    ok = local_ok(cx, cx.a(0), op, edpc(cx))
    return Or(*[And(op.IS(k), g) for k, g in ok.items()])


def _ens(cx):
    s0, s1, op, r = cx.a(0), cx.b(0), cx.a(1).operation, cx.ret
    ok = _ok(cx)
    out = [("an error exactly when a requirement fails", r.maybe_error.HAS == Not(ok)), ("no followups", r.followup_instructions.LEN == 0),
           ("an error leaves the slice as it was", Implies(Not(ok), cells_same_except(s0, s1)))]
    return out + [(l, Implies(ok, g)) for l, g in local_effect(cx, s0, s1, op, edpc(cx))]


add("lsqecc::try_apply_local_instruction", requires=_req, ensures=_ens, modifies=[(0, "cells")],
    throws=lambda cx: And(cx.a(1).operation.IS("PrepareY"), Not(_ok(cx))),
    on_throw=lambda cx: [("slice as it was", cells_same_except(cx.a(0), cx.b(0)))], exact_throw=True)

CONTRACTS = C
