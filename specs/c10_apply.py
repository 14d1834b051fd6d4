"""C10 (and the life cycle of C07): applying one instruction to a slice, by kind of instruction."""
from _common import *
from c01_occupancy import has_id, uniq, cur_of, changes, nowhere, base_same, holds, single, one
from c05_merge import route, route_ok, merged, present, some_active, RC, COUNTER
from c07_rotation_patch import rotation_region, claimed, marked, cleared, distinct, cells_inside, rng, routed, quarter
from c08_local import dense_active, same_identity, patch_basic

C = []
F = "lsqecc::try_apply_instruction_direct_followup"
SQ = "lsqecc::SingleQubitOp::Operator"
LAY = "lsqecc::Layout::"


def op_of(cx):
    return cx.a(1).operation


def bounds_eq(a, b):
    return And(*[a.boundaries.F(s) == b.boundaries.F(s) for s, _, _ in SIDES])


def case(kind, props, req=None, ens=None, throws=None, modifies=((0, "cells"),), on_throw=None, **k):
    opts = {"case": kind, "paths": True}
    opts.update(k.pop("opts", {}))

    def requires(cx):
        return slice_ok(cx.a(0)) + [("a %s" % kind, op_of(cx).IS(kind.split()[0]))] + (req(cx) if req else [])

    def ensures(cx):
        return ens(cx)
    C.append(Contract(F, props, requires=requires, ensures=ensures, throws=throws, on_throw=on_throw, modifies=modifies, opts=opts, **k))


def err(cx):
    return cx.ret.maybe_error.HAS


def follow(cx):
    return cx.ret.followup_instructions


def untouched(cx):
    return cx.a(0) == cx.b(0)


def at_ids(cx, k, fn):
    """every cell that holds id k became fn(before, after); all others are as they were"""
    s0, s1 = cx.a(0), cx.b(0)
    r, c = z3.Int("r!ai"), z3.Int("c!ai")
    o0, o1 = at_rc(s0, r, c), at_rc(s1, r, c)
    return And(same_shape(s0, s1), FA([r, c], z3.Implies(in_rc(s0, r, c), Ite(has_id(o0, k), fn(o0, o1), o1.T == o0.T)), patterns=[o1.T]))


def refusal(cx, bad, what):
    return [("refused exactly when %s" % what, err(cx) == bad), ("a refusal changes nothing", Implies(bad, untouched(cx))), ("no followups on refusal", Implies(bad, follow(cx).LEN == 0))]


# ---------------------------------------------------------------- measurement of one patch
def _spm(cx):
    k = op_of(cx).AS("SinglePatchMeasurement").target
    s0 = cx.a(0)
    bad = Not(present(s0, k))
    one_ = lambda a, b: And(b.HAS, same_identity(a.VAL, b.VAL), bounds_eq(a.VAL, b.VAL), b.VAL.activity == pa(cx, "Measurement"))
    return refusal(cx, bad, "the patch is not on the lattice") + [("marks exactly that patch", Implies(Not(bad), at_ids(cx, k, one_))), ("nothing else of the slice", rest_same(s0, cx.b(0), "cells")), ("no followups", follow(cx).LEN == 0)]


U = lambda cx: [("ids are unique", uniq(cx.a(0)))]
case("SinglePatchMeasurement", ("C10",), U, _spm)


# ---------------------------------------------------------------- Paulis and Hadamard
def _sq(cx):
    q = op_of(cx).AS("SingleQubitOp")
    s0, s1 = cx.a(0), cx.b(0)
    k = q.target
    H = q.op == en(cx, SQ, "H")
    bad = Or(Not(present(s0, k)), some_active(cx, s0, k))
    turned = lambda a, b: And(b.HAS, same_identity(a.VAL, b.VAL), b.VAL.activity == pa(cx, "Unitary"), quarter(a.VAL.boundaries, b.VAL.boundaries))
    return refusal(cx, bad, "the patch is missing or busy") + [("Hadamard turns exactly that patch", Implies(And(Not(bad), H), at_ids(cx, k, turned))), ("a Pauli changes no patch", Implies(And(Not(bad), Not(H)), s0 == s1)),
                                                               ("nothing else of the slice", rest_same(s0, s1, "cells")), ("no followups", follow(cx).LEN == 0)]


case("SingleQubitOp X Y Z H", ("C10",), lambda cx: U(cx) + [("not S", op_of(cx).AS("SingleQubitOp").op != en(cx, SQ, "S"))], _sq)


# ---------------------------------------------------------------- S by a twist-based merge with itself
def edpc(cx):
    return abstract(cx.a(6), "lsqecc::Router::get_EDPC", "bool")


def merge_args(cx, *args):
    return route(cx, r=cx.a(6), s=cx.a(0), args=list(args))


def counter(cx):
    return cx.pre["g:multi_body_measurement_op_id_counter"], cx.post.get("g:multi_body_measurement_op_id_counter")


def merge_effect(cx, R, a, b, ok):
    s0, s1 = cx.a(0), cx.b(0)
    k0, k1 = counter(cx)
    ct = R.VAL.routing_region_id.CT
    op = V(s0.E, Ite(cx.a(4), cx.some(ct, k0).T, cx.none(ct).T), ct)
    return [("ids are used once", k1 == Ite(And(ok, cx.a(4)), k0 + 1, k0)), ("nothing else of the slice", rest_same(s0, s1, "cells"))] + [(l, Implies(ok, g)) for l, g in merged(cx, s0, s1, R.VAL.cells, a, b, op)]


def route_bad(cx, R):
    s, w = cx.a(0), R.VAL.cells
    i = z3.Int("i!mb")
    return And(R.HAS, Or(z3.Not(distinct(w, w.LEN)), EX([i], And(rng(i, w.LEN), at(s, w[i].cell).HAS))))


def merge_req(cx, R, a, b):
    return U(cx) + [("the router answers with a route", Implies(And(present(cx.a(0), a), present(cx.a(0), b)), route_ok(cx.a(0), R, a, b))), ("ids left", counter(cx)[0] < (1 << 31) - 1)]


PX, PZ = (lambda cx: po(cx, "X")), (lambda cx: po(cx, "Z"))


def s_route(cx):
    k = op_of(cx).AS("SingleQubitOp").target
    return merge_args(cx, k, po(cx, "X"), k, po(cx, "Z"))


def _s(cx):
    q = op_of(cx).AS("SingleQubitOp")
    k = q.target
    s0 = cx.a(0)
    R = s_route(cx)
    bad = Or(Not(present(s0, k)), some_active(cx, s0, k), Not(R.HAS))
    f = follow(cx)
    z = f[0].operation.AS("SingleQubitOp")
    return [("refused exactly when missing, busy or without route", err(cx) == bad), ("a refusal changes nothing", Implies(bad, untouched(cx))), ("no followups on refusal", Implies(bad, f.LEN == 0)),
            ("a Z correction follows", Implies(Not(bad), And(f.LEN == 1, f[0].operation.IS("SingleQubitOp"), z.target == k, z.op == en(cx, SQ, "Z"))))] + merge_effect(cx, R, k, k, Not(bad))


GL = {"globals": [COUNTER]}
GM = ((0, "cells"), ("g:multi_body_measurement_op_id_counter",))
case("SingleQubitOp S", ("C10",), lambda cx: merge_req(cx, s_route(cx), op_of(cx).AS("SingleQubitOp").target, op_of(cx).AS("SingleQubitOp").target) + [("S", op_of(cx).AS("SingleQubitOp").op == en(cx, SQ, "S"))],
     _s, throws=lambda cx: Or(edpc(cx), route_bad(cx, s_route(cx))), on_throw=lambda cx: [("refused for edge-disjoint paths: slice as it was", Implies(edpc(cx), untouched(cx)))], modifies=GM, opts=GL)


# ---------------------------------------------------------------- joint measurement by routing
def pair(cx):
    ob = op_of(cx).AS("MultiPatchMeasurement").observable
    return ob.KEY(0), ob[ob.KEY(0)], ob.KEY(1), ob[ob.KEY(1)]


def mm_route(cx):
    return merge_args(cx, *pair(cx))


def _mm(cx):
    a, x, b, y = pair(cx)
    s0 = cx.a(0)
    R = mm_route(cx)
    bad = Or(Not(present(s0, a)), Not(present(s0, b)), some_active(cx, s0, a), some_active(cx, s0, b), Not(R.HAS))
    return refusal(cx, bad, "a patch is missing or busy or there is no route") + [("no followups", follow(cx).LEN == 0)] + merge_effect(cx, R, a, b, Not(bad))


def two(cx):
    return op_of(cx).AS("MultiPatchMeasurement").observable.LEN == 2


case("MultiPatchMeasurement routed", ("C10",), lambda cx: merge_req(cx, mm_route(cx), pair(cx)[0], pair(cx)[2]) + [("not local", Not(cx.a(2)))], _mm,
     throws=lambda cx: Or(Not(two(cx)), edpc(cx), route_bad(cx, mm_route(cx))), on_throw=lambda cx: [("refused: slice as it was", Implies(Or(Not(two(cx)), edpc(cx)), untouched(cx)))], modifies=GM, opts=GL)


# ---------------------------------------------------------------- joint measurement of touching patches
def _cells(cx, fn):
    """for the cells of the two patches"""
    a, x, b, y = pair(cx)
    s0 = cx.a(0)
    r, c, r2, c2 = [z3.Int(n + "!lm") for n in ("r", "c", "r2", "c2")]
    o, p = at_rc(s0, r, c), at_rc(s0, r2, c2)
    return (r, c, r2, c2), And(in_rc(s0, r, c), in_rc(s0, r2, c2), has_id(o, a), has_id(p, b)), fn(RC(r, c), RC(r2, c2), o, p, x, y), MP(o.T, p.T)


def exposes(cx, p, me, other, op):
    """the side of patch p facing `other` does not contradict operator op"""
    out = []
    for s, dr, dc in SIDES:
        t = p.boundaries.F(s).boundary_type
        out.append(Implies(cell_is(other, me.row + dr, me.col + dc), And(Implies(t == bt(cx, "Rough"), op == po(cx, "X")), Implies(t == bt(cx, "Smooth"), op == po(cx, "Z")))))
    return And(*out)


def fits(cx):
    """the patches touch with the boundaries of the measured operators"""
    v, dom, body, pat = _cells(cx, lambda me, he, o, p, x, y: And(adjacent(me, he), exposes(cx, o.VAL, me, he, x), exposes(cx, p.VAL, he, me, y)))
    return FA(list(v), z3.Implies(dom, body), patterns=[pat])


def facing_on(o0, o1, me, he):
    out = [o1.HAS, same_identity(o0.VAL, o1.VAL), o1.VAL.activity == o0.VAL.activity]
    for s, dr, dc in SIDES:
        x, y = o0.VAL.boundaries.F(s), o1.VAL.boundaries.F(s)
        out += [y.boundary_type == x.boundary_type, y.is_active == Or(x.is_active, cell_is(he, me.row + dr, me.col + dc))]
    return And(*out)


def _lm(cx):
    a, x, b, y = pair(cx)
    s0, s1 = cx.a(0), cx.b(0)
    bad = Or(Not(present(s0, a)), Not(present(s0, b)), some_active(cx, s0, a), some_active(cx, s0, b))

    def eff(me, he, o, p, x, y):
        o1, p1 = at_rc(s1, me.row, me.col), at_rc(s1, he.row, he.col)
        return And(facing_on(o, o1, me, he), facing_on(p, p1, he, me))
    v, dom, body, pat = _cells(cx, eff)
    r, c = z3.Int("r!le"), z3.Int("c!le")
    o0, o1 = at_rc(s0, r, c), at_rc(s1, r, c)
    return [("refused exactly when a patch is missing or busy", err(cx) == bad), ("a refusal changes nothing", Implies(bad, cells_same_except(s0, s1))), ("no followups", follow(cx).LEN == 0),
            ("measured only through boundaries that show the operators", Implies(Not(bad), fits(cx))),
            ("exactly the touching boundaries become active", Implies(Not(bad), FA(list(v), z3.Implies(dom, body), patterns=[pat]))),
            ("no other cell changes", And(same_shape(s0, s1), FA([r, c], z3.Implies(And(in_rc(s0, r, c), Not(has_id(o0, a)), Not(has_id(o0, b))), o1.T == o0.T), patterns=[o1.T]))),
            ("nothing else of the slice", rest_same(s0, s1, "cells"))]


case("MultiPatchMeasurement local", ("C10",), lambda cx: U(cx) + [("local", cx.a(2))], _lm,
     throws=lambda cx: Or(Not(two(cx)), Not(fits(cx))), on_throw=lambda cx: [("refused: slice as it was", untouched(cx))], modifies=((0, "cells"), (1,)))


# ---------------------------------------------------------------- initialisation
def add(qual, **k):
    C.append(Contract(qual, k.pop("props", ("C10",)), **k))


def first_free(sl, lst, n):
    """no free cell among the first n of the list"""
    i = z3.Int("i!ff")
    return FA([i], z3.Implies(rng(i, n), at(sl, lst[i]).HAS), patterns=[lst[i].T])


def _ffa(cx):
    lay, sl, r = cx.a(0), cx.a(1), cx.ret
    lst = abstract(lay, LAY + "ancilla_location", "std::vector<lsqecc::Cell>")
    i = z3.Int("i!fa")
    return [("none exactly when all are taken", Implies(Not(r.HAS), first_free(sl, lst, lst.LEN))),
            ("the first free one", Implies(r.HAS, And(inside(sl, r.VAL), Not(at(sl, r.VAL).HAS), EX([i], And(rng(i, lst.LEN), lst[i].T == r.VAL.T, first_free(sl, lst, i)), patterns=[lst[i].T]))))]


def _ffa_inv(lp):
    cx = lp.eng.topctx
    lst = abstract(cx.a(0), LAY + "ancilla_location", "std::vector<lsqecc::Cell>")
    return [(first_free(cx.a(1), lst, lp.it), "hint all taken so far")]


def anc_ok(sl, lay):
    lst = abstract(lay, LAY + "ancilla_location", "std::vector<lsqecc::Cell>")
    i = z3.Int("i!ao")
    return [("length", lst.LEN >= 0), ("ancilla cells lie in the grid", FA([i], z3.Implies(rng(i, lst.LEN), inside(sl, lst[i])), patterns=[lst[i].T]))]


add("lsqecc::find_free_ancilla_location", requires=lambda cx: slice_ok(cx.a(1)) + anc_ok(cx.a(1), cx.a(0)), ensures=_ffa, loops=[_ffa_inv], opts={"paths": True})


def shows(cx, sl, o, me, he, op):
    """free neighbour on a side of o that shows the operator"""
    want = Ite(op == po(cx, "X"), bt(cx, "Rough"), bt(cx, "Smooth"))
    return And(inside(sl, he), Not(at(sl, he).HAS), Or(*[And(cell_is(he, me.row + dr, me.col + dc), o.VAL.boundaries.F(s).boundary_type == want) for s, dr, dc in SIDES]))


def _pan(cx):
    sl, k, op, r = cx.a(0), cx.a(1), cx.a(2), cx.ret
    i, j = z3.Int("i!pn"), z3.Int("j!pn")
    o = at_rc(sl, i, j)
    dom = And(in_rc(sl, i, j), has_id(o, k))
    some = lambda: Or(*[shows(cx, sl, o, RC(i, j), RC(i + dr, j + dc), op) for s, dr, dc in SIDES])
    return [("a free neighbour on a side that shows the operator", Implies(r.HAS, FA([i, j], z3.Implies(dom, shows(cx, sl, o, RC(i, j), r.VAL, op)), patterns=[o.T]))),
            ("the neighbour is free", Implies(r.HAS, And(inside(sl, r.VAL), Not(at(sl, r.VAL).HAS)))),
            ("none exactly when there is no such neighbour", Implies(Not(r.HAS), FA([i, j], z3.Implies(dom, Not(some())), patterns=[o.T])))]


def pan_throws(cx, sl, k, op):
    return Or(Not(present(sl, k)), op == po(cx, "I"), op == po(cx, "Y"))


add("lsqecc::place_ancilla_next_to", requires=lambda cx: slice_ok(cx.a(0)) + [("ids are unique", uniq(cx.a(0)))], throws=lambda cx: pan_throws(cx, cx.a(0), cx.a(1), cx.a(2)), ensures=_pan, opts={"paths": True})


def _init(cx):
    q = op_of(cx).AS("PatchInit")
    s0, s1, e = cx.a(0), cx.b(0), err(cx)
    lst = abstract(cx.a(5), LAY + "ancilla_location", "std::vector<lsqecc::Cell>")
    nx = q.place_next_to
    i, j = z3.Int("i!pi"), z3.Int("j!pi")
    o = at_rc(s0, i, j)
    r, c, r2, c2 = [z3.Int(n + "!pj") for n in ("r", "c", "r2", "c2")]
    dom = And(in_rc(s0, i, j), has_id(o, nx.VAL.target))
    norm = Or(*[shows(cx, s0, o, RC(i, j), RC(i + dr, j + dc), nx.VAL.op) for s, dr, dc in SIDES])
    a, b = at_rc(s0, r, c), at_rc(s1, r, c)
    filled = And(Not(a.HAS), patch_basic(b, V(s0.E, cx.some(b.VAL.id.CT, q.target).T, b.VAL.id.CT), cx=cx), Not(dense_active(cx, b.VAL)),
                 Implies(nx.HAS, FA([i, j], z3.Implies(dom, shows(cx, s0, o, RC(i, j), RC(r, c), nx.VAL.op)), patterns=[o.T])),
                 Implies(Not(nx.HAS), EX([i], And(rng(i, lst.LEN), cell_is(lst[i], r, c), first_free(s0, lst, i)), patterns=[lst[i].T])))
    a2, b2 = at_rc(s0, r2, c2), at_rc(s1, r2, c2)
    return [("refused: slice as it was", Implies(e, untouched(cx))), ("refused exactly without room", Implies(And(e, Not(nx.HAS)), first_free(s0, lst, lst.LEN))),
            ("refused exactly without room next to the patch", Implies(And(e, nx.HAS), FA([i, j], z3.Implies(dom, Not(norm)), patterns=[o.T]))),
            ("no followups", follow(cx).LEN == 0), ("nothing else of the slice", rest_same(s0, s1, "cells")), ("shape", same_shape(s0, s1)),
            ("a changed cell was free and holds exactly the new patch", FA([r, c], z3.Implies(in_rc(s0, r, c), Or(b.T == a.T, filled)), patterns=[b.T])),
            ("at most one cell changes", FA([r, c, r2, c2], z3.Implies(And(in_rc(s0, r, c), in_rc(s0, r2, c2), b.T != a.T, b2.T != a2.T), And(r == r2, c == c2)), patterns=[MP(b.T, b2.T)])),
            ("the requested patch is there", Implies(Not(e), present(s1, q.target)))]


case("PatchInit", ("C10",), lambda cx: U(cx) + anc_ok(cx.a(0), cx.a(5)), _init,
     throws=lambda cx: And(op_of(cx).AS("PatchInit").place_next_to.HAS, pan_throws(cx, cx.a(0), op_of(cx).AS("PatchInit").place_next_to.VAL.target, op_of(cx).AS("PatchInit").place_next_to.VAL.op)),
     on_throw=lambda cx: [("refused: slice as it was", untouched(cx))])


# ---------------------------------------------------------------- resets
case("PatchReset", ("C10",), None, lambda cx: [("accepted", Not(err(cx))), ("changes nothing", untouched(cx)), ("no followups", follow(cx).LEN == 0)])


# ---------------------------------------------------------------- rotation: start
def _rot(cx):
    k = op_of(cx).AS("RotateSingleCellPatch").target
    s0, s1, f = cx.a(0), cx.b(0), follow(cx)
    B_ = f[0].operation.AS("BusyRegion")
    w = B_.region.cells
    me, spare = w[0].cell, w[1].cell
    o = at(s0, me)
    q = B_.state_after_clearing[0]
    r, c = z3.Int("r!rt"), z3.Int("c!rt")
    o0 = at_rc(s0, r, c)
    none_free = FA([r, c], z3.Implies(And(in_rc(s0, r, c), has_id(o0, k)), Not(Or(*[And(inside(s0, RC(r + dr, c + dc)), Not(at_rc(s0, r + dr, c + dc).HAS)) for _, dr, dc in SIDES]))), patterns=[o0.T])
    e = err(cx)
    act = Ite(o.VAL.activity == pa(cx, "Unitary"), pa(cx, "None"), o.VAL.activity)
    region = rotation_region(cx, B_, None, me, spare)
    rot = pa(cx, "Rotation")
    return [("refused: slice as it was", Implies(e, untouched(cx))), ("refused exactly when missing or without free neighbour", Implies(e, Or(Not(present(s0, k)), none_free))), ("no followups on refusal", Implies(e, f.LEN == 0)),
            ("one region follows for two more steps", Implies(Not(e), And(f.LEN == 1, f[0].operation.IS("BusyRegion"), B_.steps_to_clear == 2)))] + [(l, Implies(Not(e), g)) for l, g in region] + [
        ("the patch's own cell and a free neighbour", Implies(Not(e), And(inside(s0, me), has_id(o, k), inside(s0, spare), Not(at(s0, spare).HAS), adjacent(me, spare)))),
        ("the same patch comes back", Implies(Not(e), And(q.type == o.VAL.type, q.activity == act, q.id == o.VAL.id, q.label == o.VAL.label, q.operation_id == o.VAL.operation_id, single(q), same_cell(one(q).cell, me)))),
        ("quarter turn", Implies(Not(e), quarter(o.VAL.boundaries, one(q)))),
        ("both cells are busy", Implies(Not(e), And(claimed(cx, at(s1, me), w[0], rot, B_.region.routing_region_id), claimed(cx, at(s1, spare), w[1], rot, B_.region.routing_region_id)))),
        ("no other cell changes", Implies(Not(e), cells_same_except(s0, s1, me, spare))), ("nothing else of the slice", rest_same(s0, s1, "cells"))]


def _rot_inv(lp):
    cx = lp.eng.topctx
    k = op_of(cx).AS("RotateSingleCellPatch").target
    s0 = cx.a(0)
    out = []
    for l in lp.locs:
        if l.name.split("#")[0] == "free_neighbour":
            n = V(lp.eng, l.h, l.ct)
            w = cx.wrap(lp.eng.load(lp.s0, lp.cont))
            r, c, i = z3.Int("r!ri"), z3.Int("c!ri"), z3.Int("i!ri")
            o = at_rc(s0, r, c)
            out.append((Implies(n.HAS, And(inside(s0, n.VAL), Not(at(s0, n.VAL).HAS), FA([r, c], z3.Implies(And(in_rc(s0, r, c), has_id(o, k)), adjacent(n.VAL, RC(r, c))), patterns=[o.T]))), "hint a free neighbour"))
            out.append((Implies(Not(n.HAS), And(*[Implies(q < lp.it, at(s0, w[q]).HAS) for q in range(4)])), "hint none so far"))
    return out


case("RotateSingleCellPatch", ("C07", "C10"), U, _rot, loops=[_rot_inv])


# ---------------------------------------------------------------- a busy region: wait, then release
def region_of(cx):
    return op_of(cx).AS("BusyRegion")


def _busy(cx):
    b, f = region_of(cx), follow(cx)
    n = f[0].operation.AS("BusyRegion")
    return [("accepted", Not(err(cx))), ("changes nothing", untouched(cx)), ("the same region for one step less", And(f.LEN == 1, f[0].operation.IS("BusyRegion"), n.region == b.region, n.state_after_clearing == b.state_after_clearing, n.steps_to_clear == b.steps_to_clear - 1))]


def held(cx):
    b = region_of(cx)
    return [cells_inside(cx.a(0), b.region.cells), ("distinct", distinct(b.region.cells, b.region.cells.LEN)), ("held", routed(cx, cx.a(0), b.region.cells))]


case("BusyRegion waiting", ("C07", "C10"), lambda cx: held(cx) + [("time left", region_of(cx).steps_to_clear > 0)], _busy)


def back_ok(cx):
    """the patches that reappear are single cells of the region, all different"""
    b = region_of(cx)
    q, w = b.state_after_clearing, b.region.cells
    j, j2, i = z3.Int("j!bk"), z3.Int("l!bk"), z3.Int("i!bk")
    c = lambda j: one(q[j]).cell
    return [("length", And(q.LEN >= 0, w.LEN >= 0)), ("single cells of the region", FA([j], z3.Implies(rng(j, q.LEN), And(single(q[j]), inside(cx.a(0), c(j)), EX([i], And(rng(i, w.LEN), same_cell(w[i].cell, c(j))), patterns=[w[i].T]))), patterns=[q[j].T])),
            ("each its own", FA([j, j2], z3.Implies(And(rng(j, q.LEN), rng(j2, q.LEN), same_cell(c(j), c(j2))), j == j2), patterns=[MP(q[j].T, q[j2].T)]))]


def released(cx, s0, s1, q, w, n):
    """region w is released and the first n of the patches q are back"""
    i, j, r, c = [z3.Int(x + "!rl") for x in "ijrc"]
    o0, o1 = at_rc(s0, r, c), at_rc(s1, r, c)
    cj = lambda j: one(q[j]).cell
    here = EX([i], And(rng(i, w.LEN), w[i].cell.row == r, w[i].cell.col == c), patterns=[w[i].T])
    back = EX([j], And(0 <= j, j < n, cj(j).row == r, cj(j).col == c), patterns=[q[j].T])
    return [("every patch is back", FA([j], z3.Implies(And(0 <= j, j < n), holds(at(s1, cj(j)), q[j])), patterns=[q[j].T])),
            ("the other cells of the region are free", FA([i], z3.Implies(rng(i, w.LEN), Or(Not(at(s1, w[i].cell).HAS), EX([j], And(0 <= j, j < n, same_cell(cj(j), w[i].cell)), patterns=[q[j].T]))), patterns=[w[i].T])),
            ("no cell outside the region changes", And(same_shape(s0, s1), FA([r, c], z3.Implies(in_rc(s0, r, c), Or(o1.T == o0.T, here)), patterns=[o1.T])))]


def _rel_inv(lp):
    cx = lp.eng.topctx
    if not changes(lp, 0) or lp.cont is None or lp.eng.lvct(lp.s0, lp.cont).elem.key != "lsqecc::SparsePatch":
        return []
    b = region_of(cx)
    s0, s1 = cx.a(0), cur_of(lp, 0)
    return [(g, "hint " + l) for l, g in released(cx, s0, s1, b.state_after_clearing, b.region.cells, lp.it)] + [(rest_same(s0, s1, "cells"), "hint rest")]


def _rel(cx):
    b = region_of(cx)
    return [("accepted", Not(err(cx))), ("no followups", follow(cx).LEN == 0), ("nothing else of the slice", rest_same(cx.a(0), cx.b(0), "cells"))] + released(cx, cx.a(0), cx.b(0), b.state_after_clearing, b.region.cells, b.state_after_clearing.LEN)


case("BusyRegion ending", ("C07", "C10"), lambda cx: held(cx) + back_ok(cx) + [("time is up", region_of(cx).steps_to_clear <= 0)], _rel, loops=[_rel_inv])

# ---------------------------------------------------------------- states on request
def pool_ok(sl):
    """every recorded magic state is a patch of the grid"""
    m = sl.magic_states
    k = z3.Const("k!po", sl.E.T.sort(m.CT.elem))
    K = V(sl.E, k, m.CT.elem)
    return [("recorded magic states exist", FA([k], z3.Implies(m.IN(K), And(inside(sl, K), at(sl, K).HAS)), patterns=[m.IN(K)]))]


def taken(cx, q, o0, o1):
    """o1 is the patch o0, now the qubit q.target"""
    a, b = o0.VAL, o1.VAL
    return And(o0.HAS, o1.HAS, b.type == pt(cx, "Qubit"), b.activity == pa(cx, "None"), b.id.HAS, b.id.VAL == q.target, b.label == a.label, b.operation_id == a.operation_id, b.boundaries == a.boundaries)


def _magic(cx):
    q = op_of(cx).AS("MagicStateRequest")
    s0, s1, e = cx.a(0), cx.b(0), err(cx)
    m0, m1 = s0.magic_states, s1.magic_states
    el = m0.CT.elem
    k, k2 = z3.Const("k!ms", cx.a(0).E.T.sort(el)), z3.Const("l!ms", cx.a(0).E.T.sort(el))
    K, K2 = V(s0.E, k, el), V(s0.E, k2, el)
    r, c = z3.Int("r!ms"), z3.Int("c!ms")
    o0, o1 = at_rc(s0, r, c), at_rc(s1, r, c)
    gone = And(m0.IN(K), Not(m1.IN(K)))
    return [("refused exactly when none is available", e == (m0.LEN == 0)), ("refused: slice as it was", Implies(e, untouched(cx))), ("no followups", follow(cx).LEN == 0),
            ("one state fewer", Implies(Not(e), m1.LEN == m0.LEN - 1)), ("nothing recorded", FA([k], z3.Implies(m1.IN(K), m0.IN(K)), patterns=[m1.IN(K)])),
            ("only one is taken", FA([k, k2], z3.Implies(And(gone, m0.IN(K2), Not(m1.IN(K2))), k == k2), patterns=[MP(m0.IN(K), m0.IN(K2))])),
            ("the state taken gets the requested id", FA([k], z3.Implies(gone, taken(cx, q, at(s0, K), at(s1, K))), patterns=[m0.IN(K)])),
            ("some state is taken", Implies(Not(e), EX([k], gone, patterns=[m0.IN(K)]))),
            ("no other cell changes", And(same_shape(s0, s1), FA([r, c], z3.Implies(And(in_rc(s0, r, c), o1.T != o0.T), EX([k], And(gone, cell_is(K, r, c)), patterns=[m0.IN(K)])), patterns=[o1.T]))),
            ("nothing else of the slice", rest_same(s0, s1, "cells", "magic_states"))]


def _magic_inv(lp):
    cx = lp.eng.topctx
    m0 = cx.a(0).magic_states
    out, dist = [], None
    for l in lp.locs:
        if l.name.split("#")[0] == "min_cell":
            n = V(lp.eng, l.h, l.ct)
            out += [(Implies(n.HAS, m0.IN(n.VAL)), "hint one of them"), (Implies(Not(n.HAS), lp.it == 0), "hint none before the first")]
            none = Not(n.HAS)
        if l.name.split("#")[0] == "min_dist":
            dist = l
    if dist is not None and out:
        out.append((Implies(none, dist.h == dist.x0), "hint distance as at the start"))
    return out


def d_times(cx):
    return abstract(cx.a(5), LAY + "distillation_times", "std::vector<lsqecc::SurfaceCodeTimestep>")


case("MagicStateRequest", ("C10",), lambda cx: U(cx) + pool_ok(cx.a(0)), _magic, throws=lambda cx: Or(d_times(cx).LEN == 0, Not(present(cx.a(0), op_of(cx).AS("MagicStateRequest").near_patch))),
     on_throw=lambda cx: [("slice as it was", untouched(cx))], modifies=((0, "cells"), (0, "magic_states")), loops=[_magic_inv])


def yreq(cx):
    return op_of(cx).AS("YStateRequest")


def yst(cx):
    return abstract(cx.a(5), LAY + "predistilled_y_states", "std::vector<lsqecc::Cell>")


def avail(s):
    return s.predistilled_ystates_available


def _yback(cx):
    q, s0, s1 = yreq(cx), cx.a(0), cx.b(0)

    def freed(a, b):
        x, y = a.VAL, b.VAL
        return And(b.HAS, Not(y.id.HAS), y.type == x.type, y.activity == x.activity, y.label == x.label, y.operation_id == x.operation_id, y.boundaries == x.boundaries)
    return [("accepted", Not(err(cx))), ("no followups", follow(cx).LEN == 0), ("gives up exactly that patch's id", at_ids(cx, q.target, freed)), ("one more available", avail(s1) == avail(s0) + 1),
            ("nothing else of the slice", rest_same(s0, s1, "cells", "predistilled_ystates_available"))]


YM = ((0, "cells"), (0, "predistilled_ystates_available"))
case("YStateRequest returned", ("C10",), lambda cx: U(cx) + [("bound", present(cx.a(0), yreq(cx).target)), ("count", avail(cx.a(0)) < (1 << 32) - 1)], _yback, modifies=YM)


def unbound(cx, o):
    return And(o.HAS, Not(o.VAL.id.HAS), Not(dense_active(cx, o.VAL)))


def _ytake(cx):
    q, s0, s1, e, lst = yreq(cx), cx.a(0), cx.b(0), err(cx), yst(cx)
    i, r, c, r2, c2 = [z3.Int(x + "!yt") for x in ("i", "r", "c", "k", "l")]
    o0, o1, p0, p1 = at_rc(s0, r, c), at_rc(s1, r, c), at_rc(s0, r2, c2), at_rc(s1, r2, c2)
    x, y = o0.VAL, o1.VAL
    got = And(o1.HAS, y.id.HAS, y.id.VAL == q.target, unbound(cx, o0), y.type == x.type, y.activity == x.activity, y.label == x.label, y.operation_id == x.operation_id, y.boundaries == x.boundaries,
              EX([i], And(rng(i, lst.LEN), cell_is(lst[i], r, c)), patterns=[lst[i].T]))
    return [("refused exactly when none is idle and unbound", e == FA([i], z3.Implies(rng(i, lst.LEN), Not(unbound(cx, at(s0, lst[i])))), patterns=[lst[i].T])), ("refused: slice as it was", Implies(e, untouched(cx))),
            ("no followups", follow(cx).LEN == 0), ("one fewer available", Implies(Not(e), avail(s1) == avail(s0) - 1)),
            ("a changed cell is an idle unbound Y state that got the id", And(same_shape(s0, s1), FA([r, c], z3.Implies(in_rc(s0, r, c), Or(o1.T == o0.T, got)), patterns=[o1.T]))),
            ("at most one cell changes", FA([r, c, r2, c2], z3.Implies(And(in_rc(s0, r, c), in_rc(s0, r2, c2), o1.T != o0.T, p1.T != p0.T), And(r == r2, c == c2)), patterns=[MP(o1.T, p1.T)])),
            ("the state has the requested id", Implies(Not(e), present(s1, q.target))), ("nothing else of the slice", rest_same(s0, s1, "cells", "predistilled_ystates_available"))]


def _ytake_inv(lp):
    cx = lp.eng.topctx
    lst, s0 = yst(cx), cx.a(0)
    i = z3.Int("i!yi")
    out, dist = [], None
    for l in lp.locs:
        if l.name.split("#")[0] == "min_cell":
            n = V(lp.eng, l.h, l.ct)
            none = Not(n.HAS)
            out += [(Implies(n.HAS, And(inside(s0, n.VAL), unbound(cx, at(s0, n.VAL)), EX([i], And(0 <= i, i < lp.it, lst[i].T == n.VAL.T), patterns=[lst[i].T]))), "hint one of them"),
                    (Implies(none, FA([i], z3.Implies(And(0 <= i, i < lp.it), Not(unbound(cx, at(s0, lst[i])))), patterns=[lst[i].T])), "hint none so far")]
        if l.name.split("#")[0] == "min_dist":
            dist = l
    if dist is not None and out:
        out.append((Implies(none, dist.h == dist.x0), "hint distance as at the start"))
    return out


def y_in(cx):
    lst, i = yst(cx), z3.Int("i!yn")
    return [("length", lst.LEN >= 0), ("Y state cells lie in the grid", FA([i], z3.Implies(rng(i, lst.LEN), inside(cx.a(0), lst[i])), patterns=[lst[i].T]))]


def pool_mode(cx):
    return And(Not(And(cx.a(2), cx.a(3))), avail(cx.a(0)) != 0)


case("YStateRequest taken", ("C10",), lambda cx: U(cx) + y_in(cx) + [("not bound", Not(present(cx.a(0), yreq(cx).target))), ("there are predistilled states", pool_mode(cx)), ("count", avail(cx.a(0)) >= 0)], _ytake,
     throws=lambda cx: Not(present(cx.a(0), yreq(cx).near_patch)), on_throw=lambda cx: [("slice as it was", untouched(cx))], modifies=YM, loops=[_ytake_inv])


def _ynew(cx):
    q, s0, s1, e = yreq(cx), cx.a(0), cx.b(0), err(cx)
    i, j, r, c, r2, c2 = [z3.Int(x + "!yw") for x in ("i", "j", "r", "c", "k", "l")]
    o = at_rc(s0, i, j)
    dom = And(in_rc(s0, i, j), has_id(o, q.near_patch))
    o0, o1, p0, p1 = at_rc(s0, r, c), at_rc(s1, r, c), at_rc(s0, r2, c2), at_rc(s1, r2, c2)
    Z_ = po(cx, "Z")

    def smooth(o, me, he):
        return And(inside(s0, he), Not(at(s0, he).HAS), Or(*[And(cell_is(he, me.row + dr, me.col + dc), o.VAL.boundaries.F(s).boundary_type == bt(cx, "Smooth")) for s, dr, dc in SIDES]))
    some = Or(*[smooth(o, RC(i, j), RC(i + dr, j + dc)) for s, dr, dc in SIDES])
    made = And(Not(o0.HAS), patch_basic(o1, V(s0.E, cx.some(o1.VAL.id.CT, q.target).T, o1.VAL.id.CT), activity=pa(cx, "Unitary"), cx=cx), FA([i, j], z3.Implies(dom, smooth(o, RC(i, j), RC(r, c))), patterns=[o.T]))
    return [("refused: slice as it was", Implies(e, untouched(cx))), ("refused exactly without twists or without a free cell at a Z edge", e == Or(Not(cx.a(3)), FA([i, j], z3.Implies(dom, Not(some)), patterns=[o.T]))), ("no followups", follow(cx).LEN == 0),
            ("a changed cell was free, touches a Z edge of the patch and holds exactly the new state", And(same_shape(s0, s1), FA([r, c], z3.Implies(in_rc(s0, r, c), Or(o1.T == o0.T, made)), patterns=[o1.T]))),
            ("at most one cell changes", FA([r, c, r2, c2], z3.Implies(And(in_rc(s0, r, c), in_rc(s0, r2, c2), o1.T != o0.T, p1.T != p0.T), And(r == r2, c == c2)), patterns=[MP(o1.T, p1.T)])),
            ("the state has the requested id", Implies(Not(e), present(s1, q.target))), ("nothing else of the slice", rest_same(s0, s1, "cells"))]


def _ynew_inv(lp):
    cx = lp.eng.topctx
    q, s0 = yreq(cx), cx.a(0)
    out = []
    for l in lp.locs:
        if l.name.split("#")[0] == "z_neighbour":
            n = V(lp.eng, l.h, l.ct)
            w = cx.wrap(lp.eng.load(lp.s0, lp.cont))
            r, c = z3.Int("r!yv"), z3.Int("c!yv")
            o = at_rc(s0, r, c)

            def smooth(he):
                return And(Not(at(s0, he).HAS), FA([r, c], z3.Implies(And(in_rc(s0, r, c), has_id(o, q.near_patch)), Or(*[And(cell_is(he, r + dr, c + dc), o.VAL.boundaries.F(s).boundary_type == bt(cx, "Smooth")) for s, dr, dc in SIDES])), patterns=[o.T]))
            out.append((Implies(n.HAS, And(inside(s0, n.VAL), smooth(n.VAL))), "hint a free cell at a Z edge"))
            out.append((Implies(Not(n.HAS), And(*[Implies(k < lp.it, Not(smooth(w[k]))) for k in range(4)])), "hint none so far"))
    return out


case("YStateRequest prepared", ("C10",), lambda cx: U(cx) + [("not bound", Not(present(cx.a(0), yreq(cx).target))), ("no predistilled state to use", Not(pool_mode(cx))), ("count", avail(cx.a(0)) >= 0)], _ynew,
     throws=lambda cx: And(cx.a(3), Not(present(cx.a(0), yreq(cx).near_patch))), on_throw=lambda cx: [("slice as it was", untouched(cx))], modifies=((0, "cells"), (1,)), loops=[_ynew_inv])

CONTRACTS = C
