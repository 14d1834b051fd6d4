"""Specification vocabulary shared by the contracts."""
import z3
from contract import Contract, Lemma, V, forall, exists, Implies, Ctx
from vals import And, Or, Not, Ite, B, Z, FA
from ctypes_ import Unsupported

BT = "lsqecc::BoundaryType"
PT = "lsqecc::PatchType"
PA = "lsqecc::PatchActivity"
PO = "lsqecc::PauliOperator"
CD = "lsqecc::CellDirection"


def en(cx, e, n):
    return cx.enum(e, n)


def bt(cx, n):
    return cx.enum(BT, n)


def pt(cx, n):
    return cx.enum(PT, n)


def pa(cx, n):
    return cx.enum(PA, n)


def po(cx, n):
    return cx.enum(PO, n)


def cd(cx, n):
    return cx.enum(CD, n)


def MP(*ts):
    """several terms that trigger together; dropped where they are no valid trigger"""
    try:
        return z3.MultiPattern(*ts)
    except z3.Z3Exception:
        return z3.BoolVal(True)


def EX(vs, body, patterns=()):
    """existential; triggers that are no valid ones are dropped"""
    try:
        return z3.Exists(vs, body, patterns=list(patterns))
    except z3.Z3Exception:
        return z3.Exists(vs, body)


def opt_eq(o, has, val=None):
    """optional o has a value exactly when `has`, and then it is val"""
    r = o.HAS == has if not isinstance(has, bool) else (o.HAS if has else Not(o.HAS))
    if val is None:
        return r
    v = o.VAL
    return And(r, Implies(has, (v == val)))


def cell_is(c, r, k):
    return And(c.row == r, c.col == k)


def same_cell(a, b):
    return And(a.row == b.row, a.col == b.col)


def adjacent(a, b):
    dr, dc = a.row - b.row, a.col - b.col
    return Or(And(dc == 0, Or(dr == 1, dr == -1)), And(dr == 0, Or(dc == 1, dc == -1)))


def coord_ok(c, lo=-(1 << 30), hi=1 << 30):
    """coordinates far from the ends of the machine type"""
    return And(c.row >= lo, c.row <= hi, c.col >= lo, c.col <= hi)


# ---------------------------------------------------------------- slices
def layout_of(sl):
    E = sl.E
    lay = sl.layout
    el = lay.CT.elem
    f = E.uf("deref<%s>" % el.key, E.T.sort(lay.CT), E.T.sort(el))
    return V(E, f(lay.T), el)


def abstract(obj, qual, ret, *args):
    """the value an abstract const method returns"""
    E = obj.E
    rct = ret if not isinstance(ret, str) else E.T.parse(ret)
    sorts = [E.T.sort(obj.CT)]
    ts = [obj.T]
    for a in args:
        ts.append(a.T if isinstance(a, V) else a)
        sorts.append(ts[-1].sort())
    g = E.uf(qual + "/%d" % len(args), *(sorts + [E.T.sort(rct)]))
    t = g(*ts)
    return t if rct.kind in ("int", "bool", "enum", "real", "str") else V(E, t, rct)


def after(obj, qual):
    """state of an abstract object after a parameterless non-const call"""
    E = obj.E
    so = E.T.sort(obj.CT)
    return V(E, E.uf(qual + "/next", so, so)(obj.T), obj.CT)


def furthest(lay):
    return abstract(lay, "lsqecc::Layout::furthest_cell", "lsqecc::Cell")


def at(sl, c):
    return sl.cells[c.row][c.col]


def at_rc(sl, r, c):
    return sl.cells[r][c]


def inside(sl, c):
    return And(c.row >= 0, c.row < sl.cells.LEN, c.col >= 0, c.col < sl.cells[c.row].LEN)


def in_rc(sl, r, c):
    return And(r >= 0, r < sl.cells.LEN, c >= 0, c < sl.cells[r].LEN)


MAXDIM = 1 << 24


def slice_ok(sl, tag=""):
    """a slice has the dimensions of its layout (class invariant)"""
    f = furthest(layout_of(sl))
    i = z3.Int("r!ok")
    return [("rows", And(f.row >= 0, f.row < MAXDIM, f.col >= 0, f.col < MAXDIM, sl.cells.LEN == f.row + 1)),
            ("cols", FA([i], z3.Implies(z3.And(0 <= i, i < sl.cells.LEN), sl.cells[i].LEN == f.col + 1), patterns=[sl.cells[i].T]))]


def same_shape(a, b):
    i = z3.Int("r!sh")
    return And(a.cells.LEN == b.cells.LEN, FA([i], z3.Implies(z3.And(0 <= i, i < a.cells.LEN), a.cells[i].LEN == b.cells[i].LEN), patterns=[b.cells[i].T]))


def cells_same_except(a, b, *cells):
    """every cell of b holds what it held in a, except the given ones"""
    r, c = z3.Int("r!fr"), z3.Int("c!fr")
    ex = [And(r == x.row, c == x.col) for x in cells]
    return And(same_shape(a, b), FA([r, c], z3.Implies(And(in_rc(a, r, c), *[Not(e) for e in ex]), at_rc(b, r, c).T == at_rc(a, r, c).T), patterns=[at_rc(b, r, c).T]))


def rest_same(a, b, *changed):
    """every member of the slice other than `changed` is unchanged"""
    out = []
    for n in ("cells", "magic_states", "time_to_next_magic_state_by_distillation_region", "layout", "predistilled_ystates_available", "EDPC_crossing_vertices"):
        if n not in changed:
            x, y = a.F(n), b.F(n)
            out.append((x.T == y.T) if isinstance(x, V) else (x == y))
    return And(*out)


def boundary_side(bs, d, cx):
    """boundary of CellBoundaries on side d"""
    return {"top": bs.top, "bottom": bs.bottom, "left": bs.left, "right": bs.right}[d]


SIDES = (("top", -1, 0), ("bottom", 1, 0), ("left", 0, -1), ("right", 0, 1))
