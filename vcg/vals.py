"""Values, lvalues and symbolic states of the verification-condition generator."""
import z3
from ctypes_ import Unsupported


class Z:
    __slots__ = ("t", "ct")

    def __init__(self, t, ct):
        self.t, self.ct = t, ct

    def __repr__(self):
        return "Z(%s:%s)" % (str(self.t)[:80], self.ct.key)


class LV:
    """an access path: root variable + steps
       ('f',name) field   ('i',term) element   ('v',) value of an optional   ('a',k) alternative   ('t',k) tuple slot
       ('m',key) mapped value   ('cf',((cond,name),...)) a field chosen by conditions (last one is the default)"""
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def at(self, *step):
        return LV(self.root, self.path + (tuple(step),))

    def __repr__(self):
        return "LV(%s%s)" % (self.root, "".join("." + ":".join(str(x) for x in s) for s in self.path))


class P:
    """pointer / optional<reference_wrapper> / reference_wrapper: null unless `has`"""
    __slots__ = ("has", "lv", "ct")

    def __init__(self, has, lv, ct):
        self.has, self.lv, self.ct = has, lv, ct     # ct: pointee type

    def __repr__(self):
        return "P(%s,%s)" % (self.has, self.lv)


class It:
    """iterator into a sequence/set/map object: position idx"""
    __slots__ = ("lv", "idx", "ct")

    def __init__(self, lv, idx, ct):
        self.lv, self.idx, self.ct = lv, idx, ct

    def __repr__(self):
        return "It(%s,%s)" % (self.lv, self.idx)


class Clo:
    __slots__ = ("node", "env", "this", "methods", "generic")

    def __init__(self, node, methods, env, this, generic=False):
        self.node, self.methods, self.env, self.this, self.generic = node, methods, env, this, generic


class Fn:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class Seq:
    """sequence of values the logic has no sort for (pointers, closures); concrete length"""
    __slots__ = ("items", "ct")

    def __init__(self, items, ct=None):
        self.items, self.ct = list(items), ct


class Agg:
    """record with at least one value the logic has no sort for"""
    __slots__ = ("ct", "f")

    def __init__(self, ct, f):
        self.ct, self.f = ct, f


class VoidV:
    __slots__ = ()

    def __repr__(self):
        return "void"


VOID = VoidV()


class Over:
    """overload set object (lstk::overloaded{...})"""
    __slots__ = ("clos",)

    def __init__(self, clos):
        self.clos = clos


class State:
    __slots__ = ("store", "types", "env", "this", "pc", "writes", "typed", "depth", "ghost", "dead", "trace")

    def __init__(self):
        self.store, self.types, self.env, self.this = {}, {}, {}, None
        self.pc, self.writes, self.typed, self.depth, self.ghost = [], [], set(), 0, {}
        self.dead = False
        self.trace = ()

    def copy(self):
        s = State.__new__(State)
        s.store, s.types, s.env, s.this = dict(self.store), self.types, dict(self.env), self.this
        s.types = dict(self.types)
        s.pc, s.writes, s.typed, s.depth, s.ghost = list(self.pc), list(self.writes), set(self.typed), self.depth, dict(self.ghost)
        s.dead = False
        s.trace = self.trace
        return s

    def conds(self):
        return [c for _, c in self.pc]


def is_true(c):
    return c is True or (not isinstance(c, bool) and z3.is_true(c))


def is_false(c):
    return c is False or (not isinstance(c, bool) and z3.is_false(c))


def B(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def Not(c):
    if is_true(c):
        return z3.BoolVal(False)
    if is_false(c):
        return z3.BoolVal(True)
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def And(*cs):
    out = []
    for c in cs:
        c = B(c)
        if z3.is_true(c):
            continue
        if z3.is_false(c):
            return c
        out.append(c)
    if not out:
        return z3.BoolVal(True)
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*cs):
    out = []
    for c in cs:
        c = B(c)
        if z3.is_false(c):
            continue
        if z3.is_true(c):
            return c
        out.append(c)
    if not out:
        return z3.BoolVal(False)
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Ite(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if z3.is_true(a) and z3.is_false(b):
            return B(c)
        if z3.is_false(a) and z3.is_true(b):
            return Not(c)
    return z3.If(c, a, b)


def _vars_in(t, names, seen):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_const(t):
        names.discard(t.get_id())
        return
    for c in t.children():
        if names:
            _vars_in(c, names, seen)


def FA(vs, body, patterns=None):
    """universal quantifier; patterns that folded away are dropped"""
    vs = list(vs)
    body = B(body)
    if z3.is_true(body):
        return body
    if patterns:
        good = []
        for p in patterns:
            names = {v.get_id() for v in vs}
            if isinstance(p, z3.PatternRef):
                good.append(p)
                continue
            if z3.is_const(p) or z3.is_app_of(p, z3.Z3_OP_ITE) or z3.is_app_of(p, z3.Z3_OP_AND) or z3.is_app_of(p, z3.Z3_OP_OR) or z3.is_app_of(p, z3.Z3_OP_NOT):
                continue
            _vars_in(p, names, set())
            if not names and not _has_bool(p):
                good.append(p)
        try:
            return z3.ForAll(vs, body, patterns=good) if good else z3.ForAll(vs, body)
        except z3.Z3Exception:
            return z3.ForAll(vs, body)
    return z3.ForAll(vs, body)


def _has_bool(p):
    if z3.is_app_of(p, z3.Z3_OP_ITE) or z3.is_and(p) or z3.is_or(p) or z3.is_not(p) or z3.is_eq(p) or z3.is_le(p) or z3.is_lt(p) or z3.is_ge(p) or z3.is_gt(p) or z3.is_quantifier(p):
        return True
    return any(_has_bool(c) for c in p.children())


def numeral(t):
    if z3.is_int_value(t):
        return t.as_long()
    return None


def Eq(a, b):
    if a.eq(b):
        return z3.BoolVal(True)
    x, y = (numeral(a), numeral(b)) if z3.is_int(a) else (None, None)
    if x is not None and y is not None:
        return z3.BoolVal(x == y)
    # ite of numerals against a numeral
    if y is not None and z3.is_app_of(a, z3.Z3_OP_ITE):
        return _eq_ite(a, b, 0)
    if x is not None and z3.is_app_of(b, z3.Z3_OP_ITE):
        return _eq_ite(b, a, 0)
    return a == b


def _eq_ite(a, n, d):
    if z3.is_app_of(a, z3.Z3_OP_ITE) and d < 12:
        l, r = _eq_ite(a.arg(1), n, d + 1), _eq_ite(a.arg(2), n, d + 1)
        return Or(And(a.arg(0), l), And(Not(a.arg(0)), r)) if not (z3.is_true(l) and z3.is_true(r)) else l
    x = numeral(a)
    if x is not None:
        return z3.BoolVal(x == numeral(n))
    return a == n


def Select(a, i):
    while z3.is_app_of(a, z3.Z3_OP_STORE):
        j = a.arg(1)
        if j.eq(i):
            return a.arg(2)
        x, y = (numeral(i), numeral(j)) if z3.is_int(i) else (None, None)
        if x is not None and y is not None and x != y:
            a = a.arg(0)
            continue
        break
    if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY):
        return a.arg(0)
    return z3.Select(a, i)


def add(a, b):
    x, y = numeral(a), numeral(b)
    if x is not None and y is not None:
        return z3.IntVal(x + y)
    if x == 0:
        return b
    if y == 0:
        return a
    # (t + c1) + c2
    if y is not None and z3.is_add(a) and a.num_args() == 2 and numeral(a.arg(1)) is not None:
        return add(a.arg(0), z3.IntVal(numeral(a.arg(1)) + y))
    return a + b


def sub(a, b):
    x, y = numeral(a), numeral(b)
    if x is not None and y is not None:
        return z3.IntVal(x - y)
    if y is not None:
        return add(a, z3.IntVal(-y))
    if a.eq(b):
        return z3.IntVal(0)
    return a - b


class Logic:
    """datatype helpers that fold accessor-of-constructor"""

    def __init__(self, T):
        self.T = T

    def acc(self, ct, ci, j, t, depth=0):
        self.T.sort(ct)
        if z3.is_app(t) and t.decl().eq(ct.con[ci]):
            return t.arg(j)
        if depth < 8 and z3.is_app_of(t, z3.Z3_OP_ITE):
            l, r = t.arg(1), t.arg(2)
            if self._foldable(ct, ci, l) or self._foldable(ct, ci, r):
                return Ite(t.arg(0), self.acc(ct, ci, j, l, depth + 1), self.acc(ct, ci, j, r, depth + 1))
        return ct.acc[ci][j](t)

    def _foldable(self, ct, ci, t):
        if z3.is_app(t):
            if t.decl().eq(ct.con[ci]):
                return True
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                return self._foldable(ct, ci, t.arg(1)) or self._foldable(ct, ci, t.arg(2))
        return False

    def isc(self, ct, ci, t, depth=0):
        self.T.sort(ct)
        if len(ct.con) == 1:
            return z3.BoolVal(True)
        if z3.is_app(t):
            for k, c in enumerate(ct.con):
                if t.decl().eq(c):
                    return z3.BoolVal(k == ci)
            if depth < 8 and z3.is_app_of(t, z3.Z3_OP_ITE):
                l, r = self.isc(ct, ci, t.arg(1), depth + 1), self.isc(ct, ci, t.arg(2), depth + 1)
                if z3.is_true(l) and z3.is_true(r):
                    return l
                if z3.is_false(l) and z3.is_false(r):
                    return l
                return Or(And(t.arg(0), l), And(Not(t.arg(0)), r))
        return ct.is_[ci](t)

    # vec
    def vlen(self, ct, t):
        return self.acc(ct, 0, 1, t)

    def vdata(self, ct, t):
        return self.acc(ct, 0, 0, t)

    def vat(self, ct, t, i):
        return Select(self.vdata(ct, t), i)

    def mkvec(self, ct, data, ln):
        self.T.sort(ct)
        return ct.con[0](data, ln)

    def vset(self, ct, t, i, v):
        return self.mkvec(ct, z3.Store(self.vdata(ct, t), i, v), self.vlen(ct, t))

    # opt
    def some(self, ct, v):
        self.T.sort(ct)
        return ct.con[1](v)

    def none(self, ct):
        self.T.sort(ct)
        return ct.con[0]()

    def is_some(self, ct, t):
        return self.isc(ct, 1, t)

    def optval(self, ct, t):
        return self.acc(ct, 1, 0, t)

    # rec
    def field(self, ct, t, name):
        fs = self.T.fields(ct)
        self.T.sort(ct)
        fs = self.T.fields(ct)
        for j, (n, fct) in enumerate(fs):
            if n == name:
                return self.acc(ct, 0, j, t), fct
        raise Unsupported("no field %s in %s" % (name, ct.key))

    def setfield(self, ct, t, name, v):
        fs = self.T.fields(ct)
        args = [v if n == name else self.acc(ct, 0, j, t) for j, (n, fct) in enumerate(fs)]
        self.T.sort(ct)
        return ct.con[0](*args)

    def mkrec(self, ct, vals):
        self.T.sort(ct)
        return ct.con[0](*vals)

    # path access on terms
    def step(self, t, ct, s):
        k = s[0]
        if k == "f":
            return self.field(ct, t, s[1])
        if k == "i":
            return self.vat(ct, t, s[1]), ct.elem
        if k == "v":
            return self.optval(ct, t), ct.elem
        if k == "a":
            return self.acc(ct, s[1], 0, t), ct.args[s[1]]
        if k == "t":
            return self.acc(ct, 0, s[1], t), ct.args[s[1]]
        if k == "m":
            return Select(self.acc(ct, 0, 1, t), s[1]), ct.args[1]
        if k == "cf":
            alts = s[1]
            t0, c0 = self.field(ct, t, alts[-1][1])
            for cond, name in reversed(alts[:-1]):
                ti, _ = self.field(ct, t, name)
                t0 = Ite(cond, ti, t0)
            return t0, c0
        raise Unsupported("step %s" % (s,))

    def get(self, t, ct, path):
        for s in path:
            t, ct = self.step(t, ct, s)
        return t, ct

    def put(self, t, ct, path, v, guard=False):
        if not path:
            return v
        s, rest = path[0], path[1:]
        k = s[0]
        if k == "cf":
            out = t
            prev = []
            for n_, (cond, name) in enumerate(s[1]):
                c = And(*([Not(p) for p in prev] + ([cond] if n_ < len(s[1]) - 1 else [])))
                prev.append(cond)
                sub_, sct = self.field(ct, t, name)
                nv = self.put(sub_, sct, rest, v, guard)
                out = self.setfield(ct, out, name, Ite(c, nv, sub_))
            return out
        sub_, sct = self.step(t, ct, s)
        nv = self.put(sub_, sct, rest, v, guard)
        if k == "f":
            return self.setfield(ct, t, s[1], nv)
        if k == "i":
            return self.vset(ct, t, s[1], nv)
        if k == "v":
            r = self.some(ct, nv)
            return Ite(self.is_some(ct, t), r, t) if guard else r
        if k == "a":
            r = ct.con[s[1]](nv)
            return Ite(self.isc(ct, s[1], t), r, t) if guard else r
        if k == "t":
            args = [nv if j == s[1] else self.acc(ct, 0, j, t) for j in range(len(ct.args))]
            return ct.con[0](*args)
        if k == "m":
            args = [self.acc(ct, 0, j, t) for j in range(5)]
            args[1] = z3.Store(args[1], s[1], nv)
            return ct.con[0](*args)
        raise Unsupported("put step %s" % (s,))


_rn = {}


def rnorm(t):
    """read-over-write normal form: projections and reads are pushed through joins and updates"""
    if not z3.is_expr(t) or z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
        return t
    k = t.get_id()
    if k in _rn:
        return _rn[k][1]
    ch = [rnorm(c) for c in t.children()]
    d = t.decl()
    kind = d.kind()
    r = None
    if kind == z3.Z3_OP_SELECT and len(ch) == 2:
        r = _rsel(ch[0], ch[1], 0)
    elif kind in (z3.Z3_OP_DT_ACCESSOR,) and len(ch) == 1:
        r = _racc(d, ch[0], 0)
    if r is None:
        r = d(*ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t
        if kind in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ) and r.num_args() <= 2:
            pass
    if len(_rn) > 20000:
        _rn.clear()
    _rn[k] = (t, r)
    return r


def _rsel(a, i, depth):
    if depth < 12:
        if z3.is_app_of(a, z3.Z3_OP_STORE):
            if a.arg(1).eq(i):
                return a.arg(2)
        elif z3.is_app_of(a, z3.Z3_OP_ITE):
            x, y = _rsel(a.arg(1), i, depth + 1), _rsel(a.arg(2), i, depth + 1)
            return x if x.eq(y) else z3.If(a.arg(0), x, y)
    return z3.Select(a, i)


def _racc(d, a, depth):
    if depth < 12:
        if z3.is_app_of(a, z3.Z3_OP_ITE):
            x, y = _racc(d, a.arg(1), depth + 1), _racc(d, a.arg(2), depth + 1)
            return x if x.eq(y) else z3.If(a.arg(0), x, y)
        if z3.is_app_of(a, z3.Z3_OP_DT_CONSTRUCTOR):
            s = a.sort()
            for ci in range(s.num_constructors()):
                if s.constructor(ci).eq(a.decl()):
                    for j in range(a.num_args()):
                        if s.accessor(ci, j).eq(d):
                            return a.arg(j)
    return d(a)


# Solver limits are counted in solver steps, not in seconds, so that the outcome does not depend on the load of the machine; the
# wall clock only backs that up, and a query it ends is reported as not decided.
RATE = 4000
wall_hits = [0]


def limited(s, ms, extra=()):
    s.set("rlimit", int(ms * RATE))
    s.set("timeout", int(ms * 12))
    r = s.check()
    if r == z3.unknown and "timeout" in s.reason_unknown():
        wall_hits[0] += 1
    return r


def smt_text(fs):
    s = z3.Solver()
    for f in fs:
        s.add(f)
    return "(set-logic ALL)\n" + "\n".join(l for l in s.to_smt2().splitlines() if not l.startswith("(set-info"))


def oldz3(fs, mega, mbqi=None, secs=15):
    """a second, independent z3 (the 4.8 command line tool) on these formulas; the limit is in solver steps"""
    import subprocess, tempfile, os
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(smt_text(fs))
            fn = f.name
        try:
            cmd = ["z3", "-T:%d" % secs, "rlimit=%d" % (mega * 1000000)] + ([] if mbqi is None else ["smt.mbqi=%s" % str(mbqi).lower()]) + [fn]
            out = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 10).stdout.strip().splitlines()
        finally:
            os.unlink(fn)
        return bool(out) and out[0] == "unsat"
    except Exception:
        return False
