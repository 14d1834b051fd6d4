"""Contracts: what they may say, how a call is checked against one, how a body is verified against its own."""
import z3, time, traceback
from front import parse_type, FrontError
from ctypes_ import Unsupported
from vals import *
import houdini

SCALAR = ("int", "bool", "enum", "real", "str")


class V:
    """a logical value as specifications see it; scalars are plain z3 terms"""
    __slots__ = ("E", "T", "CT")

    def __init__(self, E, t, ct):
        object.__setattr__(self, "E", E)
        object.__setattr__(self, "T", t)
        object.__setattr__(self, "CT", ct)

    def _w(self, t, ct):
        return t if ct.kind in SCALAR else V(self.E, t, ct)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        E, ct, t = self.E, self.CT, self.T
        L = E.L
        if n == "LEN":
            if ct.kind in ("set", "map"):
                return E.sm_parts(Z(t, ct))["n"]
            return L.vlen(ct, t)
        if n == "HAS":
            return L.is_some(ct, t)
        if n == "VAL":
            return self._w(L.optval(ct, t), ct.elem)
        if ct.kind == "rec":
            p = E.T.find_field(ct, n)
            if p is None:
                raise Unsupported("spec: no field %s in %s" % (n, ct.key))
            for x in p:
                t, ct = L.field(ct, t, x)
            return self._w(t, ct)
        if ct.kind == "tup" and n in ("first", "second"):
            j = 0 if n == "first" else 1
            return self._w(L.acc(ct, 0, j, t), ct.args[j])
        raise Unsupported("spec: attribute %s of %s" % (n, ct.key))

    def F(self, n):
        return self.__getattr__(n)

    def __getitem__(self, i):
        E, ct, t = self.E, self.CT, self.T
        if isinstance(i, int):
            i = z3.IntVal(i)
        if isinstance(i, V):
            i = i.T
        if ct.kind == "vec":
            return self._w(E.L.vat(ct, t, i), ct.elem)
        if ct.kind == "map":
            return self._w(Select(E.sm_parts(Z(t, ct))["val"], i), ct.args[1])
        if ct.kind == "set":
            return self._w(Select(E.sm_parts(Z(t, ct))["seq"], i), ct.args[0])
        if ct.kind == "tup":
            j = numeral(i)
            return self._w(E.L.acc(ct, 0, j, t), ct.args[j])
        raise Unsupported("spec: index into " + ct.key)

    def KEY(self, i):
        return self._w(Select(self.E.sm_parts(Z(self.T, self.CT))["seq"], i if not isinstance(i, int) else z3.IntVal(i)), self.CT.args[0])

    def POS(self, k):
        return Select(self.E.sm_parts(Z(self.T, self.CT))["pos"], k.T if isinstance(k, V) else k)

    def IN(self, k):
        if isinstance(k, V):
            k = k.T
        if isinstance(k, int):
            k = z3.IntVal(k)
        return Select(self.E.sm_parts(Z(self.T, self.CT))["mem"], k)

    def alt(self, name):
        ct = self.CT
        c = [i for i, a in enumerate(ct.args) if a.key == name or a.key.endswith("::" + name) or a.key.split("::")[-1] == name]
        if len(c) != 1:
            raise Unsupported("spec: alternative %s of %s" % (name, ct.key))
        return c[0]

    def IS(self, name):
        return self.E.L.isc(self.CT, self.alt(name), self.T)

    def AS(self, name):
        k = self.alt(name)
        return self._w(self.E.L.acc(self.CT, k, 0, self.T), self.CT.args[k])

    def __eq__(self, o):
        if isinstance(o, V):
            return self.T == o.T
        return self.T == o

    def __ne__(self, o):
        return Not(self.__eq__(o))

    __hash__ = None


class Contract:
    def __init__(self, qual, props=(), sig=None, nparams=None, requires=None, ensures=None, modifies=(), throws=None, on_throw=None,
                 exact_throw=False, ret=None, loops=None, inline=False, trusted=False, optional=False, hyps=None, note="", opts=None,
                 post_types=None, unwind=None, frame=True, assume_only=False):
        self.qual, self.props, self.sig, self.nparams = qual, tuple(props), sig, nparams
        self.requires, self.ensures, self.modifies = requires, ensures, tuple(modifies)
        self.throws, self.on_throw, self.exact_throw = throws, on_throw, exact_throw
        self.ret, self.loops, self.inline, self.trusted = ret, loops, inline, trusted
        self.note, self.opts, self.frame = note, opts or {}, frame
        self.optional = optional

    def matches(self, f):
        if f.qual != self.qual:
            return False
        if self.sig is not None and self.sig not in f.ty:
            return False
        if self.nparams is not None and len(f.params) != self.nparams:
            return False
        return True

    @property
    def key(self):
        return self.qual + (" " + self.sig if self.sig else "") + (" [%s]" % self.opts["case"] if "case" in self.opts else "")


class Lemma:
    """an obligation over contracts/specification functions only"""

    def __init__(self, name, props, fn):
        self.name, self.props, self.fn = name, tuple(props), fn


class Ctx:
    """pre/post values of one call"""

    def __init__(self, eng):
        self.eng = eng
        self.pre, self.post = {}, {}
        self.ret = None
        self.ret_has = None
        self.ret_idx = []
        self.st = None

    def wrap(self, v):
        if isinstance(v, Z):
            return v.t if v.ct.kind in SCALAR else V(self.eng, v.t, v.ct)
        return v

    def a(self, i):
        return self.pre[i]

    def b(self, i):
        return self.post[i]

    @property
    def this(self):
        return self.pre["this"]

    @property
    def this2(self):
        return self.post["this"]

    # ---- helpers for specifications
    def enum(self, q, name):
        vals = self.eng.prog.enums.get(q)
        if vals is None:
            qq = self.eng.T._find(self.eng.prog.enums, q)
            if qq is None:
                raise Unsupported("spec: enum " + q)
            vals = self.eng.prog.enums[qq]
        if name not in vals:
            raise Unsupported("spec: enumerator %s::%s" % (q, name))
        return z3.IntVal(vals[name])

    def ct(self, s):
        return self.eng.T.parse(s)

    def uf(self, name, *sorts):
        return self.eng.uf(name, *sorts)

    def sort(self, ct):
        return self.eng.T.sort(ct)

    def none(self, ct):
        return V(self.eng, self.eng.L.none(ct), ct)

    def some(self, ct, v):
        return V(self.eng, self.eng.L.some(ct, v.T if isinstance(v, V) else v), ct)

    def mk(self, ct, **kw):
        """record value; unspecified fields get their default initialiser"""
        st = self.st.copy() if self.st is not None else State()
        vals = {}
        for n, fct in self.eng.T.fields(ct):
            if n in kw:
                x = kw[n]
                if isinstance(x, V):
                    vals[n] = Z(x.T, x.CT)
                elif isinstance(x, int) and not isinstance(x, bool):
                    vals[n] = Z(z3.IntVal(x), fct)
                elif isinstance(x, bool):
                    vals[n] = Z(z3.BoolVal(x), fct)
                else:
                    vals[n] = Z(x, fct)
                if vals[n].ct is not fct:
                    vals[n] = self.eng.coerce(st, vals[n], fct)
        z = self.eng.build_rec(st, ct, vals)
        return V(self.eng, z.t, z.ct)

    def altv(self, vct, name, v):
        self.eng.T.sort(vct)
        k = V(self.eng, None, vct).alt(name)
        return V(self.eng, vct.con[k](v.T if isinstance(v, V) else v), vct)

    def default(self, ct):
        z = self.eng.default_val(self.st.copy() if self.st is not None else State(), ct)
        return self.wrap(z)


def forall(n, fn, pats=None):
    xs = [z3.Int("q%d!%s" % (i, "spec")) for i in range(n)]
    b = fn(*xs)
    if isinstance(b, tuple):
        b, pats = b
        return FA(xs, b, patterns=pats)
    return FA(xs, b)


def exists(n, fn):
    xs = [z3.Int("e%d!%s" % (i, "spec")) for i in range(n)]
    return z3.Exists(xs, fn(*xs))


def Implies(a, b):
    return Or(Not(B(a)), B(b))


def conds(x):
    """normalise the result of a spec function to [(label, cond)]"""
    if x is None:
        return []
    out = []
    for i, e in enumerate(x):
        if isinstance(e, tuple):
            out.append((e[0], B(e[1])))
        else:
            out.append(("%d" % i, B(e)))
    return out


def spec_val(eng, s, a):
    """argument as seen by a specification"""
    v = eng.rv(s, a)
    if isinstance(v, Z):
        return v.t if v.ct.kind in SCALAR else V(eng, v.t, v.ct)
    if isinstance(v, Agg):
        try:
            return V(eng, eng.term(s, v, v.ct), v.ct)
        except Unsupported:
            return v
    if isinstance(v, P) and v.lv is not None:
        return v
    return v


def T_sort(eng, ct):
    return eng.T.sort(ct)


def pure_uf(eng, qual, ret_sort, *args):
    """in specifications: the answer of a function whose contract is marked pure"""
    ts = [a.T if isinstance(a, V) else a for a in args]
    return eng.uf("pure:" + qual, *[t.sort() for t in ts], ret_sort)(*ts)


def tag(c):
    return "q" if houdini.has_quant(c) else "f"


def assume_(s, c):
    c = B(c)
    if z3.is_true(c):
        return
    if z3.is_false(c):
        s.dead = True
    s.pc.append((tag(c), c))


def globals_of(eng, st, c):
    """static variables the contract speaks about: {"g:name": location}"""
    out = {}
    for q in c.opts.get("globals", ()):
        ids = [i for i, (n, qn) in eng.prog.globals.items() if qn == q]
        if len(ids) != 1:
            raise Unsupported("spec: static variable " + q)
        out["g:" + q.split("::")[-1]] = eng.global_lv(st, ids[0])
    return out


def apply(eng, st, c, f, this, args):
    """a call is checked against the callee's contract, not its body"""
    eng.applied[c.key] = eng.applied.get(c.key, 0) + 1
    cx = Ctx(eng)
    cx.st = st
    args = list(args)
    # default arguments
    for p in f.params[len(args):]:
        d = [x for x in p.get("inner", []) if isinstance(x, dict) and x.get("kind") not in ("FullComment",)]
        if not d:
            raise Unsupported("missing argument for " + f.qual)
        r = eng.ev(st, d[0])
        if len(r) != 1:
            raise Unsupported("forking default argument")
        st, v = r[0]
        args.append(v)
    for i, (p, a) in enumerate(zip(f.params, args)):
        if isinstance(a, Z):
            a = eng.conv(st, a, eng.T.of(p))
            args[i] = a
        elif isinstance(a, LV) and parse_type(p["type"]["qualType"]).kind != "ref":
            # by value
            v = eng.load(st, a)
            if isinstance(v, Z):
                v = eng.conv(st, v, eng.T.of(p))
            args[i] = v
        cx.pre[i] = spec_val(eng, st, args[i])
    if this is not None:
        cx.pre["this"] = spec_val(eng, st, this)
    short = f.qual.split("::")[-1]
    gl = globals_of(eng, st, c)
    for k, lv in gl.items():
        cx.pre[k] = spec_val(eng, st, lv)
    for g in (c.opts["axioms"](cx) if c.opts.get("axioms") else ()):
        assume_(st, g)          # definitions of specification functions
    for lab, g in conds(c.requires(cx) if c.requires else None):
        eng.oblige(st, "pre", "pre(%s):%s" % (short, lab), g)
        assume_(st, g)
    if st.dead:
        return []
    # effects
    for m in c.modifies:
        m = m if isinstance(m, tuple) else (m,)
        who, path = m[0], m[1:]
        base = this if who == "this" else gl[who] if who in gl else (args[who] if who < len(args) else None)
        if isinstance(base, P):
            base = base.lv
        if not isinstance(base, LV):
            continue
        lv = base
        for x in path:
            ct = eng.lvct(st, lv)
            p = eng.T.find_field(ct, x)
            if p is None:
                raise Unsupported("contract of %s: no field %s" % (f.qual, x))
            for y in p:
                lv = lv.at("f", y)
        eng.store(st, lv, eng.havoc_val(st, eng.lvct(st, lv), short))
    cx.st = st
    for i, a in enumerate(args):
        cx.post[i] = spec_val(eng, st, a) if isinstance(a, LV) else cx.pre[i]
    if this is not None:
        cx.post["this"] = spec_val(eng, st, this)
    for k, lv in gl.items():
        cx.post[k] = spec_val(eng, st, lv)
    out = []
    if c.throws is not None:
        tc = c.throws(cx) if callable(c.throws) else z3.BoolVal(bool(c.throws))
        s2 = st.copy()
        cx.st = s2
        assume_(s2, tc)
        for lab, g in conds(c.on_throw(cx) if c.on_throw else None):
            assume_(s2, g)
        s2.pc.append(("b", eng.fbool("throws")))
        nb = s2.pc[-1][1]
        if not s2.dead and eng.feasible(s2):
            eng.throw(s2, "exception from " + f.qual)
        st.pc.append(("b", z3.Not(nb)))
        if c.exact_throw:
            assume_(st, Not(tc))
        if st.dead:
            return []
    cx.st = st
    rct = eng.ret_ct(f) if f.node["kind"] != "CXXConstructorDecl" else eng.T.VOID
    rv = VOID
    if c.ret is not None:
        has, lv = c.ret(cx, lambda: eng.fint("ri"), lambda r: (this if r == "this" else args[r]))
        idx = [x[1] for x in lv.path if x[0] == "i"]
        cx.ret_idx = idx[-c.opts.get("nidx", len(idx)):] if c.opts.get("nidx") else idx
        if eng.ret_is_ref(f):
            rv = lv
            cx.ret_has = z3.BoolVal(True)
        else:
            h = eng.fbool("rhas") if has is None else has
            cx.ret_has = h
            rv = P(h, lv, None)
            try:
                rv.ct = eng.lvct(st, lv)
            except Unsupported:
                pass
    elif rct.kind != "void":
        if c.opts.get("pure"):      # a function of its arguments and of nothing else
            ts = [a.T if isinstance(a, V) else a for a in (cx.pre[k] for k in sorted(cx.pre, key=str))]
            if not all(isinstance(t, z3.ExprRef) for t in ts):
                raise Unsupported("pure function %s of something other than values" % f.qual)
            rv = Z(eng.uf("pure:" + f.qual, *[t.sort() for t in ts], T_sort(eng, rct))(*ts), rct)
        else:
            rv = eng.havoc_val(st, rct, "r_" + short)
        cx.ret = cx.wrap(rv)
        if eng.ret_is_ref(f):
            rv = eng.new_root(st, rv, rct, "retref")
    for lab, g in conds(c.ensures(cx) if c.ensures else None):
        if not lab.startswith("own ") or eng.topc.opts.get("own"):      # proved for the function; callers do not need it
            assume_(st, g)
    if st.dead or not eng.feasible(st):
        return out
    out.append((st, rv))
    return out


def verify(eng, c, f):
    """generate the obligations of one function against its contract"""
    eng.top = f.qual.replace("lsqecc::", "").replace("lstk::", "lstk::")
    eng.topc = c
    st = State()
    cx = Ctx(eng)
    cx.st = st
    T = eng.T
    env = {}
    roots = {}
    this = None
    isctor = f.node["kind"] == "CXXConstructorDecl"
    if f.cls and not f.static and f.node["kind"] != "FunctionDecl":
        ct = T.parse(f.cls)
        if isctor:
            lv = eng.new_root(st, eng.raw_record(st, ct), ct, "this")
            this = lv
        else:
            t = eng.fresh(ct, "this")
            this = eng.new_root(st, Z(t, ct), ct, "this")
            eng.typing(st, t, ct)
            cx.pre["this"] = V(eng, t, ct)
        roots["this"] = this
    for i, p in enumerate(f.params):
        ct = T.of(p)
        ty = parse_type(p["type"]["qualType"])
        nm = p.get("name", "p%d" % i)
        if ct.kind == "ptr":
            pl = eng.new_root(st, eng.havoc_val(st, ct.elem, nm), ct.elem, nm + "_obj")
            v = P(eng.fbool(nm + "_nonnull"), pl, ct.elem)
            lv = eng.new_root(st, v, ct, nm)
            roots[i] = pl
            env[p["id"]] = lv
            cx.pre[i] = v
            cx.pre["*%d" % i] = cx.wrap(eng.load(st, pl))
            continue
        if ct.kind == "opt" and ct.elem.kind == "refw":
            pl = eng.new_root(st, eng.havoc_val(st, ct.elem.elem, nm), ct.elem.elem, nm + "_obj")
            v = P(eng.fbool(nm + "_has"), pl, ct.elem.elem)
            lv = eng.new_root(st, v, ct, nm)
            roots[i] = pl
            env[p["id"]] = lv
            cx.pre[i] = v
            continue
        t = eng.fresh(ct, nm)
        v = Z(t, ct)
        eng.typing(st, t, ct)
        lv = eng.new_root(st, v, ct, nm)
        env[p["id"]] = lv
        roots[i] = lv
        cx.pre[i] = cx.wrap(v)
    st.env, st.this = env, this
    for k, lv in globals_of(eng, st, c).items():
        roots[k] = lv
        cx.pre[k] = cx.wrap(st.store[lv.root])
    eng.topctx = cx
    eng.toproots = roots
    for g in (c.opts["axioms"](cx) if c.opts.get("axioms") else ()):
        assume_(st, g)          # definitions of specification functions
    for lab, g in conds(c.requires(cx) if c.requires else None):
        assume_(st, g)
    pre_store = dict(st.store)
    s_ = z3.Solver()
    for _, g in st.pc:
        s_.add(g)
    r = limited(s_, 1500)
    eng.vacuity = {"requires": str(r)}
    if r == z3.unsat:
        eng.obs.append(Obl(eng, "%s/vacuity:requires satisfiable" % eng.top, "vacuity", [], z3.BoolVal(False)))
    eng.keep_paths = bool(c.opts.get("paths"))
    eng.sinks = [[]]
    eng.stack = [f.node["id"]]
    base = len(st.pc)
    outs = eng.exec_body(st, f)
    outs = [(s, v) for s, v in outs if not s.dead]
    if eng.opts_join(c):
        outs = eng.join_all(base, outs, [])
    thrown = eng.sinks[0]
    eng.n_exits, eng.n_throws = len(outs), len(thrown)
    for k, (s, v) in enumerate(outs):
        cx2 = Ctx(eng)
        cx2.pre = dict(cx.pre)
        cx2.st = s
        fill_post(eng, cx2, s, roots)
        if isctor:
            cx2.pre["this"] = cx2.post.get("this")
        rct = eng.ret_ct(f) if not isctor else T.VOID
        if c.ret is not None:
            ok = match_ret(eng, c, cx2, s, v, f, roots, k)
        elif rct.kind != "void":
            v = eng.rv(s, v)
            if isinstance(v, Z):
                v = eng.conv(s, v, rct)
            cx2.ret = spec_val(eng, s, v)
        if c.ensures:
            for lab, g in conds(c.ensures(cx2)):
                eng.oblige(s, "post", "post:%s (exit %d)" % (lab, k), g)
        frame(eng, c, s, roots, pre_store, k, isctor)
    for k, (s, what) in enumerate(thrown):
        if s.dead:
            continue
        cx2 = Ctx(eng)
        cx2.pre = dict(cx.pre)
        cx2.st = s
        fill_post(eng, cx2, s, roots)
        if isctor:
            cx2.pre["this"] = None
        if c.throws is None:
            eng.oblige(s, "nothrow", "no exception: %s (throw %d)" % (what, k), z3.BoolVal(False))
        else:
            tc = c.throws(cx2) if callable(c.throws) else z3.BoolVal(True)
            eng.oblige(s, "throws", "throws only when allowed: %s (throw %d)" % (what, k), tc)
            for lab, g in conds(c.on_throw(cx2) if c.on_throw else None):
                eng.oblige(s, "on_throw", "on exception %s (throw %d)" % (lab, k), g)
            if not isctor:
                frame(eng, c, s, roots, pre_store, "throw %d" % k, isctor)
    eng.vacuity["normal_exits"] = len(outs)
    return cx


def Obl(eng, name, kind, hyps, goal):
    import sym
    return sym.Obl(name, kind, hyps, goal)


def fill_post(eng, cx, s, roots):
    for r, lv in roots.items():
        v = s.store[lv.root]
        if isinstance(v, Agg):
            try:
                cx.post[r] = V(eng, eng.term(s, v, v.ct), v.ct)
            except Unsupported:
                cx.post[r] = v
        else:
            cx.post[r] = cx.wrap(v) if isinstance(v, Z) else v
    for k, v in cx.pre.items():
        cx.post.setdefault(k, v)


def match_ret(eng, c, cx, s, v, f, roots, k):
    if isinstance(v, LV) and not eng.ret_is_ref(f):
        v = eng.load(s, v)
    if isinstance(v, Z) and v.ct.kind == "null":
        v = P(False, None, None)
    if isinstance(v, LV):
        # reference result
        w = s.store.get(v.root)
        v = P(True, v, None)
    if not isinstance(v, P):
        raise Unsupported("contract expects a reference result, got %r" % (v,))
    ph = []

    def fresh():
        x = eng.fint("ph")
        ph.append(x)
        return x
    has, tl = c.ret(cx, fresh, lambda r: roots[r])
    cx.ret_has = B(v.has)
    if v.lv is None:
        cx.ret_idx = [z3.IntVal(0) for x in tl.path if x[0] == "i"]
        return
    if v.lv.root != tl.root or len(v.lv.path) != len(tl.path) or any(x[0] != y[0] and not (x[0] in ("f", "cf") and y[0] in ("f", "cf")) for x, y in zip(v.lv.path, tl.path)):
        eng.oblige(s, "post", "result refers into the expected object (exit %d)" % k, Not(B(v.has)))
        cx.ret_idx = [z3.IntVal(0) for x in tl.path if x[0] == "i"]
        return
    idx = []
    for x, y in zip(v.lv.path, tl.path):
        if x[0] == "i":
            idx.append(x[1])
            if not any(y[1].eq(q) for q in ph):
                eng.oblige(s, "post", "result refers to the expected element (exit %d)" % k, Implies(B(v.has), x[1] == y[1]))
        elif x[0] == "cf" or y[0] == "cf":
            sx, sy = choose(x), choose(y)
            for nme in sorted(set(sx) | set(sy)):
                a, b = sx.get(nme, z3.BoolVal(False)), sy.get(nme, z3.BoolVal(False))
                eng.oblige(s, "post", "result refers to the expected part %s (exit %d)" % (nme, k), Implies(B(v.has), B(a) == B(b)))
        elif x != y:
            eng.oblige(s, "post", "result refers to the expected part (exit %d)" % k, Not(B(v.has)))
    cx.ret_idx = idx[-c.opts["nidx"]:] if c.opts.get("nidx") else idx


def choose(step):
    """field name -> condition under which the step selects it (the last alternative is the default)"""
    if step[0] == "f":
        return {step[1]: z3.BoolVal(True)}
    out, before = {}, []
    for i, (cond, n) in enumerate(step[1]):
        last = i == len(step[1]) - 1
        c = And(*[Not(x) for x in before]) if last else And(B(cond), *[Not(x) for x in before])
        out[n] = Or(out[n], c) if n in out else c
        before.append(B(cond))
    return out


def frame(eng, c, s, roots, pre_store, k, isctor):
    """what the contract does not list as modified is unchanged"""
    if not c.frame:
        return
    for r, lv in roots.items():
        if isctor and r == "this":
            continue
        old, new = pre_store[lv.root], s.store[lv.root]
        if old is new:
            continue
        mods = [m if isinstance(m, tuple) else (m,) for m in c.modifies]
        mods = [m for m in mods if m[0] == r]
        if any(len(m) == 1 for m in mods):
            continue
        if not (isinstance(old, Z) and isinstance(new, Z)):
            raise Unsupported("frame of a non-logical value")
        ct = old.ct
        if mods and ct.kind == "rec":
            names = set(m[1] for m in mods)
            for n, fct in eng.T.fields(ct):
                if n in names:
                    # deeper paths
                    deep = [m for m in mods if m[1] == n and len(m) > 2]
                    if not deep or any(m[1] == n and len(m) == 2 for m in mods):
                        continue
                    a, _ = eng.L.field(ct, old.t, n)
                    b, _ = eng.L.field(ct, new.t, n)
                    for n2, f2 in eng.T.fields(fct):
                        if n2 in set(m[2] for m in deep):
                            continue
                        x, _ = eng.L.field(fct, a, n2)
                        y, _ = eng.L.field(fct, b, n2)
                        eng.oblige(s, "frame", "frame:%s.%s.%s unchanged (exit %s)" % (r, n, n2, k), same_value(eng, x, y, f2))
                    continue
                a, _ = eng.L.field(ct, old.t, n)
                b, _ = eng.L.field(ct, new.t, n)
                eng.oblige(s, "frame", "frame:%s.%s unchanged (exit %s)" % (r, n, k), same_value(eng, a, b, fct))
        else:
            isconst = False
            eng.oblige(s, "frame", "frame:argument %s unchanged (exit %s)" % (r, k), same_value(eng, old.t, new.t, ct))


def same_value(eng, a, b, ct):
    """observable equality: what lies beyond the length of a vector does not count"""
    if a.eq(b):
        return z3.BoolVal(True)
    if ct.kind == "vec":
        i = z3.Int("i!fr")
        la, lb = eng.L.vlen(ct, a), eng.L.vlen(ct, b)
        if ct.elem.kind == "vec":
            j = z3.Int("j!fr")
            ra, rb = eng.L.vat(ct, a, i), eng.L.vat(ct, b, i)
            return And(la == lb, FA([i], z3.Implies(z3.And(0 <= i, i < la), eng.L.vlen(ct.elem, ra) == eng.L.vlen(ct.elem, rb))),
                       FA([i, j], z3.Implies(z3.And(0 <= i, i < la, 0 <= j, j < eng.L.vlen(ct.elem, ra)), eng.L.vat(ct.elem, ra, j) == eng.L.vat(ct.elem, rb, j))))
        return And(la == lb, FA([i], z3.Implies(z3.And(0 <= i, i < la), eng.L.vat(ct, a, i) == eng.L.vat(ct, b, i))))
    if ct.kind == "rec":
        return And(*[same_value(eng, eng.L.field(ct, a, n)[0], eng.L.field(ct, b, n)[0], f) for n, f in eng.T.fields(ct)])
    if ct.kind in ("set", "map"):
        pa, pb = eng.sm_parts(Z(a, ct)), eng.sm_parts(Z(b, ct))
        k = z3.Const("k!fr", pa["mem"].sort().domain())
        r = [FA([k], Select(pa["mem"], k) == Select(pb["mem"], k)), pa["n"] == pb["n"]]
        if ct.kind == "map":
            r.append(FA([k], z3.Implies(Select(pa["mem"], k), Select(pa["val"], k) == Select(pb["val"], k))))
        return And(*r)
    return a == b
