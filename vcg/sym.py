"""Symbolic execution of the real functions (clang AST of /repo) into verification conditions."""
import z3, itertools
from front import Ty, parse_type, FrontError
from ctypes_ import Unsupported, CT
from vals import *
import lib


class Obl:
    __slots__ = ("name", "kind", "hyps", "goal", "info")

    def __init__(self, name, kind, hyps, goal, info=""):
        self.name, self.kind, self.hyps, self.goal, self.info = name, kind, hyps, goal, info


UNROLL = 70


class Engine(lib.LibMixin):
    def __init__(self, prog, T, contracts=None):
        self.prog, self.T, self.L = prog, T, Logic(T)
        self.contracts = contracts or {}
        self.sinks = []
        self.obs = []
        self.dry = 0
        self.cnt = 0
        self.top = None
        self.ctx = None
        self.stack = []
        self.inlined = {}
        self.trusted = set()
        self.hist, self.hist_pending = {}, []
        self.queries = {}
        for c_ in [c for l in self.contracts.values() for c in l]:
            for q in c_.opts.get('query_of', ()):
                self.queries.setdefault(q, []).append(c_.key)
        self.notes = set()
        self.loop_log = []
        self.loops = []          # enclosing loop contexts
        self.ufs = {}
        self.feas_n = 0
        self.safety = True
        self.solver_s = 0.0
        self.assume_log = []
        self.globals = {}
        self.maxpaths = 400
        self.nocontract = set()
        self.deadline = None
        self.verbose = 0
        self.keep_paths = False
        self.applied = {}
        self.topc = None
        self.topctx = None
        self.toproots = {}
        self.kept = []
        self.axioms = {}

    def curfn(self):
        for i in reversed(self.stack):
            f = self.prog.decl.get(i)
            if f is not None:
                return f.qual
        return "?"

    def opts_join(self, c):
        return c.opts.get("join", False)

    def keep_hist(self, h, x0, lst):
        if x0 is not None:
            self.hist[h[0].get_id()] = (h, x0, lst)

    sidecar_only = False

    def sidecar_invariants(self, s0, H, it, hl, n, bound, cont, ends):
        out = []
        import houdini
        if self.topc is None or not self.topc.loops:
            return out
        lp = houdini.Loop(self, s0, H, it, hl, n, bound, cont)
        lp.ends = ends
        for fn in self.topc.loops:
            try:
                out.extend(fn(lp) or ())
            except (Unsupported, KeyError, IndexError, AttributeError, z3.Z3Exception) as e:
                if self.verbose:
                    print("   sidecar not applicable:", type(e).__name__, str(e)[:100])
        return out

    # ------------------------------------------------------------ basics
    def fresh(self, ct, hint="x"):
        self.cnt += 1
        return z3.Const("%s!%d" % (hint, self.cnt), self.T.sort(ct))

    def freshsort(self, sort, hint="x"):
        self.cnt += 1
        return z3.Const("%s!%d" % (hint, self.cnt), sort)

    def fint(self, hint="i"):
        self.cnt += 1
        return z3.Int("%s!%d" % (hint, self.cnt))

    def fbool(self, hint="b"):
        self.cnt += 1
        return z3.Bool("%s!%d" % (hint, self.cnt))

    def assume(self, st, cond, tag="f"):
        cond = B(cond)
        if z3.is_true(cond):
            return st
        if z3.is_false(cond):
            st.dead = True
        st.pc.append((tag, cond))
        return st

    def typing(self, st, t, ct):
        """range facts every well-typed value satisfies"""
        self._keep(t)
        k = ct.kind
        if k in ("int", "enum"):
            if numeral(t) is not None:
                return
            i = t.get_id()
            if (i, k) in st.typed:
                return
            st.typed.add((i, k))
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                pass
            lo, hi = ct.range() if k == "int" else self.T.enum_range(ct)
            st.pc.append(("f", z3.And(t >= lo, t <= hi)))
        elif k == "vec":
            i = t.get_id()
            if (i, k) in st.typed:
                return
            st.typed.add((i, k))
            ln = self.L.vlen(ct, t)
            if numeral(ln) is None:
                if ct.flavor == "array" and ct.n is not None:
                    st.pc.append(("f", ln == ct.n))
                else:
                    st.pc.append(("f", z3.And(ln >= 0, ln < (1 << 60))))
        elif k in ("set", "map"):
            i = t.get_id()
            if (i, k) in st.typed:
                return
            st.typed.add((i, k))
            for f in self.set_wf(ct, t):
                st.pc.append(("q" if z3.is_quantifier(f) else "f", f))

    def set_wf(self, ct, t):
        self.T.sort(ct)
        n = self.L.acc(ct, 0, ct.con[0].arity() - 1, t)
        mem = self.L.acc(ct, 0, 0, t)
        a = ct.con[0].arity()
        seq, pos = self.L.acc(ct, 0, a - 3, t), self.L.acc(ct, 0, a - 2, t)
        i = z3.Int("i!wf")
        K = self.T.sort(ct.args[0])
        k = z3.Const("k!wf", K)
        out = [z3.And(n >= 0, n < (1 << 60)),
               FA([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(Select(mem, Select(seq, i)), Select(pos, Select(seq, i)) == i)), patterns=[Select(seq, i)]),
               FA([k], z3.Implies(Select(mem, k), z3.And(0 <= Select(pos, k), Select(pos, k) < n, Select(seq, Select(pos, k)) == k)), patterns=[Select(mem, k)])]
        if ct.args[0].kind in ("int", "enum"):
            lo, hi = ct.args[0].range() if ct.args[0].kind == "int" else self.T.enum_range(ct.args[0])
            out.append(FA([k], z3.Implies(Select(mem, k), z3.And(k >= lo, k <= hi)), patterns=[Select(mem, k)]))
        if ct.flavor in ("std::set", "set", "std::map", "map") and ct.args[0].kind in ("int", "enum"):
            j = z3.Int("j!wf")
            out.append(FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), Select(seq, i) < Select(seq, j)), patterns=[z3.MultiPattern(Select(seq, i), Select(seq, j))]))
        return out

    def feasible(self, st, extra=None):
        if st.dead:
            return False
        if extra is not None:
            extra = B(extra)
            if z3.is_true(extra):
                return True
            if z3.is_false(extra):
                return False
            e = extra.get_id()
            ne = Not(extra).get_id()
            for _, c in st.pc:
                if c.get_id() == e:
                    return True
                if c.get_id() == ne:
                    return False
        import time
        t0 = time.time()
        s = z3.SolverFor("QF_AUFDTLIA") if False else z3.Solver()
        for tag, c in st.pc:
            if tag != "q":
                s.add(c)
        if extra is not None:
            s.add(extra)
        r = limited(s, 400)
        self.feas_n += 1
        self.solver_s += time.time() - t0
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the symbolic execution exhausted")
        return r != z3.unsat

    def branch(self, st, cond):
        """-> [(state, bool)]"""
        cond = B(cond)
        if not (z3.is_true(cond) or z3.is_false(cond)):
            cond = z3.simplify(cond) if cond.num_args() < 40 else cond
        if z3.is_true(cond):
            return [(st, True)]
        if z3.is_false(cond):
            return [(st, False)]
        t = self.feasible(st, cond)
        f = self.feasible(st, Not(cond))
        if t and f:
            s2 = st.copy()
            self.assume(st, cond, "b")
            self.assume(s2, Not(cond), "b")
            return [(st, True), (s2, False)]
        if t:
            self.assume(st, cond, "b")
            return [(st, True)]
        if f:
            self.assume(st, Not(cond), "b")
            return [(st, False)]
        st.dead = True
        return []

    def oblige(self, st, kind, label, goal, info=""):
        goal = B(goal)
        if self.dry or z3.is_true(goal):
            if not self.dry:
                self.trivial = getattr(self, "trivial", 0) + 1
                self.obs.append(Obl("%s/%s" % (self.top, label), kind, [], goal, info))
            return
        self.obs.append(Obl("%s/%s" % (self.top, label), kind, st.conds(), goal, info))

    def safe(self, st, label, cond):
        """an operation that is undefined unless cond: obligation, then assumed"""
        cond = B(cond)
        if z3.is_true(cond):
            return
        if self.safety:
            self.oblige(st, "safe", "safe:" + label, cond)
        self.assume(st, cond)

    def throw(self, st, what):
        if not self.sinks:
            raise Unsupported("throw without sink")
        self.sinks[-1].append((st, what))

    # ------------------------------------------------------------ store
    def new_root(self, st, val, ct, hint="v"):
        self.cnt += 1
        r = "%s#%d" % (hint, self.cnt)
        st.store[r] = val
        st.types[r] = ct
        return LV(r)

    def lvct(self, st, lv):
        ct = st.types[lv.root]
        for s in lv.path:
            ct = self.stepct(ct, s)
        return ct

    def stepct(self, ct, s):
        k = s[0]
        if k == "f":
            if s[1].startswith("@"):
                for n, t in self.T.fields(ct):
                    if n == s[1]:
                        return t
            return self.T.field_ct(ct, s[1])
        if k == "cf":
            return self.T.field_ct(ct, s[1][0][1])
        if k in ("i", "v"):
            return ct.elem
        if k in ("a", "t"):
            return ct.args[s[1]]
        if k == "m":
            return ct.args[1]
        raise Unsupported("stepct")

    def load(self, st, lv):
        v = st.store[lv.root]
        path = lv.path
        while path and not isinstance(v, Z):
            s = path[0]
            if isinstance(v, Agg) and s[0] == "f":
                v = v.f[s[1]]
            elif isinstance(v, Seq) and s[0] == "i":
                n = numeral(z3.simplify(s[1]))
                if n is None or n >= len(v.items):
                    raise Unsupported("symbolic index into value sequence")
                v = v.items[n]
            elif isinstance(v, P) and s[0] == "v":
                v = P(True, v.lv, v.ct)
            else:
                raise Unsupported("load %s of %r" % (s, v))
            path = path[1:]
        if not path:
            if isinstance(v, Z):
                self.typing(st, v.t, v.ct)
            return v
        t, ct = self.L.get(v.t, v.ct, path)
        self.typing(st, t, ct)
        return Z(t, ct)

    def store(self, st, lv, val):
        st.writes.append((lv.root, lv.path))
        st.store[lv.root] = self._put(st, st.store[lv.root], lv.path, val, st.types.get(lv.root))

    def _put(self, st, v, path, val, ct):
        if not path:
            if isinstance(val, Z) and ct is not None and val.ct is not ct and ct.kind in ("int", "bool", "real", "enum", "rec", "opt", "var", "vec", "tup"):
                val = self.coerce(st, val, ct)
            return val
        s = path[0]
        if isinstance(v, Agg) and s[0] == "f":
            f = dict(v.f)
            f[s[1]] = self._put(st, f[s[1]], path[1:], val, self.stepct(v.ct, s))
            return Agg(v.ct, f)
        if isinstance(v, Seq) and s[0] == "i":
            n = numeral(z3.simplify(s[1]))
            items = list(v.items)
            items[n] = self._put(st, items[n], path[1:], val, v.ct.elem if v.ct else None)
            return Seq(items, v.ct)
        if not isinstance(v, Z):
            raise Unsupported("store into %r" % (v,))
        leaf = v.ct
        for x in path:
            leaf = self.stepct(leaf, x)
        t = self.term(st, val, leaf)
        return Z(self.L.put(v.t, v.ct, path, t), v.ct)

    def term(self, st, val, ct):
        """value -> z3 term of sort(ct)"""
        if isinstance(val, Z):
            if val.ct is ct or self.T.sort(val.ct) == self.T.sort(ct):
                return val.t
            return self.coerce(st, val, ct).t
        if isinstance(val, Agg) and ct.kind == "rec":
            out = []
            for n, fct in self.T.fields(ct):
                out.append(self.term(st, val.f[n], fct))
            return self.L.mkrec(ct, out)
        if isinstance(val, Seq) and ct.kind == "vec":
            arr = self.freshsort(z3.ArraySort(z3.IntSort(), self.T.sort(ct.elem)), "seq")
            for i, x in enumerate(val.items):
                arr = z3.Store(arr, i, self.term(st, x, ct.elem))
            return self.L.mkvec(ct, arr, z3.IntVal(len(val.items)))
        if isinstance(val, (P, Clo, Fn, It, Over, VoidV)):
            if isinstance(val, P) and ct.kind == "opt":
                if ct.flavor == "smart" or True:
                    inner = self.freshsort(self.T.sort(ct.elem), "opq")
                    if val.lv is not None and ct.elem.kind not in ("refw", "opq"):
                        x = self.load(st, val.lv)
                        inner = self.term(st, x, ct.elem)
                    return Ite(B(val.has), self.L.some(ct, inner), self.L.none(ct))
            return self.freshsort(self.T.sort(ct), "opq")
        raise Unsupported("term of %r as %s" % (val, ct.key))

    def coerce(self, st, v, ct):
        """implicit value conversions between logical types"""
        a = v.ct
        if a is ct:
            return v
        if ct.kind == "opt" and a.kind == "null":
            return Z(self.L.none(ct), ct)
        if ct.kind == "opt" and a.kind == "opt":
            if a.elem.kind == "opq" or ct.elem.kind == "opq":
                return Z(Ite(self.L.is_some(a, v.t), self.L.some(ct, self.freshsort(self.T.sort(ct.elem), "cv")), self.L.none(ct)), ct)
            inner = self.coerce(st, Z(self.L.optval(a, v.t), a.elem), ct.elem)
            return Z(Ite(self.L.is_some(a, v.t), self.L.some(ct, inner.t), self.L.none(ct)), ct)
        if ct.kind == "opt":
            return Z(self.L.some(ct, self.coerce(st, v, ct.elem).t), ct)
        if ct.kind == "var":
            for i, alt in enumerate(ct.args):
                if alt is a:
                    self.T.sort(ct)
                    return Z(ct.con[i](v.t), ct)
        if ct.kind in ("int", "enum", "bool", "real") and a.kind in ("int", "enum", "bool", "real"):
            return self.cast_num(st, v, ct)
        if ct.kind == "vec" and a.kind == "vec":
            if self.T.sort(a) == self.T.sort(ct):
                return Z(v.t, ct)
            if a.elem is ct.elem:
                return Z(self.L.mkvec(ct, self.L.vdata(a, v.t), self.L.vlen(a, v.t)), ct)
        if ct.kind == "rec" and a.kind == "rec":
            # derived to base (slicing)
            p = self.base_path(a, ct)
            if p is not None:
                t, c = self.L.get(v.t, a, p)
                return Z(t, c)
        if ct.kind == "opq":
            if a.kind == "opq" and self.T.sort(a) == self.T.sort(ct):
                return Z(v.t, ct)
            return Z(self.freshsort(self.T.sort(ct), "opq"), ct)
        if ct.kind == "tup" and a.kind == "tup" and len(a.args) == len(ct.args):
            self.T.sort(ct)
            return Z(ct.con[0](*[self.coerce(st, Z(self.L.acc(a, 0, j, v.t), a.args[j]), ct.args[j]).t for j in range(len(ct.args))]), ct)
        if ct.kind == "str" and a.kind in ("ptr", "vec", "opq", "null"):
            return Z(self.fint("str"), ct)
        if ct.kind in ("set",) and a.kind == "set":
            return v
        raise Unsupported("coerce %s -> %s" % (a.key, ct.key))

    def base_path(self, a, b):
        if a is b:
            return []
        for n, t in self.T.fields(a):
            if n.startswith("@"):
                p = self.base_path(t, b)
                if p is not None:
                    return [("f", n)] + p
        return None

    def cast_num(self, st, v, ct):
        t, a = v.t, v.ct
        if a.kind == "bool":
            if ct.kind == "bool":
                return v
            if ct.kind == "real":
                return Z(Ite(t, z3.RealVal(1), z3.RealVal(0)), ct)
            return Z(Ite(t, z3.IntVal(1), z3.IntVal(0)), ct)
        if ct.kind == "bool":
            if a.kind == "real":
                return Z(Not(Eq(t, z3.RealVal(0))), ct)
            return Z(Not(Eq(t, z3.IntVal(0))), ct)
        if ct.kind == "real":
            return Z(z3.ToReal(t) if a.kind != "real" else t, ct)
        if a.kind == "real":
            return Z(self.fint("trunc"), ct)
        if ct.kind == "enum":
            return Z(t, ct)
        lo, hi = (a.range() if a.kind == "int" else self.T.enum_range(a))
        clo, chi = ct.range()
        if clo <= lo and hi <= chi:
            return Z(t, ct)
        return Z(self.wrap(t, ct, lo, hi), ct)

    def wrap(self, t, ct, lo=None, hi=None):
        n = numeral(t)
        clo, chi = ct.range()
        m = 1 << ct.bits
        if n is not None:
            n = (n - clo) % m + clo
            return z3.IntVal(n)
        if lo is not None and hi is not None:
            if clo <= lo and hi <= chi:
                return t
            r = t
            if hi > chi:
                if hi - m <= chi:
                    r = z3.If(t > chi, t - m, r)
                else:
                    r = z3.If(t > chi, (t - clo) % m + clo, r)
            if lo < clo:
                if lo + m >= clo:
                    r = z3.If(t < clo, t + m, r)
                else:
                    r = z3.If(t < clo, (t - clo) % m + clo, r)
            return r
        return z3.If(z3.And(t >= clo, t <= chi), t, (t - clo) % m + clo)

    # ------------------------------------------------------------ joins
    def path_eq(self, a, b):
        """join two paths with equal shape; returns None if impossible, else function of cond"""
        if len(a) != len(b):
            return None
        for x, y in zip(a, b):
            if x[0] != y[0]:
                if {x[0], y[0]} <= {"f", "cf"}:
                    continue
                return None
            if x[0] == "a" or x[0] == "t":
                if x[1] != y[1]:
                    return None
        return True

    def join_path(self, c, a, b):
        out = []
        for x, y in zip(a, b):
            if x[0] == "i" or x[0] == "m":
                out.append((x[0], Ite(c, x[1], y[1])))
            elif x[0] in ("f", "cf") and x != y:
                xa = x[1] if x[0] == "cf" else ((z3.BoolVal(True), x[1]),)
                ya = y[1] if y[0] == "cf" else ((z3.BoolVal(True), y[1]),)
                if x[0] == y[0] == "f" and x[1] == y[1]:
                    out.append(x)
                else:
                    xs = [(And(c, cc), n) for cc, n in xa]
                    xs[-1] = (c, xs[-1][1])
                    out.append(("cf", tuple(xs) + tuple(ya)))
            else:
                out.append(x)
        return tuple(out)

    def join_val(self, c, a, b):
        """value equal to a if c else b; None if not representable"""
        if a is b:
            return a
        if isinstance(a, Z) and isinstance(b, Z):
            if a.ct is not b.ct:
                if a.ct.kind == "null" or b.ct.kind == "null":
                    return None
                if self.T.sort(a.ct) != self.T.sort(b.ct):
                    return None
            return Z(Ite(c, a.t, b.t), a.ct)
        if isinstance(a, LV) and isinstance(b, LV):
            if a.root != b.root or not self.path_eq(a.path, b.path):
                return None
            return LV(a.root, self.join_path(c, a.path, b.path))
        if isinstance(a, P) and isinstance(b, P):
            if a.lv is None or b.lv is None:
                if a.lv is None and b.lv is None:
                    return P(Ite(c, B(a.has), B(b.has)), None, a.ct)
                if a.lv is None and is_false(a.has):
                    return P(And(Not(c), B(b.has)), b.lv, b.ct)
                if b.lv is None and is_false(b.has):
                    return P(And(c, B(a.has)), a.lv, a.ct)
                return None
            lv = self.join_val(c, a.lv, b.lv)
            if lv is None:
                return None
            return P(Ite(c, B(a.has), B(b.has)), lv, a.ct)
        if isinstance(a, It) and isinstance(b, It):
            lv = self.join_val(c, a.lv, b.lv)
            return None if lv is None else It(lv, Ite(c, a.idx, b.idx), a.ct)
        if isinstance(a, VoidV) and isinstance(b, VoidV):
            return a
        if isinstance(a, Seq) and isinstance(b, Seq) and len(a.items) == len(b.items):
            items = [self.join_val(c, x, y) for x, y in zip(a.items, b.items)]
            return None if any(i is None for i in items) else Seq(items, a.ct)
        if isinstance(a, Agg) and isinstance(b, Agg) and a.ct is b.ct:
            f = {k: self.join_val(c, a.f[k], b.f[k]) for k in a.f}
            return None if any(x is None for x in f.values()) else Agg(a.ct, f)
        if isinstance(a, Clo) and isinstance(b, Clo) and a.node is b.node:
            return a
        return None

    def join_two(self, base, s1, v1, s2, v2, roots):
        """join two states that share pc prefix of length base"""
        i = base
        b1, b2 = s1.pc[base:], s2.pc[base:]
        while b1 and b2 and b1[0][0] == b2[0][0] and b1[0][1].eq(b2[0][1]):
            b1, b2 = b1[1:], b2[1:]
            i += 1
        c1 = [c for t, c in b1 if t == "b"]
        c2 = [c for t, c in b2 if t == "b"]
        if not c1 and not c2:
            return None
        cond = And(*c1) if len(c1) <= len(c2) and c1 else None
        if cond is None:
            cond = And(*c1) if c1 else Not(And(*c2))
        # facts
        # the two suffixes must exclude each other: check the first differing branch literals
        if c1 and c2:
            if not (Not(c1[0]).eq(c2[0]) or Not(c2[0]).eq(c1[0])):
                if not self._exclusive(s1, base, c1, c2):
                    return None
            else:
                if len(c1) == 1 or True:
                    cond = c1[0]
        sel = cond
        v = self.join_val(sel, v1, v2) if v1 is not None or v2 is not None else None
        if v is None and not (v1 is None and v2 is None):
            return None
        store = {}
        for r in roots:
            if r not in s1.store or r not in s2.store:
                return None
            x = self.join_val(sel, s1.store[r], s2.store[r])
            if x is None:
                return None
            store[r] = x
        ns = s1.copy()
        for r, x in s2.store.items():
            if r not in ns.store:
                ns.store[r] = x
                ns.types[r] = s2.types[r]
        for r, x in store.items():
            ns.store[r] = x
        # ghosts
        for g in set(s1.ghost) | set(s2.ghost):
            a, b = s1.ghost.get(g), s2.ghost.get(g)
            if a is None or b is None:
                return None
            if not a.eq(b):
                ns.ghost[g] = Ite(sel, a, b)
        ns.pc = list(s1.pc[:i])
        f1 = And(*c1) if c1 else z3.BoolVal(True)
        f2 = And(*c2) if c2 else z3.BoolVal(True)
        for t, c in b1:
            if t != "b":
                ns.pc.append((t, z3.Implies(sel, c) if not self._universal(c) else c))
        for t, c in b2:
            if t != "b":
                ns.pc.append((t, z3.Implies(Not(sel), c) if not self._universal(c) else c))
        # remaining branch facts: sel -> rest of c1, !sel -> rest of c2
        r1 = [c for c in c1 if not c.eq(sel)]
        r2 = [c for c in c2 if not c.eq(Not(sel))]
        if r1:
            ns.pc.append(("b", z3.Implies(sel, And(*r1))))
        if r2:
            ns.pc.append(("b", z3.Implies(Not(sel), And(*r2))))
        ns.typed = s1.typed & s2.typed
        # both continue the same history of writes: what each branch wrote after it is kept, in full
        a, b = s1.writes, s2.writes
        k = 0
        while k < len(a) and k < len(b) and a[k] is b[k]:
            k += 1
        seen = set((r, p) for r, p in a[k:])
        ns.writes = list(a) + [w for w in b[k:] if w not in seen]
        return ns, v

    def _universal(self, c):
        return False

    def _exclusive(self, s1, base, c1, c2):
        s = z3.Solver()
        for t, c in s1.pc[:base]:
            if t != "q":
                s.add(c)
        s.add(And(*c1), And(*c2))
        return limited(s, 200) == z3.unsat

    def join_all(self, base, outs, roots):
        """outs: [(state, val)] -> joined list"""
        outs = [o for o in outs if not o[0].dead]
        if len(outs) <= 1 or (self.keep_paths and len(self.stack) <= 1):
            return outs
        changed = True
        while changed and len(outs) > 1:
            changed = False
            # join neighbours first (deepest shared prefix)
            n = len(outs)
            best = None
            pairs = [(i, j) for i in range(n) for j in range(i + 1, n)] if n <= 14 else [(i, i + 1) for i in range(n - 1)]
            def shared(i, j):
                a, b = outs[i][0].pc, outs[j][0].pc
                k = base
                while k < len(a) and k < len(b) and a[k][1].eq(b[k][1]):
                    k += 1
                return -k
            pairs.sort(key=lambda p: shared(*p))
            for i, j in pairs:
                r = self.join_two(base, outs[i][0], outs[i][1], outs[j][0], outs[j][1], roots)
                if r is not None:
                    outs = [o for k, o in enumerate(outs) if k not in (i, j)] + [r]
                    changed = True
                    break
        return outs

    # ------------------------------------------------------------ functions
    def call_func(self, st, f, this, args, node=None):
        """args: LV (reference parameters) or values; -> [(state, value-or-LV)]"""
        c = self.contract_for(f)
        if c is not None and c is not self.nocontract and not c.inline and f.qual not in self.nocontract_active():
            return self.apply_contract(st, c, f, this, args)
        if len(self.stack) > 40 or self.stack.count(f.node["id"]) > 3:
            raise Unsupported("recursion in " + f.qual)
        self.inlined[f.qual] = self.inlined.get(f.qual, 0) + 1
        saved_env, saved_this = st.env, st.this
        env = {}
        for p, a in zip(f.params, args):
            pref = parse_type(p["type"]["qualType"]).kind == "ref"
            if isinstance(a, LV):
                if pref:
                    env[p["id"]] = a
                else:
                    v = self.load(st, a)
                    env[p["id"]] = self.new_root(st, v, self.T.of(p), p.get("name", "p"))
            else:
                ct = self.T.of(p)
                if isinstance(a, Z) and a.ct is not ct:
                    a = self.conv(st, a, ct)
                env[p["id"]] = self.new_root(st, a, ct, p.get("name", "p"))
        for p in f.params[len(args):]:
            d = [c for c in p.get("inner", []) if isinstance(c, dict) and c.get("kind") not in ("FullComment",)]
            if not d:
                raise Unsupported("missing argument for " + f.qual)
            pref = parse_type(p["type"]["qualType"]).kind == "ref"
            r = self.ev(st, d[0])
            if len(r) != 1:
                raise Unsupported("forking default argument")
            st, v = r[0]
            if isinstance(v, LV) and not pref:
                v = self.load(st, v)
            env[p["id"]] = v if isinstance(v, LV) else self.new_root(st, v, self.T.of(p), p.get("name", "p"))
        st.env, st.this = env, this
        base = len(st.pc)
        roots = list(st.store)
        self.stack.append(f.node["id"])
        try:
            outs = self.exec_body(st, f)
        finally:
            self.stack.pop()
        res = []
        retref = self.ret_is_ref(f)
        for s, v in outs:
            s.env, s.this = saved_env, saved_this
            res.append((s, v))
        res = self.join_all(base, res, roots)
        for s, v in res:
            s.env = dict(saved_env)
        return res

    def nocontract_active(self):
        return self.nocontract

    def ret_is_ref(self, f):
        q = f.ty
        t = parse_type(q)
        return t.kind == "fun" and t.inner.kind == "ref"

    def ret_ct(self, f):
        t = parse_type(f.ty)
        if t.kind == "fun":
            return self.T.norm(t.inner)
        raise Unsupported("return type of " + f.qual)

    def exec_body(self, st, f):
        """run constructor initialisers and the body; -> [(state, return value)]"""
        if f.node["kind"] == "CXXConstructorDecl":
            states = self.ctor_inits(st, f)
        else:
            states = [st]
        if f.body is None:
            raise Unsupported("no body: " + f.qual)
        outs = []
        for s in states:
            for s2, flow in self.exec(s, f.body):
                if flow is None:
                    outs.append((s2, VOID))
                elif flow[0] == "ret":
                    outs.append((s2, flow[1]))
                else:
                    raise Unsupported("flow escapes function")
        if len(outs) > self.maxpaths:
            raise Unsupported("too many paths in " + f.qual)
        return outs

    # ------------------------------------------------------------ statements
    def exec(self, st, n):
        k = n.get("kind")
        m = getattr(self, "x_" + k, None)
        if m:
            return m(st, n)
        # expression statement
        return [(s, None) for s, _ in self.ev(st, n)]

    def x_NullStmt(self, st, n):
        return [(st, None)]

    def x_CompoundStmt(self, st, n):
        live = [st]
        done = []
        for c in n.get("inner", []):
            nxt = []
            for s in live:
                for s2, flow in self.exec(s, c):
                    if s2.dead:
                        continue
                    if flow is None:
                        nxt.append(s2)
                    else:
                        done.append((s2, flow))
            live = nxt
            if not live:
                break
            if len(live) > self.maxpaths:
                raise Unsupported("too many paths")
        return [(s, None) for s in live] + done

    def x_DeclStmt(self, st, n):
        states = [st]
        for d in n.get("inner", []):
            k = d.get("kind")
            if k == "VarDecl":
                states = [s2 for s in states for s2 in self.decl_var(s, d)]
            elif k == "DecompositionDecl":
                states = [s2 for s in states for s2 in self.decl_decomp(s, d)]
            elif k in ("TypedefDecl", "TypeAliasDecl", "CXXRecordDecl", "UsingDirectiveDecl", "UsingDecl", "StaticAssertDecl", "EnumDecl", "EmptyDecl"):
                pass
            else:
                raise Unsupported("decl " + k)
        return [(s, None) for s in states]

    def decl_var(self, st, d):
        tq = d["type"].get("desugaredQualType") or d["type"]["qualType"]
        isref = parse_type(d["type"]["qualType"]).kind == "ref" or parse_type(tq).kind == "ref"
        init = [c for c in d.get("inner", []) if isinstance(c, dict) and c.get("kind") not in ("FullComment",)]
        self.prog.by_id[d["id"]] = d
        if d.get("storageClass") == "static" and init:
            g = self.global_lv(st, d["id"], d)
            st.env[d["id"]] = g
            return [st]
        ct = self.T.of(d)
        if not init or d.get("init") is None:
            v = self.default_val(st, ct) if ct.kind not in ("int", "bool", "enum", "real", "ptr") else self.havoc_val(st, ct)
            st.env[d["id"]] = self.new_root(st, v, ct, d.get("name", "v"))
            return [st]
        out = []
        for s, v in self.ev(st, init[0]):
            if isref:
                if not isinstance(v, LV):
                    v = self.new_root(s, v, ct, d.get("name", "v"))
                s.env[d["id"]] = v
            else:
                if isinstance(v, LV):
                    v = self.load(s, v)
                if isinstance(v, Z):
                    v = self.conv(s, v, ct)
                s.env[d["id"]] = self.new_root(s, v, ct if not isinstance(v, (Clo, Over)) else self.T.opq("fun"), d.get("name", "v"))
            out.append(s)
        return out

    def decl_decomp(self, st, d):
        inner = d.get("inner", [])
        init = inner[0]
        binds = [c for c in inner[1:] if c.get("kind") == "BindingDecl"]
        isref = parse_type(d["type"]["qualType"]).kind == "ref"
        out = []
        for s, v in self.ev(st, init):
            if isinstance(v, LV) and not isref:
                lv = self.new_root(s, self.load(s, v), self.lvct(s, v), "decomp")
            elif isinstance(v, LV):
                lv = v
            else:
                lv = self.new_root(s, v, v.ct, "decomp")
            self.bind_decomp(s, lv, binds)
            out.append(s)
        return out

    def bind_decomp(self, s, lv, binds):
        ct = self.lvct(s, lv)
        for i, b in enumerate(binds):
            if ct.kind == "tup":
                t = lv.at("t", i)
            elif ct.kind == "rec":
                fs = [n for n, _ in self.T.fields(ct)]
                t = lv.at("f", fs[i])
            else:
                raise Unsupported("structured binding of " + ct.key)
            s.env[b["id"]] = t
            for c in b.get("inner", []):
                if c.get("kind") == "VarDecl":
                    s.env[c["id"]] = t

    def x_ReturnStmt(self, st, n):
        inner = [c for c in n.get("inner", []) if c]
        if not inner:
            return [(st, ("ret", VOID))]
        out = []
        for s, v in self.ev(st, inner[0]):
            out.append((s, ("ret", v)))
        return out

    def x_BreakStmt(self, st, n):
        return [(st, ("break",))]

    def x_ContinueStmt(self, st, n):
        return [(st, ("continue",))]

    def x_IfStmt(self, st, n):
        inner = list(n.get("inner", []))
        states = [st]
        if n.get("hasInit"):
            i0 = inner.pop(0)
            states = [s2 for s in states for s2, _ in self.exec(s, i0)]
        if n.get("hasVar"):
            v0 = inner.pop(0)
            states = [s2 for s in states for s2, _ in self.exec(s, v0)]
        cond, then = inner[0], inner[1]
        els = inner[2] if n.get("hasElse") else None
        out = []
        for s in states:
            base = len(s.pc)
            roots = list(s.store)
            outs = []
            for s1, c in self.ev(s, cond):
                cv = self.as_bool(s1, c)
                for s2, tv in self.branch(s1, cv):
                    if tv:
                        outs.extend(self.exec(s2, then))
                    elif els is not None:
                        outs.extend(self.exec(s2, els))
                    else:
                        outs.append((s2, None))
            live = [(a, None) for a, fl in outs if fl is None and not a.dead]
            rest = [(a, fl) for a, fl in outs if fl is not None]
            if len(live) > 1 and not any(self._has_ret(x) for x in rest):
                live = self.join_all(base, live, roots)
            out.extend([(a, None) for a, _ in live])
            out.extend(rest)
        return out

    def _has_ret(self, x):
        return False

    def x_SwitchStmt(self, st, n):
        inner = list(n.get("inner", []))
        states = [st]
        if n.get("hasInit"):
            states = [s2 for s in states for s2, _ in self.exec(s, inner.pop(0))]
        if n.get("hasVar"):
            states = [s2 for s in states for s2, _ in self.exec(s, inner.pop(0))]
        cond, body = inner[0], inner[1]
        # flatten cases
        items = []   # ('case', node) / ('default',) / stmt
        def flat(x):
            if x.get("kind") == "CaseStmt":
                items.append(("case", x["inner"][0]))
                flat(x["inner"][-1])
            elif x.get("kind") == "DefaultStmt":
                items.append(("default",))
                flat(x["inner"][0])
            else:
                items.append(("stmt", x))
        for c in body.get("inner", []):
            flat(c)
        out = []
        for s in states:
            base = len(s.pc)
            roots = list(s.store)
            outs = []
            for s1, v in self.ev(s, cond):
                v = self.rv(s1, v)
                entries = []
                rest = s1
                alive = True
                dflt = None
                for i, it in enumerate(items):
                    if it[0] == "default":
                        dflt = i
                    if it[0] == "case" and alive:
                        cv = self.const_of(it[1])
                        br = self.branch(rest, Eq(v.t, z3.IntVal(cv)))
                        alive = False
                        for b, tv in br:
                            if tv:
                                entries.append((b, i))
                            else:
                                rest = b
                                alive = True
                if alive:
                    entries.append((rest, dflt))
                for b, i in entries:
                    if i is None:
                        outs.append((b, None))
                        continue
                    live = [b]
                    for it in items[i:]:
                        if it[0] != "stmt":
                            continue
                        nxt = []
                        for x in live:
                            for s2, fl in self.exec(x, it[1]):
                                if fl is None:
                                    nxt.append(s2)
                                elif fl[0] == "break":
                                    outs.append((s2, None))
                                else:
                                    outs.append((s2, fl))
                        live = nxt
                    outs.extend((x, None) for x in live)
            live = [(a, None) for a, fl in outs if fl is None and not a.dead]
            rest_ = [(a, fl) for a, fl in outs if fl is not None]
            if len(live) > 1:
                live = self.join_all(base, live, roots)
            out.extend([(a, None) for a, _ in live])
            out.extend(rest_)
        return out

    def const_of(self, n):
        if "value" in n:
            try:
                return int(n["value"])
            except ValueError:
                pass
        rd = n.get("referencedDecl")
        if rd and rd["id"] in self.prog.enum_const:
            return self.prog.enum_const[rd["id"]][1]
        for c in n.get("inner", []):
            v = self.const_of(c)
            if v is not None:
                return v
        return None

    def x_CXXTryStmt(self, st, n):
        inner = n["inner"]
        body, handlers = inner[0], inner[1:]
        self.sinks.append([])
        try:
            outs = self.exec(st, body)
        finally:
            caught = self.sinks.pop()
        for s, what in caught:
            h = handlers[0]
            hb = h["inner"][-1]
            for c in h["inner"]:
                if c and c.get("kind") == "VarDecl":
                    s.env[c["id"]] = self.new_root(s, Z(self.freshsort(self.T.sort(self.T.EXC), "exc"), self.T.EXC), self.T.EXC, "exc")
            self.catching = what
            outs.extend(self.exec(s, hb))
        return outs

    # ------------------------------------------------------------ loops
    def x_CXXForRangeStmt(self, st, n):
        inner = n["inner"]
        init, rng, beg, end, cond, inc, var, body = (inner + [None] * 8)[:8]
        states = [st]
        if init and init.get("kind"):
            states = [s for s0 in states for s, _ in self.exec(s0, init)]
        out = []
        for s0 in states:
            rv = rng["inner"][0]
            rinit = [c for c in rv["inner"] if c][0]
            for s, v in self.ev(s0, rinit):
                if not isinstance(v, LV):
                    v = self.new_root(s, v, v.ct if isinstance(v, Z) else self.T.of(rv), "rng")
                s.env[rv["id"]] = v
                out.extend(self.range_loop(s, n, v, var["inner"][0], body))
        return out

    def loop_elem(self, s, cont, idx):
        """(lv or value) of element idx of container"""
        val = s.store[cont.root] if not cont.path else None
        if isinstance(val, Seq):
            return val.items[numeral(idx)]
        ct = self.lvct(s, cont)
        if ct.kind == "vec":
            return cont.at("i", idx)
        z = self.load(s, cont)
        a = ct.con[0].arity() if self.T.sort(ct) is not None else 0
        key = Select(self.L.acc(ct, 0, a - 3, z.t), idx)
        self.assume(s, Select(self.L.acc(ct, 0, 0, z.t), key))
        self.typing(s, key, ct.args[0])
        if ct.kind == "set":
            return Z(key, ct.args[0])
        return ("kv", Z(key, ct.args[0]), cont.at("m", key))

    def container_len(self, s, cont):
        v = self.load(s, cont)
        if isinstance(v, Seq):
            return z3.IntVal(len(v.items))
        ct = v.ct
        if ct.kind == "vec":
            return self.L.vlen(ct, v.t)
        if ct.kind in ("set", "map"):
            self.T.sort(ct)
            return self.L.acc(ct, 0, ct.con[0].arity() - 1, v.t)
        raise Unsupported("range over " + ct.key)

    def bind_loopvar(self, s, var, e):
        isref = parse_type(var["type"]["qualType"]).kind == "ref"
        if isinstance(e, tuple) and e[0] == "kv":
            binds = [c for c in var.get("inner", []) if c.get("kind") == "BindingDecl"]
            tct = self.T.tup([e[1].ct, self.lvct(s, e[2])])
            if var["kind"] == "DecompositionDecl":
                klv = self.new_root(s, e[1], e[1].ct, "key")
                s.env[binds[0]["id"]] = klv
                vlv = e[2] if isref else self.new_root(s, self.load(s, e[2]), self.lvct(s, e[2]), "val")
                s.env[binds[1]["id"]] = vlv
                for b, t in ((binds[0], klv), (binds[1], vlv)):
                    for c in b.get("inner", []):
                        if c.get("kind") == "VarDecl":
                            s.env[c["id"]] = t
                return
            self.T.sort(tct)
            s.env[var["id"]] = self.new_root(s, Z(tct.con[0](e[1].t, self.load(s, e[2]).t), tct), tct, "kv")
            return
        if isinstance(e, LV):
            lv = e if isref else self.new_root(s, self.load(s, e), self.lvct(s, e), var.get("name", "x"))
        else:
            ct = e.ct if isinstance(e, Z) else self.T.of(var)
            lv = self.new_root(s, e, ct, var.get("name", "x"))
        if var["kind"] == "DecompositionDecl":
            self.bind_decomp(s, lv, [c for c in var.get("inner", []) if c.get("kind") == "BindingDecl"])
        else:
            s.env[var["id"]] = lv

    def range_loop(self, s, n, cont, var, body):
        ln = self.container_len(s, cont)
        ln = z3.simplify(ln)
        cn = numeral(ln)
        if cn is not None and cn <= UNROLL:
            return self.unroll_range(s, n, cont, var, body, cn)
        ident = self.L_ident(n)
        ct = self.lvct(s, cont)
        entry_val = self.load(s, cont)

        def head(hs, it):
            return [(hs, it < ln)]

        def step_body(hs, it):
            e = self.loop_elem(hs, cont, it)
            self.bind_loopvar(hs, var, e)
            return self.exec(hs, body)

        def post(hs, it):
            # the container must not change its length / membership while it is iterated
            now = self.load(hs, cont)
            nl = self.container_len(hs, cont)
            self.safe(hs, "container not resized while iterated (loop %s)" % ident, Eq(nl, ln))
            if ct.kind in ("set", "map"):
                a = ct.con[0].arity()
                self.safe(hs, "container keys unchanged while iterated (loop %s)" % ident,
                          And(Eq(self.L.acc(ct, 0, a - 3, now.t), self.L.acc(ct, 0, a - 3, entry_val.t)), Eq(self.L.acc(ct, 0, 0, now.t), self.L.acc(ct, 0, 0, entry_val.t))))
            return [hs]
        return self.sym_loop(s, n, "range", head, step_body, post, cont=cont, bound=ln)

    def L_ident(self, n):
        return str(self.loop_ordinal(n))

    def loop_ordinal(self, n):
        """position of this loop among the loops of its function (document order)"""
        return n.get("_ord", "?")

    def unroll_range(self, s, n, cont, var, body, cn):
        live, done = [s], []
        base = len(s.pc)
        roots = list(s.store)
        for i in range(cn):
            nxt = []
            for x in live:
                if numeral(z3.simplify(self.container_len(x, cont))) != cn:
                    self.safe(x, "container not resized while iterated", z3.BoolVal(False))
                    continue
                e = self.loop_elem(x, cont, z3.IntVal(i))
                self.bind_loopvar(x, var, e)
                for s2, fl in self.exec(x, body):
                    if fl is None or fl[0] == "continue":
                        nxt.append(s2)
                    elif fl[0] == "break":
                        done.append((s2, None))
                    else:
                        done.append((s2, fl))
            live = nxt
            if len(live) > 1:
                live = [a for a, _ in self.join_all(base, [(a, None) for a in live], roots)]
            if not live:
                break
            if len(live) > self.maxpaths:
                raise Unsupported("too many paths in unrolled loop")
        return [(x, None) for x in live] + done

    def x_ForStmt(self, st, n):
        inner = n["inner"]
        init, var, cond, inc, body = inner
        states = [st]
        if init and init.get("kind"):
            states = [s for s0 in states for s, _ in self.exec(s0, init)]
        out = []
        for s in states:
            out.extend(self.while_loop(s, n, cond if cond and cond.get("kind") else None, inc if inc and inc.get("kind") else None, body))
        return out

    def x_WhileStmt(self, st, n):
        inner = [c for c in n["inner"] if c]
        if n.get("hasVar"):
            raise Unsupported("while with variable")
        return self.while_loop(st, n, inner[0], None, inner[1])

    def x_DoStmt(self, st, n):
        raise Unsupported("do-while loop")

    def while_loop(self, s, n, cond, inc, body):
        # peel iterations while the condition is concrete
        done, live = [], [s]
        peeled = 0
        literal = cond is None or cond.get("kind") == "CXXBoolLiteralExpr" or (cond.get("inner") and cond["inner"][0].get("kind") == "CXXBoolLiteralExpr")
        base = len(s.pc)
        roots = list(s.store)
        while live:
            nxt, sym = [], []
            for x in live:
                if literal:
                    sym.append((x, None))
                    continue
                saved = self.dry
                x0 = x.copy()
                self.dry += 1
                sk = self.sinks
                self.sinks = [[]]
                try:
                    r = self.ev(x, cond)
                finally:
                    self.dry = saved
                    thrown = self.sinks[0]
                    self.sinks = sk
                conc = None
                if len(r) == 1 and not thrown:
                    cv = z3.simplify(self.as_bool(r[0][0], r[0][1]))
                    if z3.is_true(cv):
                        conc = True
                    elif z3.is_false(cv):
                        conc = False
                if conc is None:
                    sym.append((x0, None))
                    continue
                if not conc:
                    for s2, _ in self.ev(x0, cond):
                        done.append((s2, None))
                    continue
                for s1, _ in self.ev(x0, cond):
                    for s2, fl in self.exec(s1, body):
                        if fl is None or fl[0] == "continue":
                            if inc is not None:
                                nxt.extend(a for a, _ in self.ev(s2, inc))
                            else:
                                nxt.append(s2)
                        elif fl[0] == "break":
                            done.append((s2, None))
                        else:
                            done.append((s2, fl))
            for x, _ in sym:
                done.extend(self.sym_while(x, n, cond, inc, body))
            if len(nxt) > 1:
                nxt = [a for a, _ in self.join_all(base, [(a, None) for a in nxt], roots)]
            live = nxt
            peeled += 1
            if peeled > UNROLL:
                raise Unsupported("loop not bounded by unrolling")
        return done

    def sym_while(self, s, n, cond, inc, body):
        def head(hs, it):
            if cond is None:
                return [(hs, z3.BoolVal(True))]
            return [(s2, self.as_bool(s2, v)) for s2, v in self.ev(hs, cond)]

        def step_body(hs, it):
            return self.exec(hs, body)

        def post(hs, it):
            if inc is None:
                return [hs]
            return [a for a, _ in self.ev(hs, inc)]
        return self.sym_loop(s, n, "while", head, step_body, post)

    # ---- generic loop rule: havoc what the body writes, keep the invariants that are inductive (Houdini over candidates)
    def norm_writes(self, s, writes, roots, types):
        """-> {root: {static prefix: depth}}"""
        res = {}
        for r, p in writes:
            if r not in roots:
                continue
            pre, d = [], 0
            rest = list(p)
            while rest and rest[0][0] in ("f", "v", "a", "t"):
                pre.append(rest.pop(0))
            if rest:
                if rest[0][0] == "i":
                    while rest and rest[0][0] == "i":
                        d += 1
                        rest.pop(0)
                elif rest[0][0] == "m":
                    d = -1
                elif rest[0][0] == "cf":
                    d = 0
            pre = tuple(pre)
            cur = res.setdefault(r, {})
            cur.setdefault(pre, set()).add(d)
        # drop locations covered by a shorter whole write
        out = []
        for r, m in res.items():
            for pre, ds in m.items():
                cov = False
                for q, dq in m.items():
                    if len(q) < len(pre) and pre[:len(q)] == q:
                        cov = True
                if cov:
                    continue
                # longer prefixes under an element write are part of it
                d = 0 if 0 in ds else (-1 if ds == {-1} else (0 if -1 in ds else min(ds)))
                if any(len(q) > len(pre) and q[:len(pre)] == pre for q in m) and d > 0:
                    d = 0
                out.append((r, pre, d))
        return out

    def havoc_val(self, st, ct, hint="h"):
        if ct.kind == "ptr":
            return P(False, None, ct.elem)
        t = self.fresh(ct, hint)
        self.typing(st, t, ct)
        return Z(t, ct)

    def havoc_loc(self, s, r, pre, d, hint="h"):
        """returns (fresh term or None)"""
        cur = s.store[r]
        lv = LV(r, pre)
        if isinstance(cur, Z):
            t0, ct = self.L.get(cur.t, cur.ct, pre)
            if d >= 1 and ct.kind == "vec":
                t = self.fresh(ct, hint)
                s.pc.append(("f", self.L.vlen(ct, t) == self.L.vlen(ct, t0)))
                if d >= 2 and ct.elem.kind == "vec":
                    i = z3.Int("i!shape")
                    s.pc.append(("q", FA([i], self.L.vlen(ct.elem, self.L.vat(ct, t, i)) == self.L.vlen(ct.elem, self.L.vat(ct, t0, i)), patterns=[self.L.vat(ct, t, i)])))
            elif d == -1 and ct.kind == "map":
                old = [self.L.acc(ct, 0, j, t0) for j in range(5)]
                old[1] = self.freshsort(old[1].sort(), hint)
                t = ct.con[0](*old)
            else:
                t = self.fresh(ct, hint)
            self.typing(s, t, ct)
            s.store[r] = Z(self.L.put(cur.t, cur.ct, pre, t, guard=True), cur.ct)
            s.writes.append((r, pre))
            return t
        if isinstance(cur, Agg) and pre and pre[0][0] == "f":
            raise Unsupported("havoc inside aggregate")
        if isinstance(cur, P):
            return None
        if isinstance(cur, It):
            nv = It(cur.lv, self.fint(hint), cur.ct)
            s.store[r] = nv
            return nv.idx
        raise Unsupported("cannot havoc %r" % (cur,))

    def sym_loop(self, s0, n, kind, head, body, post, cont=None, bound=None):
        import houdini
        return houdini.run(self, s0, n, kind, head, body, post, cont, bound)

    # ------------------------------------------------------------ expressions
    def ev(self, st, n):
        if st.dead:
            return []
        k = n.get("kind")
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression %s" % k)
        return m(st, n)

    def evv(self, st, n):
        """evaluate to a value (loads lvalues)"""
        return [(s, self.rv(s, v)) for s, v in self.ev(st, n)]

    def rv(self, s, v):
        return self.load(s, v) if isinstance(v, LV) else v

    def ev_list(self, st, nodes, rvalue=None):
        """evaluate nodes left to right -> [(state, [vals])]"""
        cur = [(st, [])]
        for i, x in enumerate(nodes):
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(s, x):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def as_bool(self, s, v):
        v = self.rv(s, v)
        if isinstance(v, P):
            return B(v.has)
        if isinstance(v, Z):
            if v.ct.kind == "bool":
                return v.t
            if v.ct.kind in ("int", "enum", "real"):
                return self.cast_num(s, v, self.T.BOOL).t
            if v.ct.kind == "opt":
                return self.L.is_some(v.ct, v.t)
            if v.ct.kind == "str":
                return z3.BoolVal(True)      # the address of a literal
        raise Unsupported("as_bool %r" % (v,))

    def conv(self, st, v, ct):
        if isinstance(v, Z) and v.ct is not ct:
            if ct.kind in ("void", "opq") and v.ct.kind != "opq":
                return v
            if ct.kind in ("ptr", "refw"):
                return v
            if v.ct.kind == "null" and ct.kind == "ptr":
                return P(False, None, ct.elem)
            return self.coerce(st, v, ct)
        return v

    def default_val(self, st, ct):
        k = ct.kind
        if k == "int" or k == "enum" or k == "str":
            return Z(z3.IntVal(0), ct)
        if k == "bool":
            return Z(z3.BoolVal(False), ct)
        if k == "real":
            return Z(z3.RealVal(0), ct)
        if k == "opt":
            if ct.elem.kind == "refw":
                return P(False, None, ct.elem.elem)
            return Z(self.L.none(ct), ct)
        if k == "ptr":
            return P(False, None, ct.elem)
        if k == "vec":
            if ct.elem.kind in ("ptr", "refw"):
                return Seq([], ct)
            arr = self.freshsort(z3.ArraySort(z3.IntSort(), self.T.sort(ct.elem)), "e")
            if ct.flavor in ("array", "carray") and ct.n:
                for i in range(ct.n):
                    arr = z3.Store(arr, i, self.term(st, self.default_val(st, ct.elem), ct.elem))
                return Z(self.L.mkvec(ct, arr, z3.IntVal(ct.n)), ct)
            return Z(self.L.mkvec(ct, arr, z3.IntVal(0)), ct)
        if k in ("set", "map"):
            self.T.sort(ct)
            K = self.T.sort(ct.args[0])
            args = [z3.K(K, z3.BoolVal(False))]
            if k == "map":
                args.append(self.freshsort(z3.ArraySort(K, self.T.sort(ct.args[1])), "mv"))
            args += [self.freshsort(z3.ArraySort(z3.IntSort(), K), "sq"), self.freshsort(z3.ArraySort(K, z3.IntSort()), "ps"), z3.IntVal(0)]
            return Z(ct.con[0](*args), ct)
        if k == "var":
            self.T.sort(ct)
            return Z(ct.con[0](self.term(st, self.default_val(st, ct.args[0]), ct.args[0])), ct)
        if k == "tup":
            self.T.sort(ct)
            return Z(ct.con[0](*[self.term(st, self.default_val(st, a), a) for a in ct.args]), ct)
        if k == "rec":
            return self.build_rec(st, ct, {})
        if k == "opq":
            return Z(self.freshsort(self.T.sort(ct), "opq"), ct)
        if k == "void":
            return VOID
        raise Unsupported("default value of " + ct.key)

    def build_rec(self, st, ct, given):
        """record value from field values; missing fields get their default initialiser (no forking)"""
        vals = {}
        rec = self.prog.records.get(ct.name)
        inits = {}
        if rec:
            for name, ts, nd in rec.fields:
                ini = [c for c in nd.get("inner", []) if isinstance(c, dict) and c.get("kind") and not c["kind"].endswith("Comment")]
                if nd.get("hasInClassInitializer") and ini:
                    inits[name] = ini[0]
        for nme, fct in self.T.fields(ct):
            if nme in given:
                vals[nme] = given[nme]
            elif nme in inits:
                r = self.ev(st, inits[nme])
                if len(r) != 1:
                    raise Unsupported("forking field initialiser")
                vals[nme] = self.conv(st, self.rv(st, r[0][1]), fct)
            else:
                vals[nme] = self.default_val(st, fct)
        return self.mk_record(st, ct, vals)

    def mk_record(self, st, ct, vals):
        if any(isinstance(v, (P, Clo, Fn, It, Over)) or (isinstance(v, Seq)) or isinstance(v, Agg) for v in vals.values()):
            keep = any(isinstance(v, (P, Clo, It)) and not (isinstance(v, P) and v.lv is None) for v in vals.values()) or any(isinstance(v, Agg) for v in vals.values())
            if keep and ct.name not in self.opaque_refs():
                return Agg(ct, dict(vals))
        args = []
        fs = self.T.fields(ct)
        self.T.sort(ct)
        if not getattr(ct, "con", None):
            return Z(self.freshsort(self.T.sort(ct), "opq"), ct)
        for nme, fct in self.T.fields(ct):
            args.append(self.term(st, vals[nme], fct))
        return Z(self.L.mkrec(ct, args), ct)

    def opaque_refs(self):
        return ()

    # -- literals and references
    def e_IntegerLiteral(self, st, n):
        return [(st, Z(z3.IntVal(int(n["value"])), self.T.of(n)))]

    def e_CharacterLiteral(self, st, n):
        return [(st, Z(z3.IntVal(int(n["value"])), self.T.of(n)))]

    def e_CXXBoolLiteralExpr(self, st, n):
        return [(st, Z(z3.BoolVal(bool(n["value"])), self.T.BOOL))]

    def e_FloatingLiteral(self, st, n):
        return [(st, Z(z3.RealVal(str(n["value"])) if "e" not in str(n["value"]) else z3.RealVal(repr(float(n["value"]))) if "e" not in repr(float(n["value"])) else z3.Real("flt_" + str(n["value"])), self.T.REAL))]

    def e_StringLiteral(self, st, n):
        v = n["value"]
        if v.startswith('"'):
            import json
            try:
                v = json.loads(v)
            except Exception:
                v = v[1:-1]
        return [(st, Z(z3.IntVal(self.T.lit(v)), self.T.STR))]

    def e_UserDefinedLiteral(self, st, n):
        for c in n["inner"]:
            x = c
            while x.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
                x = x["inner"][0]
            if x.get("kind") == "StringLiteral":
                return self.e_StringLiteral(st, x)
        raise Unsupported("user defined literal")

    def e_CXXNullPtrLiteralExpr(self, st, n):
        return [(st, Z(self.nullv(), self.T._mk("null", "null")))]

    def nullv(self):
        ct = self.T._mk("null", "null")
        if "null" not in self.ufs:
            self.ufs["null"] = z3.Const("nullv", self.T.sort(ct))
        return self.ufs["null"]

    def e_CXXThisExpr(self, st, n):
        if st.this is None:
            raise Unsupported("this outside method")
        t = self.T.of(n)
        return [(st, P(True, st.this, t.elem if t.kind == "ptr" else t))]

    def global_lv(self, st, did, node=None):
        """global / static variable: one root per declaration, with its constant initialiser if const"""
        key = "global:" + did
        if key in st.store:
            return LV(key)
        if node is None:
            node = self.prog.globals[did][0]
        ct = self.T.of(node)
        q = node["type"]["qualType"]
        init = [c for c in node.get("inner", []) if isinstance(c, dict) and c.get("kind") and not c["kind"].endswith("Comment")]
        if ("const" in q.split() or node.get("constexpr")) and init:
            r = self.ev(st, init[0])
            if len(r) != 1:
                raise Unsupported("global initialiser forks")
            v = self.conv(st, self.rv(st, r[0][1]), ct)
        else:
            v = self.havoc_val(st, ct, "g_" + node.get("name", "g"))
        st.store[key] = v
        st.types[key] = ct
        return LV(key)

    def e_DeclRefExpr(self, st, n):
        rd = n["referencedDecl"]
        i = rd["id"]
        if i in st.env:
            return [(st, st.env[i])]
        if rd["kind"] == "EnumConstantDecl":
            if i in self.prog.enum_const:
                q, v = self.prog.enum_const[i]
                return [(st, Z(z3.IntVal(v), self.T._mk("enum", q, name=q)))]
            raise Unsupported("enum constant " + rd["name"])
        if rd["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            f = self.prog.definition(i)
            if f is not None:
                return [(st, Fn(f))]
            return [(st, Fn(n))]
        if rd["kind"] == "VarDecl":
            if rd["name"] == "nullopt":
                return [(st, Z(self.nullv(), self.T._mk("null", "null")))]
            if i in self.prog.globals:
                return [(st, self.global_lv(st, i))]
            nd = self.prog.by_id.get(i)
            if rd["name"] in ("cout", "cerr", "endl"):
                return [(st, Z(self.freshsort(self.T.sort(self.T.opq("std::ostream")), "os"), self.T.opq("std::ostream")))]
            ct = self.T.of(rd)
            key = "extern:" + rd["name"]
            if key not in st.store:
                st.store[key] = self.havoc_val(st, ct, rd["name"])
                st.types[key] = ct
            return [(st, LV(key))]
        if rd["kind"] == "BindingDecl":
            raise Unsupported("binding " + rd["name"])
        raise Unsupported("reference to %s %s" % (rd["kind"], rd.get("name")))

    # -- wrappers
    def _pass(self, st, n):
        return self.ev(st, n["inner"][0])

    e_ExprWithCleanups = e_ParenExpr = e_CXXBindTemporaryExpr = e_ConstantExpr_ = _pass
    e_SubstNonTypeTemplateParmExpr = lambda self, st, n: self.ev(st, n["inner"][-1])

    def e_ConstantExpr(self, st, n):
        return self.ev(st, n["inner"][0])

    def e_MaterializeTemporaryExpr(self, st, n):
        out = []
        for s, v in self.ev(st, n["inner"][0]):
            if not isinstance(v, LV):
                ct = v.ct if isinstance(v, Z) else self.T.of(n)
                if isinstance(v, (Clo, Over, Fn)):
                    ct = self.T.opq("fun")
                v = self.new_root(s, v, ct, "tmp")
            out.append((s, v))
        return out

    def e_ImplicitCastExpr(self, st, n):
        ck = n.get("castKind")
        if ck == "LValueToRValue":
            return self.evv(st, n["inner"][0])
        if ck in ("NoOp", "FunctionToPointerDecay", "ConstructorConversion", "UserDefinedConversion", "BuiltinFnToFnPtr", "ArrayToPointerDecay", "ToVoid", "BitCast", "AtomicToNonAtomic"):
            return self.ev(st, n["inner"][0])
        if ck in ("UncheckedDerivedToBase", "DerivedToBase"):
            out = []
            for s, v in self.ev(st, n["inner"][0]):
                out.append((s, self.to_base(s, v, n)))
            return out
        if ck in ("IntegralCast", "IntegralToBoolean", "BooleanToSignedIntegral", "IntegralToFloating", "FloatingToIntegral", "FloatingCast", "FloatingToBoolean"):
            ct = self.T.of(n)
            return [(s, self.cast_num(s, v, ct)) for s, v in self.evv(st, n["inner"][0])]
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            return [(s, Z(self.as_bool(s, v), self.T.BOOL)) for s, v in self.evv(st, n["inner"][0])]
        if ck == "NullToPointer":
            ct = self.T.of(n)
            return [(st, P(False, None, ct.elem if ct.kind == "ptr" else ct))]
        if ck == "BaseToDerived":
            return self.ev(st, n["inner"][0])
        raise Unsupported("cast " + str(ck))

    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_ImplicitCastExpr

    def e_CXXDynamicCastExpr(self, st, n):
        raise Unsupported("dynamic_cast")

    def to_base(self, s, v, n):
        names = [p["name"] for p in n.get("path", [])]
        if isinstance(v, P):
            if v.lv is None:
                return v
            lv = v.lv
            for nm in names:
                lv = self._base_lv(s, lv, nm)
            return P(v.has, lv, self.lvct(s, lv))
        if isinstance(v, LV):
            for nm in names:
                v = self._base_lv(s, v, nm)
            return v
        if isinstance(v, Z):
            for nm in names:
                nm = nm.split("::")[-1]
                if v.ct.kind == "rec" and any(f == "@" + nm for f, _ in self.T.fields(v.ct)):
                    t, c = self.L.field(v.ct, v.t, "@" + nm)
                    v = Z(t, c)
            return v
        return v

    def _base_lv(self, s, lv, nm):
        ct = self.lvct(s, lv)
        nm = nm.split("::")[-1]
        if ct.kind == "rec":
            for f, t in self.T.fields(ct):
                if f.startswith("@") and (f == "@" + nm or f[1:].split("<")[0] == nm):
                    return lv.at("f", f)
        return lv

    def deref(self, s, v, what="pointer"):
        """P / It -> LV"""
        if isinstance(v, LV):
            v = self.load(s, v)
        if isinstance(v, P):
            self.safe(s, "null dereference of " + what, B(v.has))
            if v.lv is None:
                if not s.dead:
                    if is_false(v.has) or is_false(z3.simplify(B(v.has))):
                        s.dead = True
                        return None
                    raise Unsupported("dereference of unknown pointer")
                return None
            return v.lv
        if isinstance(v, It):
            ln = self.container_len(s, v.lv)
            self.safe(s, "iterator dereference in range", z3.And(0 <= v.idx, v.idx < ln))
            return self.it_elem(s, v)
        if isinstance(v, Z) and v.ct.kind == "opt":
            raise Unsupported("deref opt value")
        raise Unsupported("deref %r" % (v,))

    def it_elem(self, s, v):
        e = self.loop_elem(s, v.lv, v.idx)
        if isinstance(e, tuple):
            tct = self.T.tup([e[1].ct, self.lvct(s, e[2])])
            self.T.sort(tct)
            return self.new_root(s, Z(tct.con[0](e[1].t, self.load(s, e[2]).t), tct), tct, "kv")
        if not isinstance(e, LV):
            return self.new_root(s, e, e.ct, "elem")
        return e

    def e_UnaryOperator(self, st, n):
        op = n["opcode"]
        sub_ = n["inner"][0]
        if op == "&":
            out = []
            for s, v in self.ev(st, sub_):
                if isinstance(v, Fn):
                    out.append((s, v))
                    continue
                if not isinstance(v, LV):
                    raise Unsupported("address of value")
                out.append((s, P(True, v, self.lvct(s, v))))
            return out
        if op == "*":
            out = []
            for s, v in self.evv(st, sub_):
                if isinstance(v, Fn):
                    out.append((s, v))
                    continue
                lv = self.deref(s, v)
                if lv is not None:
                    out.append((s, lv))
            return out
        if op == "!":
            return [(s, Z(Not(self.as_bool(s, v)), self.T.BOOL)) for s, v in self.evv(st, sub_)]
        if op in ("++", "--"):
            out = []
            for s, lv in self.ev(st, sub_):
                out.append(self.incdec(s, lv, op, n.get("isPostfix", False)))
            return out
        ct = self.T.of(n)
        if op == "-":
            return [(s, Z(self.arith(s, "-", z3.IntVal(0) if ct.kind == "int" else z3.RealVal(0), v.t, ct), ct)) for s, v in self.evv(st, sub_)]
        if op == "+":
            return self.evv(st, sub_)
        if op == "~":
            return [(s, Z(self.wrap(-v.t - 1, ct), ct)) for s, v in self.evv(st, sub_)]
        raise Unsupported("unary " + op)

    def incdec(self, s, lv, op, postfix):
        v = self.load(s, lv)
        if isinstance(v, It):
            nv = It(v.lv, add(v.idx, z3.IntVal(1)) if op == "++" else sub(v.idx, z3.IntVal(1)), v.ct)
            self.store(s, lv, nv)
            return (s, v if postfix else lv)
        nt = self.arith(s, "+" if op == "++" else "-", v.t, z3.IntVal(1) if v.ct.kind != "real" else z3.RealVal(1), v.ct)
        self.store(s, lv, Z(nt, v.ct))
        return (s, v if postfix else lv)

    def arith(self, s, op, a, b, ct):
        if ct.kind == "real":
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                return a / b
            raise Unsupported("real " + op)
        clo, chi = ct.range()
        m = 1 << ct.bits
        x, y = numeral(a), numeral(b)
        if op == "+":
            r = add(a, b)
            if ct.signed:
                return r
            if numeral(r) is not None:
                return z3.IntVal(numeral(r) % m)
            return z3.If(r > chi, r - m, r)
        if op == "-":
            r = sub(a, b)
            if ct.signed:
                return r
            if numeral(r) is not None:
                return z3.IntVal(numeral(r) % m)
            return z3.If(r < 0, r + m, r)
        if op == "*":
            if x is not None and y is not None:
                r = z3.IntVal(x * y)
            else:
                r = a * b
            if ct.signed:
                return r
            return self.wrap(r, ct, 0, None) if numeral(r) is None else z3.IntVal(numeral(r) % m)
        if op in ("/", "%"):
            self.safe(s, "division by zero", Not(Eq(b, z3.IntVal(0))))
            if x is not None and y is not None and y != 0:
                q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                return z3.IntVal(q if op == "/" else x - q * y)
            if ct.signed:
                q = z3.If(a >= 0, a / b, -((-a) / b))
                return q if op == "/" else a - q * b
            return a / b if op == "/" else a % b
        if op == "<<":
            if y is not None:
                return self.wrap(a * (1 << y), ct)
            f = self.uf("pow2", z3.IntSort(), z3.IntSort())
            self.assume(s, f(b) >= 1)
            if x == 1:
                return self.wrap(f(b), ct)
            return self.wrap(a * f(b), ct)
        if op == ">>":
            if y is not None:
                return a / (1 << y)
            f = self.uf("pow2", z3.IntSort(), z3.IntSort())
            self.assume(s, f(b) >= 1)
            return a / f(b)
        if op in ("&", "|", "^"):
            if op == "&" and y == 1:
                return a % 2
            if x is not None and y is not None:
                return z3.IntVal(eval("x %s y" % op))
            f = self.uf("bit" + op, z3.IntSort(), z3.IntSort(), z3.IntSort())
            return f(a, b)
        raise Unsupported("arith " + op)

    def uf(self, name, *sorts):
        key = (name,) + tuple(str(x) for x in sorts)
        if key not in self.ufs:
            self.ufs[key] = z3.Function(name, *sorts)
        return self.ufs[key]

    def compare(self, s, op, a, b):
        """values a, b -> bool term"""
        if isinstance(a, P) or isinstance(b, P):
            return self.cmp_ptr(s, op, a, b)
        if isinstance(a, It) and isinstance(b, It):
            if op in ("==", "!="):
                r = Eq(a.idx, b.idx)
                return r if op == "==" else Not(r)
        if not (isinstance(a, Z) and isinstance(b, Z)):
            raise Unsupported("compare %r %r" % (a, b))
        x, y = a.t, b.t
        if a.ct.kind == "real" and b.ct.kind != "real":
            y = z3.ToReal(y)
        if b.ct.kind == "real" and a.ct.kind != "real":
            x = z3.ToReal(x)
        if op == "==":
            return self.eqv(s, a, b)
        if op == "!=":
            return Not(self.eqv(s, a, b))
        if a.ct.kind == "str":
            raise Unsupported("string order")
        if a.ct.kind not in ("int", "enum", "real", "bool") or b.ct.kind not in ("int", "enum", "real", "bool"):
            raise Unsupported("compare %s %s" % (a.ct.key, b.ct.key))
        nx, ny = (numeral(x), numeral(y)) if a.ct.kind != "real" and b.ct.kind != "real" else (None, None)
        if nx is not None and ny is not None:
            return z3.BoolVal({"<": nx < ny, ">": nx > ny, "<=": nx <= ny, ">=": nx >= ny}[op])
        return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]

    def cmp_ptr(self, s, op, a, b):
        def isnull(v):
            return (isinstance(v, Z) and v.ct.kind == "null") or (isinstance(v, P) and v.lv is None and is_false(v.has))
        if isnull(b):
            r = Not(B(a.has)) if isinstance(a, P) else z3.BoolVal(True)
        elif isnull(a):
            r = Not(B(b.has))
        else:
            raise Unsupported("pointer comparison")
        return r if op == "==" else Not(r)

    def eqv(self, s, a, b):
        """C++ structural equality of values"""
        if a.ct.kind == "null" and b.ct.kind == "opt":
            return Not(self.L.is_some(b.ct, b.t))
        if b.ct.kind == "null" and a.ct.kind == "opt":
            return Not(self.L.is_some(a.ct, a.t))
        if a.ct.kind == "null" and b.ct.kind == "null":
            return z3.BoolVal(True)
        if a.ct.kind == "opt" and b.ct.kind != "opt":
            return And(self.L.is_some(a.ct, a.t), self.eqv(s, Z(self.L.optval(a.ct, a.t), a.ct.elem), b))
        if b.ct.kind == "opt" and a.ct.kind != "opt":
            return self.eqv(s, b, a)
        if a.ct.kind in ("int", "enum", "bool", "real", "str") and b.ct.kind in ("int", "enum", "bool", "real", "str"):
            if a.ct.kind == "bool" and b.ct.kind != "bool":
                a = self.cast_num(s, a, b.ct)
            if b.ct.kind == "bool" and a.ct.kind != "bool":
                b = self.cast_num(s, b, a.ct)
            if a.ct.kind == "bool":
                if z3.is_true(a.t):
                    return b.t
                if z3.is_true(b.t):
                    return a.t
                return a.t == b.t if not a.t.eq(b.t) else z3.BoolVal(True)
            x, y = a.t, b.t
            if a.ct.kind == "real" and b.ct.kind != "real":
                y = z3.ToReal(y)
            elif b.ct.kind == "real" and a.ct.kind != "real":
                x = z3.ToReal(x)
            return Eq(x, y)
        if a.ct.kind == "rec" and b.ct.kind == "rec" and a.ct is b.ct:
            cs = []
            for nme, fct in self.T.fields(a.ct):
                x, _ = self.L.field(a.ct, a.t, nme)
                y, _ = self.L.field(b.ct, b.t, nme)
                cs.append(self.eqv(s, Z(x, fct), Z(y, fct)))
            return And(*cs)
        if a.ct is b.ct and a.ct.kind == "opt":
            ia, ib = self.L.is_some(a.ct, a.t), self.L.is_some(b.ct, b.t)
            e = self.eqv(s, Z(self.L.optval(a.ct, a.t), a.ct.elem), Z(self.L.optval(b.ct, b.t), b.ct.elem))
            return And(B(ia == ib) if not (z3.is_true(ia) and z3.is_true(ib)) else z3.BoolVal(True), Or(Not(ia), e))
        if a.ct is b.ct and a.ct.kind == "tup":
            return And(*[self.eqv(s, Z(self.L.acc(a.ct, 0, j, a.t), x), Z(self.L.acc(a.ct, 0, j, b.t), x)) for j, x in enumerate(a.ct.args)])
        if a.ct is b.ct and a.ct.kind == "var":
            cs = []
            for j, x in enumerate(a.ct.args):
                cs.append(And(self.L.isc(a.ct, j, a.t), self.L.isc(a.ct, j, b.t), self.eqv(s, Z(self.L.acc(a.ct, j, 0, a.t), x), Z(self.L.acc(a.ct, j, 0, b.t), x))))
            return Or(*cs)
        if a.ct.kind == "vec" and b.ct.kind == "vec":
            la, lb = self.L.vlen(a.ct, a.t), self.L.vlen(b.ct, b.t)
            na = numeral(z3.simplify(la))
            nb = numeral(z3.simplify(lb))
            n = na if na is not None else nb
            if n is not None and n <= 16:
                return And(Eq(la, lb), *[self.eqv(s, Z(self.L.vat(a.ct, a.t, z3.IntVal(i)), a.ct.elem), Z(self.L.vat(b.ct, b.t, z3.IntVal(i)), b.ct.elem)) for i in range(n)])
            i = self.fint("eq")
            r = self.fbool("veq")
            e = self.eqv(s, Z(self.L.vat(a.ct, a.t, i), a.ct.elem), Z(self.L.vat(b.ct, b.t, i), b.ct.elem))
            body = And(la == lb, FA([i], z3.Implies(z3.And(0 <= i, i < la), e)))
            s.pc.append(("q", r == body))
            return r
        if a.ct.kind in ("set", "map") and a.ct is b.ct:
            if a.ct.kind == "set":
                return self.L.acc(a.ct, 0, 0, a.t) == self.L.acc(b.ct, 0, 0, b.t)
        if a.ct.kind == "opq" and b.ct.kind == "opq" and self.T.sort(a.ct) == self.T.sort(b.ct):
            return a.t == b.t
        raise Unsupported("equality of %s and %s" % (a.ct.key, b.ct.key))

    def e_BinaryOperator(self, st, n):
        op = n["opcode"]
        l, r = n["inner"]
        if op in ("&&", "||"):
            out = []
            for s, v in self.evv(st, l):
                c = self.as_bool(s, v)
                out.extend(self.shortcut(s, op, c, r))
            return out
        if op == ",":
            out = []
            for s, _ in self.ev(st, l):
                out.extend(self.ev(s, r))
            return out
        if op == "=":
            out = []
            for s, v in self.evv(st, r):
                for s2, lv in self.ev(s, l):
                    self.store(s2, lv, self.conv(s2, v, self.lvct(s2, lv)))
                    out.append((s2, lv))
            return out
        out = []
        ct = self.T.of(n)
        for s, a in self.evv(st, l):
            for s2, b in self.evv(s, r):
                if op in ("==", "!=", "<", ">", "<=", ">="):
                    out.append((s2, Z(self.compare(s2, op, a, b), self.T.BOOL)))
                else:
                    if isinstance(a, P) or isinstance(b, P) or isinstance(a, It):
                        out.append((s2, self.it_arith(s2, op, a, b)))
                        continue
                    x, y = a.t, b.t
                    if ct.kind == "real":
                        x = self.cast_num(s2, a, ct).t
                        y = self.cast_num(s2, b, ct).t
                    out.append((s2, Z(self.arith(s2, op, x, y, ct), ct)))
        return out

    def shortcut(self, s, op, c, r):
        """c && r  /  c || r with the right operand evaluated only when needed; merged when it is pure"""
        if op == "||":
            c0 = Not(c)
        else:
            c0 = c
        short = z3.BoolVal(op == "||")
        if is_false(c0):
            return [(s, Z(short, self.T.BOOL))]
        if is_true(c0):
            return [(s2, Z(self.as_bool(s2, v), self.T.BOOL)) for s2, v in self.evv(s, r)]
        res = []
        base = len(s.pc)
        roots = list(s.store)
        outs = []
        for b, tv in self.branch(s, c0):
            if tv:
                for s2, v in self.evv(b, r):
                    outs.append((s2, Z(self.as_bool(s2, v), self.T.BOOL)))
            else:
                outs.append((b, Z(short, self.T.BOOL)))
        return self.join_all(base, outs, roots)

    def it_arith(self, s, op, a, b):
        if isinstance(a, It) and isinstance(b, Z):
            return It(a.lv, add(a.idx, b.t) if op == "+" else sub(a.idx, b.t), a.ct)
        if isinstance(a, It) and isinstance(b, It) and op == "-":
            return Z(sub(a.idx, b.idx), self.T.parse("long"))
        raise Unsupported("pointer arithmetic")

    def e_CompoundAssignOperator(self, st, n):
        op = n["opcode"][:-1]
        l, r = n["inner"]
        out = []
        for s, b in self.evv(st, r):
            for s2, lv in self.ev(s, l):
                a = self.load(s2, lv)
                if isinstance(a, It):
                    self.store(s2, lv, self.it_arith(s2, op, a, b))
                    out.append((s2, lv))
                    continue
                ct = a.ct
                cty = n.get("computeResultType")
                if ct.kind == "int":
                    cct = self.T.parse(cty.get("desugaredQualType") or cty["qualType"]) if cty else ct
                    x = self.cast_num(s2, a, cct)
                    y = self.cast_num(s2, b, cct)
                    v = Z(self.arith(s2, op, x.t, y.t, cct), cct)
                    v = self.cast_num(s2, v, ct)
                elif ct.kind == "bool":
                    y = self.as_bool(s2, b)
                    v = Z({"|": Or, "&": And}[op](a.t, y), ct)
                else:
                    v = Z(self.arith(s2, op, a.t, self.cast_num(s2, b, ct).t, ct), ct)
                self.store(s2, lv, v)
                out.append((s2, lv))
        return out

    def e_ConditionalOperator(self, st, n):
        c, a, b = n["inner"]
        out = []
        for s, v in self.evv(st, c):
            cond = self.as_bool(s, v)
            base = len(s.pc)
            roots = list(s.store)
            outs = []
            for s1, tv in self.branch(s, cond):
                outs.extend(self.ev(s1, a if tv else b))
            if len(outs) > 1:
                # a prvalue result: unify the logical type first
                isl = n.get("valueCategory") in ("lvalue", "xvalue")
                if not isl:
                    ct = self.T.of(n)
                    o2 = []
                    for s1, x in outs:
                        x = self.rv(s1, x)
                        if isinstance(x, Z) and x.ct is not ct and ct.kind not in ("opq", "ptr", "void"):
                            x = self.conv(s1, x, ct)
                        o2.append((s1, x))
                    outs = o2
                if not (self.keep_paths and self.T.of(n).kind in ("opt", "rec", "var")):
                    outs = self.join_all(base, outs, roots)
            out.extend(outs)
        return out

    def e_CXXThrowExpr(self, st, n):
        inner = [c for c in n.get("inner", []) if c]
        if not inner:
            self.throw(st, getattr(self, "catching", "rethrow"))
            return []
        self.throw(st, self.T.of(inner[0]).key + ":" + (inner[0]["type"]["qualType"]))
        return []

    def e_MemberExpr(self, st, n):
        name = n.get("name")
        base = n["inner"][0]
        out = []
        for s, v in self.ev(st, base):
            if n.get("isArrow"):
                if not (isinstance(v, P)):
                    v = self.rv(s, v)
                lv = self.deref(s, v, name)
                if lv is None:
                    continue
            else:
                lv = v
            if not isinstance(lv, LV):
                lv = self.new_root(s, lv, lv.ct, "agg")
            out.extend(self.member(s, lv, n))
        return out

    def member(self, s, lv, n):
        name = n["name"]
        did = n.get("referencedMemberDecl")
        if did in self.prog.globals:
            return [(s, self.global_lv(s, did))]
        ct = self.lvct(s, lv)
        if ct.kind == "rec":
            p = self.T.find_field(ct, name)
            if p is None:
                raise Unsupported("member %s of %s" % (name, ct.key))
            # two reference members bound to one object: one of them stands for both
            p = self.topc.opts.get("alias", {}).get((ct.key.split("::")[-1], name), p) if getattr(self, "topc", None) else p
            for x in p:
                lv = lv.at("f", x)
            # a reference-typed field stored as a python-level pointer
            v = s.store[lv.root]
            if not isinstance(v, Z):
                w = self.load(s, lv)
                f = self.prog.by_id.get(did)
                if isinstance(w, P) and f is not None and parse_type(f["type"]["qualType"]).kind == "ref":
                    return [(s, self.deref(s, w))]
            return [(s, lv)]
        if ct.kind == "tup":
            return [(s, lv.at("t", 0 if name == "first" else 1))]
        raise Unsupported("member %s of %s" % (name, ct.key))

    # -- construction
    def e_InitListExpr(self, st, n):
        ct = self.T.of(n)
        inner = n.get("inner", [])
        if ct.kind == "rec" and len(inner) == 1 and self.T.of(inner[0]) is ct:
            return [(s, self.rv(s, v)) for s, v in self.ev(st, inner[0])]
        if ct.kind == "rec":
            fs = [f for f, _ in self.T.fields(ct)]
            out = []
            # all bases appear in the list (also empty / abstract ones)
            rec = self.prog.records.get(ct.name)
            skip = 0
            if rec is not None:
                nb = len(rec.bases)
                kept = sum(1 for f in fs if f.startswith("@"))
            dflt = set()
            for q, c in enumerate(inner):
                while c.get("kind") in ("ExprWithCleanups", "CXXBindTemporaryExpr") and c.get("inner"):
                    c = c["inner"][0]
                if c.get("kind") == "CXXDefaultInitExpr":
                    dflt.add(q)
            for s, vs in self.ev_list(st, [c for q, c in enumerate(inner) if q not in dflt]):
                given = {}
                names = list(fs)
                for q in sorted(dflt):
                    vs = vs[:q] + [None] + vs[q:]
                if rec is not None and nb != kept:
                    vs = vs[nb - kept:]
                for nme, v, nd in zip(names, vs, inner):
                    if v is None:
                        continue
                    fct = self.T.field_ct(ct, nme) if not nme.startswith("@") else dict(self.T.fields(ct))[nme]
                    if not nme.startswith("@") and self.T.field_is_ref(ct, nme):
                        given[nme] = P(True, v, self.lvct(s, v))
                        continue
                    v = self.rv(s, v)
                    given[nme] = self.conv(s, v, fct)
                out.append((s, self.build_rec(s, ct, given)))
            return out
        if ct.kind == "vec":
            out = []
            for s, vs in self.ev_list(st, inner):
                vs = [self.rv(s, v) for v in vs]
                out.append((s, self.mk_seq(s, ct, vs)))
            return out
        if ct.kind in ("int", "bool", "enum", "real", "str", "ptr", "opt", "var") and len(inner) == 1:
            return [(s, self.conv(s, self.rv(s, v), ct)) for s, v in self.ev(st, inner[0])]
        if not inner:
            return [(st, self.default_val(st, ct))]
        if ct.kind == "opq" and "overloaded" in ct.key:
            out = []
            for s, vs in self.ev_list(st, inner):
                out.append((s, Over([self.rv(s, v) for v in vs])))
            return out
        raise Unsupported("init list of " + ct.key)

    def mk_seq(self, s, ct, vs):
        if any(not isinstance(v, Z) and not (isinstance(v, Agg)) for v in vs) or ct.elem.kind in ("ptr", "refw"):
            return Seq(vs, ct)
        arr = z3.K(z3.IntSort(), self.term(s, self.conv(s, vs[0], ct.elem), ct.elem)) if vs else self.freshsort(z3.ArraySort(z3.IntSort(), self.T.sort(ct.elem)), "e")
        for i, v in enumerate(vs):
            arr = z3.Store(arr, i, self.term(s, self.conv(s, v, ct.elem), ct.elem))
        return Z(self.L.mkvec(ct, arr, z3.IntVal(len(vs))), ct)

    def e_CXXStdInitializerListExpr(self, st, n):
        out = []
        ct = self.T.of(n)
        for s, v in self.ev(st, n["inner"][0]):
            v = self.rv(s, v)
            if isinstance(v, Z):
                v = Z(v.t, v.ct)
            out.append((s, v))
        return out

    def e_ImplicitValueInitExpr(self, st, n):
        return [(st, self.default_val(st, self.T.of(n)))]

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXDefaultArgExpr(self, st, n):
        raise Unsupported("default argument outside call")

    def e_CXXDefaultInitExpr(self, st, n):
        raise Unsupported("default member init")

    def e_LambdaExpr(self, st, n):
        rec = n["inner"][0]
        methods = []
        generic = any(c.get("kind") == "FunctionTemplateDecl" for c in rec.get("inner", []))
        for c in rec.get("inner", []):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                methods.append(c)
            elif c.get("kind") == "FunctionTemplateDecl" and c.get("name") == "operator()":
                methods.extend(x for x in c.get("inner", []) if x.get("kind") == "CXXMethodDecl" and any(y.get("kind") == "TemplateArgument" for y in x.get("inner", [])))
        fields = [c for c in rec.get("inner", []) if c.get("kind") == "FieldDecl"]
        caps = [c for c in n["inner"][1:] if c.get("kind") != "CompoundStmt"]
        env = dict(st.env)
        for fld, cap in zip(fields, caps):
            x = cap
            isref = parse_type(fld["type"]["qualType"]).kind == "ref"
            while x.get("kind") in ("ImplicitCastExpr", "CXXConstructExpr", "ParenExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "InitListExpr") and x.get("inner"):
                x = x["inner"][0]
            if x.get("kind") == "DeclRefExpr" and not isref:
                did = x["referencedDecl"]["id"]
                r = self.ev(st, cap)
                if len(r) != 1:
                    raise Unsupported("forking capture")
                v = self.rv(r[0][0], r[0][1])
                if did in env:
                    env[did] = self.new_root(st, v, self.lvct(st, env[did]), "cap")
        return [(st, Clo(n, methods, env, st.this, generic))]

    def call_closure(self, st, clo, args):
        """args: list of LV / values"""
        if isinstance(clo, Fn):
            if isinstance(clo.func, dict):
                raise Unsupported("call of external function pointer")
            conv = []
            for q, a in zip(clo.func.params, args):
                want = self.T.of(q)
                have = self.lvct(st, a) if isinstance(a, LV) else getattr(a, "ct", None)
                if have is not None and have is not want and want.kind == "var":
                    # implicit conversion of an alternative to the variant: a temporary
                    a = self.new_root(st, self.conv(st, self.rv(st, a), want), want, q.get("name", "p"))
                conv.append(a)
            return self.call_func(st, clo.func, None, conv)
        if isinstance(clo, Over):
            raise Unsupported("direct call of overload set")
        m = self.pick_method(st, clo, args)
        import front
        f = front.Func(m, "lambda", None)
        saved_env, saved_this = st.env, st.this
        env = dict(clo.env)
        for p, a in zip(f.params, args):
            pref = parse_type(p["type"]["qualType"]).kind == "ref"
            if isinstance(a, LV) and pref:
                env[p["id"]] = a
            else:
                v = self.rv(st, a)
                ct = self.T.of(p)
                if isinstance(v, Z):
                    v = self.conv(st, v, ct)
                env[p["id"]] = self.new_root(st, v, ct if not isinstance(v, (Clo, Over)) else self.T.opq("fun"), p.get("name", "p"))
        st.env, st.this = env, clo.this
        base = len(st.pc)
        roots = list(st.store)
        if len(self.stack) > 60:
            raise Unsupported("closure recursion")
        self.stack.append(m["id"])
        try:
            outs = self.exec_body(st, f)
        finally:
            self.stack.pop()
        for s, v in outs:
            s.env, s.this = saved_env, saved_this
        outs = self.join_all(base, outs, roots)
        for s, v in outs:
            s.env = dict(saved_env)
        return outs

    def pick_method(self, st, clo, args):
        if len(clo.methods) == 1:
            return clo.methods[0]
        want = [self.lvct(st, a) if isinstance(a, LV) else (a.ct if isinstance(a, Z) else None) for a in args]
        for m in clo.methods:
            ps = [c for c in m.get("inner", []) if c.get("kind") == "ParmVarDecl"]
            if len(ps) == len(args) and all(w is None or self.T.of(p) is w for p, w in zip(ps, want)):
                if any(c.get("kind") == "CompoundStmt" for c in m.get("inner", [])):
                    return m
        raise Unsupported("no matching lambda instantiation")

    def find_ctor(self, ct, ctype, nargs):
        fs = self.prog.funcs.get(ct.name + "::" + ct.name.split("::")[-1].split("<")[0], [])
        if ctype is None:
            c = [f for f in fs if len(f.params) == nargs and f.node["kind"] == "CXXConstructorDecl" and not f.node.get("isImplicit")]
            return c[0] if len(c) == 1 else None
        want = parse_type(ctype)
        c = [f for f in fs if len(f.params) == len(want.args)]
        if len(c) > 1:
            c2 = [f for f in c if [self.T.norm(a).key for a in parse_type(f.ty).args] == [self.T.norm(a).key for a in want.args]]
            c = c2 or c
        return c[0] if c else None

    def e_CXXConstructExpr(self, st, n):
        ct = self.T.of(n)
        args = [a for a in n.get("inner", [])]
        ctype = n.get("ctorType", {}).get("qualType", "void ()")
        real = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        # copy / move of the same type
        if ct.kind == "rec":
            pt = parse_type(ctype)
            if len(pt.args) == 1 and pt.args[0].kind == "ref" and self.T.norm(pt.args[0]) is ct:
                return self.evv_copy(st, args[0], ct)
            f = self.find_ctor(ct, ctype, len(args))
            if f is not None and (f.body is not None):
                out = []
                for s, vs in self.ev_list(st, real):
                    self.ctor_depth = getattr(self, "ctor_depth", 0)
                    out.extend(self.construct(s, ct, f, vs))
                return out
            if not real:
                return [(st, self.build_rec(st, ct, {}))]
            if len(pt.args) == 1 and self.base_path(self.T.norm(pt.args[0]), ct) is not None:
                return self.evv_copy(st, args[0], ct)
            raise Unsupported("constructor of " + ct.key + " " + ctype)
        return self.lib_construct(st, n, ct, real, ctype)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def evv_copy(self, st, node, ct):
        return [(s, self.conv(s, self.rv(s, v), ct)) for s, v in self.ev(st, node)]

    def construct(self, s, ct, f, vs):
        """run constructor f for a new object -> [(state, value)]"""
        lv = self.new_root(s, None, ct, "obj")
        s.store[lv.root] = self.raw_record(s, ct)
        out = []
        for s2, _ in self.call_func(s, f, lv, vs):
            out.append((s2, self.load(s2, lv)))
        return out

    def raw_record(self, s, ct):
        """object before its constructor ran: python-level record of unset fields"""
        f = {}
        for nme, fct in self.T.fields(ct):
            f[nme] = None
        return Agg(ct, f)

    def ctor_inits(self, st, f):
        ct = self.lvct(st, st.this)
        lv = st.this
        states = [st]
        done = {}
        rec = self.prog.records.get(ct.name)
        for ini in f.inits:
            nxt = []
            for s in states:
                any_ = ini.get("anyInit")
                inner = [c for c in ini.get("inner", []) if c]
                if any_:
                    name = any_["name"]
                    x = inner[0]
                    y = x
                    while y.get("kind") in ("ExprWithCleanups",):
                        y = y["inner"][0]
                    if y.get("kind") == "CXXDefaultInitExpr":
                        nd = next(nd for a, ts, nd in rec.fields if a == name)
                        ii = [c for c in nd.get("inner", []) if isinstance(c, dict) and c.get("kind") and not c["kind"].endswith("Comment")]
                        x = ii[0]
                    isref = self.T.field_is_ref(ct, name)
                    for s2, v in self.ev(s, x):
                        if isref:
                            v = P(True, v, self.lvct(s2, v)) if isinstance(v, LV) else v
                        else:
                            v = self.conv(s2, self.rv(s2, v), self.T.field_ct(ct, name))
                        self.set_raw(s2, lv, name, v)
                        nxt.append(s2)
                elif ini.get("baseInit"):
                    bct = self.T.parse(ini["baseInit"].get("desugaredQualType") or ini["baseInit"]["qualType"])
                    bn = "@" + (bct.name.split("::")[-1] if bct.kind == "rec" else "")
                    if bct.kind == "rec" and any(a == bn for a, _ in self.T.fields(ct)):
                        for s2, v in self.ev(s, inner[0]):
                            self.set_raw(s2, lv, bn, self.rv(s2, v))
                            nxt.append(s2)
                    else:
                        nxt.append(s)
                else:
                    # delegating constructor
                    for s2, v in self.ev(s, inner[0]):
                        s2.store[lv.root] = self.rv(s2, v) if not lv.path else None
                        nxt.append(s2)
            states = nxt
        for s in states:
            cur = s.store[lv.root]
            if isinstance(cur, Agg) and not lv.path:
                miss = [k for k, v in cur.f.items() if v is None]
                vals = {k: v for k, v in cur.f.items() if v is not None}
                s.store[lv.root] = self.build_rec(s, ct, vals)
        return states

    def set_raw(self, s, lv, name, v):
        cur = s.store[lv.root]
        if isinstance(cur, Agg) and not lv.path:
            f = dict(cur.f)
            f[name] = v
            s.store[lv.root] = Agg(cur.ct, f)
        else:
            self.store(s, lv.at("f", name), v)

    def e_CXXInheritedCtorInitExpr(self, st, n):
        return [(st, self.default_val(st, self.T.of(n)))]

    def e_CXXRewrittenBinaryOperator(self, st, n):
        return self.ev(st, n["inner"][0])

    def e_PredefinedExpr(self, st, n):
        return [(st, Z(self.fint("str"), self.T.STR))]

    e_SourceLocExpr = e_PredefinedExpr

    def e_UnresolvedLookupExpr(self, st, n):
        raise Unsupported("unresolved lookup")

    def e_ArraySubscriptExpr(self, st, n):
        out = []
        for s, vs in self.ev_list(st, n["inner"]):
            b = vs[0]
            i = self.rv(s, vs[1])
            if isinstance(b, P):
                b = b.lv
            if not isinstance(b, LV):
                raise Unsupported("array subscript")
            ln = self.container_len(s, b)
            self.safe(s, "array index in bounds", z3.And(i.t >= 0, i.t < ln))
            out.append((s, b.at("i", i.t)))
        return out

    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        return [(st, Z(self.fint("sizeof"), self.T.SIZE))]

    # -- calls
    def e_CallExpr(self, st, n):
        return self.lib_call(st, n)

    def e_CXXMemberCallExpr(self, st, n):
        return self.lib_member_call(st, n)

    def e_CXXOperatorCallExpr(self, st, n):
        return self.lib_operator(st, n)

    # ------------------------------------------------------------ contracts
    def contract_for(self, f):
        for c in self.contracts.get(f.qual, ()):
            if c.matches(f) and "case" not in c.opts:        # a case contract only says something about one kind of input
                return c
        return None

    def apply_contract(self, st, c, f, this, args):
        import contract
        return contract.apply(self, st, c, f, this, args)
