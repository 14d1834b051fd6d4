"""Models of the standard library operations the code under contract uses, and the dispatch of calls.

Every std operation is given its C++ meaning on the logical value of the container (length + elements, membership + order, ...).
What is left uninterpreted (string contents, streams, hashing, JSON objects) is recorded in `trusted`."""
import z3
from front import parse_type
from ctypes_ import Unsupported, CT
from vals import *

STREAMY = ("basic_ostream", "basic_stringstream", "basic_istream", "ostream", "basic_ostringstream", "basic_ifstream", "basic_istringstream")


def strip(n):
    while n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr", "ExprWithCleanups"):
        n = n["inner"][0]
    return n



def bases(a, i):
    """triggers on an array: reads of it and of the arrays it was made from by stores"""
    out = [z3.Select(a, i)]
    while z3.is_app_of(a, z3.Z3_OP_STORE):
        a = a.arg(0)
        out.append(z3.Select(a, i))
    return out


class LibMixin:
    # ------------------------------------------------------------ helpers
    def real_args(self, nodes):
        return [a for a in nodes if a.get("kind") != "CXXDefaultArgExpr"]

    def as_lv(self, s, v, hint="tmp"):
        if isinstance(v, LV):
            return v
        ct = v.ct if isinstance(v, (Z, Agg, Seq)) and v.ct is not None else self.T.opq("fun")
        return self.new_root(s, v, ct, hint)

    def val_ct(self, s, v):
        if isinstance(v, LV):
            w = None
            try:
                w = self.load(s, v)
            except Unsupported:
                pass
            if w is not None and not isinstance(w, Z):
                return self.lvct(s, v)
            return self.lvct(s, v)
        return getattr(v, "ct", None)

    def trust(self, what):
        self.trusted.add(what)

    # ------------------------------------------------------------ free functions
    def lib_call(self, st, n):
        callee = strip(n["inner"][0])
        args = n["inner"][1:]
        if callee.get("kind") == "DeclRefExpr":
            rd = callee["referencedDecl"]
            if rd["kind"] in ("FunctionDecl", "CXXMethodDecl"):
                f = self.prog.definition(rd["id"])
                name = rd["name"]
                dd = self.prog.decl.get(rd["id"])
                if dd is not None and dd.qual in self.OVERRIDE:
                    return self.OVERRIDE[dd.qual](self, st, n, args)
                if f is not None:
                    out = []
                    for s, vs in self.ev_list(st, self.real_args(args)):
                        out.extend(self.call_func(s, f, None, vs, n))
                    return out
                if dd is not None:
                    return self.external(st, n, dd.qual, args)
                m = getattr(self, "c_" + name, None)
                if m:
                    return m(st, n, args, callee)
                return self.external(st, n, name, args)
        out = []
        for s, v in self.ev(st, callee):
            v = self.rv(s, v)
            for s2, vs in self.ev_list(s, self.real_args(args)):
                out.extend(self.call_closure(s2, v, vs))
        return out

    def external(self, st, n, name, args):
        """function without a body in the project: result unconstrained, non-const reference arguments overwritten"""
        self.trust("external " + name)
        out = []
        for s, vs in self.ev_list(st, self.real_args(args)):
            ct = self.T.of(n)
            out.append((s, VOID if ct.kind == "void" else self.havoc_val(s, ct, name)))
        return out

    def ov_cat(self, st, n, args):
        out = []
        for s, vs in self.ev_list(st, self.real_args(args)):
            out.append((s, Z(self.fint("cat"), self.T.STR)))
        return out

    OVERRIDE = {"lstk::cat": ov_cat}

    # -- transparent
    def c_move(self, st, n, args, callee):
        return self.ev(st, args[0])

    c_forward = c_as_const = c_addressof_ = c___addressof_ = c_move

    def c_ref(self, st, n, args, callee):
        out = []
        for s, v in self.ev(st, args[0]):
            if not isinstance(v, LV):
                w = v
                if isinstance(w, P):
                    out.append((s, w))
                    continue
                raise Unsupported("ref of a value")
            w = s.store.get(v.root)
            out.append((s, P(True, v, self.lvct(s, v))))
        return out

    c_cref = c_ref
    c_addressof = c_ref

    def c___assert_fail(self, st, n, args, callee):
        self.throw(st, "assert")
        return []

    def c_abort(self, st, n, args, callee):
        self.throw(st, "abort")
        return []

    # -- variants
    def alt_index(self, vct, tct):
        for i, a in enumerate(vct.args):
            if a is tct:
                return i
        raise Unsupported("alternative %s of %s" % (tct.key, vct.key))

    def tmpl_args(self, callee):
        """template argument text written at this call site, read from the source"""
        txt = self.prog.source_text(callee)
        i = txt.find("<")
        if i < 0:
            return None
        d, cur, out = 0, "", []
        for ch in txt[i:]:
            if ch == "<":
                d += 1
                if d == 1:
                    continue
            elif ch == ">":
                d -= 1
                if d == 0:
                    out.append(cur.strip())
                    break
            if ch == "," and d == 1:
                out.append(cur.strip())
                cur = ""
                continue
            cur += ch
        return out

    def alt_by_text(self, vct, txt):
        txt = txt.replace("typename ", "").strip()
        last = txt.split("::")[-1]
        c = [i for i, a in enumerate(vct.args) if a.key == txt or a.key.endswith("::" + txt) or a.key.split("::")[-1] == last]
        if len(c) == 1:
            return c[0]
        try:
            t = self.T.parse(txt)
            return self.alt_index(vct, t)
        except Exception:
            pass
        raise Unsupported("alternative <%s>" % txt)

    def c_get_if(self, st, n, args, callee):
        out = []
        ct = self.T.of(n)
        for s, v in self.ev(st, args[0]):
            v = self.rv(s, v)
            if not isinstance(v, P):
                raise Unsupported("get_if of non-pointer")
            lv = v.lv
            val = self.load(s, lv)
            vct = val.ct
            if vct.kind != "var":
                raise Unsupported("get_if on " + vct.key)
            k = self.alt_index(vct, ct.elem)
            out.append((s, P(And(B(v.has), self.L.isc(vct, k, val.t)), lv.at("a", k), ct.elem)))
        return out

    def c_holds_alternative(self, st, n, args, callee):
        out = []
        ta = self.tmpl_args(callee)
        for s, v in self.ev(st, args[0]):
            v = self.rv(s, v)
            k = self.alt_by_text(v.ct, ta[0])
            out.append((s, Z(self.L.isc(v.ct, k, v.t), self.T.BOOL)))
        return out

    def c_get(self, st, n, args, callee):
        out = []
        for s, v in self.ev(st, args[0]):
            lv = self.as_lv(s, v)
            ct = self.lvct(s, lv)
            if ct.kind == "var":
                k = self.alt_index(ct, self.T.of(n))
                val = self.load(s, lv)
                for s2, tv in self.branch(s, self.L.isc(ct, k, val.t)):
                    if tv:
                        out.append((s2, lv.at("a", k)))
                    else:
                        self.throw(s2, "std::bad_variant_access")
            elif ct.kind in ("tup", "vec"):
                ta = self.tmpl_args(callee)
                if not ta or not ta[0].isdigit():
                    raise Unsupported("get<> index")
                out.append((s, lv.at("t", int(ta[0])) if ct.kind == "tup" else lv.at("i", z3.IntVal(int(ta[0])))))
            else:
                raise Unsupported("get on " + ct.key)
        return out

    def c_visit(self, st, n, args, callee):
        out = []
        for s, vs in self.ev_list(st, args):
            vis = self.rv(s, vs[0])
            if len(vs) != 2:
                raise Unsupported("visit with several variants")
            lv = self.as_lv(s, vs[1])
            ct = self.lvct(s, lv)
            if ct.kind != "var":
                raise Unsupported("visit of " + ct.key)
            val = self.load(s, lv)
            base, roots = len(s.pc), list(s.store)
            outs = []
            rest = s
            for k, a in enumerate(ct.args):
                if rest is None:
                    break
                br = self.branch(rest, self.L.isc(ct, k, val.t)) if k < len(ct.args) - 1 else [(rest, True)]
                rest = None
                for b, tv in br:
                    if tv:
                        outs.extend(self.call_visitor(b, vis, lv.at("a", k), a))
                    else:
                        rest = b
            out.extend(self.join_all(base, outs, roots))
        return out

    def call_visitor(self, s, vis, arg, act):
        if isinstance(vis, Over):
            exact, gen = None, None
            for c in vis.clos:
                for m in c.methods:
                    ps = [p for p in m.get("inner", []) if p.get("kind") == "ParmVarDecl"]
                    if len(ps) == 1 and self.T.of(ps[0]) is act:
                        if len(c.methods) == 1 and not c.generic:
                            exact = exact or (c, m)
                        else:
                            gen = gen or (c, m)
            pick = exact or gen
            if pick is None:
                raise Unsupported("visitor without overload for " + act.key)
            return self.call_closure(s, Clo(pick[0].node, [pick[1]], pick[0].env, pick[0].this), [arg])
        return self.call_closure(s, vis, [arg])

    # -- makers
    def c_make_optional(self, st, n, args, callee):
        ct = self.T.of(n)
        return [(s, self.conv_arg(s, v, ct)) for s, v in self.ev(st, args[0])]

    def conv_arg(self, s, v, ct):
        v = self.rv(s, v)
        if isinstance(v, Agg):
            v = Z(self.term(s, v, v.ct), v.ct)
        if isinstance(v, Z):
            return self.conv(s, v, ct)
        return v

    def c_make_pair(self, st, n, args, callee):
        ct = self.T.of(n)
        out = []
        for s, vs in self.ev_list(st, args):
            self.T.sort(ct)
            out.append((s, Z(ct.con[0](*[self.term(s, self.conv_arg(s, v, a), a) for v, a in zip(vs, ct.args)]), ct)))
        return out

    c_make_tuple = c_make_pair

    def c_make_unique(self, st, n, args, callee):
        ct = self.T.of(n)
        out = []
        for s, vs in self.ev_list(st, self.real_args(args)):
            el = ct.elem
            if el.kind == "rec":
                c = self.find_ctor(el, None, len(vs))
                if c is not None and c.body is not None:
                    for s2, v in self.construct(s, el, c, vs):
                        out.append((s2, Z(self.L.some(ct, self.term(s2, v, el)), ct)))
                    continue
                if not vs:
                    out.append((s, Z(self.L.some(ct, self.term(s, self.build_rec(s, el, {}), el)), ct)))
                    continue
                if len(vs) == 1:
                    v = self.rv(s, vs[0])
                    if isinstance(v, Z) and v.ct is el:
                        out.append((s, Z(self.L.some(ct, v.t), ct)))
                        continue
            out.append((s, Z(self.L.some(ct, self.freshsort(self.T.sort(el), "uniq")), ct)))
        return out

    c_make_shared = c_make_unique

    # -- numbers
    def _minmax(self, st, n, args, lt):
        out = []
        if not args:
            ct = self.T.of(n)
            if ct.kind == "real":
                return [(st, Z(z3.RealVal(((1 << 53) - 1) << 971) if lt else z3.Q(1, 1 << 1022), ct))]
            if ct.kind != "int":
                return [(st, self.havoc_val(st, ct))]
            lo, hi = ct.range()
            return [(st, Z(z3.IntVal(hi if lt else lo), ct))]
        for s, vs in self.ev_list(st, args):
            if len(vs) == 1:
                raise Unsupported("min of list")
            a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
            c = a.t < b.t if lt else b.t < a.t
            # std::max(a,b): (a<b)?b:a   std::min(a,b): (b<a)?b:a
            if lt:
                r = Ite(a.t < b.t, b.t, a.t)
            else:
                r = Ite(b.t < a.t, b.t, a.t)
            out.append((s, Z(r, a.ct)))
        return out

    def c_max(self, st, n, args, callee):
        return self._minmax(st, n, args, True)

    def c_min(self, st, n, args, callee):
        return self._minmax(st, n, args, False)

    def c_abs(self, st, n, args, callee):
        out = []
        for s, v in self.ev(st, args[0]):
            v = self.rv(s, v)
            if v.ct.kind == "bool":
                v = self.cast_num(s, v, self.T.INT)
            x = numeral(v.t) if v.ct.kind != "real" else None
            out.append((s, Z(z3.IntVal(abs(x)) if x is not None else Ite(v.t < 0, -v.t, v.t), v.ct)))
        return out

    def _uf_call(self, st, n, args, name):
        ct = self.T.of(n)
        out = []
        for s, vs in self.ev_list(st, self.real_args(args)):
            zs = [self.rv(s, v) for v in vs]
            if all(isinstance(z, Z) for z in zs):
                f = self.uf(name, *([self.T.sort(z.ct) for z in zs] + [self.T.sort(ct)]))
                t = f(*[z.t for z in zs])
                self.typing(s, t, ct)
                out.append((s, Z(t, ct)))
            else:
                out.append((s, self.havoc_val(s, ct, name)))
        return out

    def c_to_string(self, st, n, args, callee):
        return self._uf_call(st, n, args, "std::to_string")

    def c_pow(self, st, n, args, callee):
        return self._uf_call(st, n, args, "pow")

    def c_sqrt(self, st, n, args, callee):
        return self._uf_call(st, n, args, "sqrt")

    def c_isspace(self, st, n, args, callee):
        return self._uf_call(st, n, args, "isspace")

    def c_swap(self, st, n, args, callee):
        out = []
        for s, vs in self.ev_list(st, args):
            a, b = self.load(s, vs[0]), self.load(s, vs[1])
            self.store(s, vs[0], b)
            self.store(s, vs[1], a)
            out.append((s, VOID))
        return out

    def c_distance(self, st, n, args, callee):
        out = []
        for s, vs in self.ev_list(st, args):
            a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
            if isinstance(a, It) and isinstance(b, It):
                out.append((s, Z(sub(b.idx, a.idx), self.T.parse("long"))))
            else:
                out.append((s, self.havoc_val(s, self.T.of(n))))
        return out

    # -- algorithms
    def c_find(self, st, n, args, callee):
        """std::find over [begin,end) of a vector or set: first equal position"""
        out = []
        for s, vs in self.ev_list(st, args):
            a, b, x = self.rv(s, vs[0]), self.rv(s, vs[1]), self.rv(s, vs[2])
            if not (isinstance(a, It) and isinstance(b, It)):
                out.append((s, self.havoc_val(s, self.T.of(n))))
                continue
            val = self.load(s, a.lv)
            r = self.fint("found")
            i = z3.Int("i!find")
            at = lambda k: self.elem_term(val, k)
            ect = val.ct.elem
            eq = lambda k: self.eqv(s, Z(at(k), ect), x)
            s.pc.append(("f", z3.And(a.idx <= r, r <= b.idx)))
            s.pc.append(("f", z3.Implies(r < b.idx, eq(r))))
            s.pc.append(("q", FA([i], z3.Implies(z3.And(a.idx <= i, i < r), Not(eq(i))), patterns=[at(i)])))
            if val.ct.kind == "set":
                m = Select(self.L.acc(val.ct, 0, 0, val.t), x.t)
                s.pc.append(("f", z3.Implies(And(a.idx == 0, b.idx == self.container_len(s, a.lv)), (r < b.idx) == m)))
            out.append((s, It(a.lv, r, a.ct)))
        return out

    def elem_term(self, val, k):
        if val.ct.kind == "vec":
            return self.L.vat(val.ct, val.t, k)
        a = val.ct.con[0].arity()
        return Select(self.L.acc(val.ct, 0, a - 3, val.t), k)

    def pure_pred(self, s, clo, elem_ct):
        """closure applied to a bound variable; returns (var, condition) if it is a single pure path"""
        x = self.freshsort(self.T.sort(elem_ct), "x")
        lv = self.new_root(s, Z(x, elem_ct), elem_ct, "pp")
        s2 = s.copy()
        self.dry += 1
        sk = self.sinks
        self.sinks = [[]]
        try:
            outs = self.call_closure(s2, clo, [lv])
            thrown = self.sinks[0]
        finally:
            self.dry -= 1
            self.sinks = sk
        if thrown or not outs:
            raise Unsupported("predicate throws")
        base = len(s.pc)
        res = z3.BoolVal(False)
        for o, v in outs:
            if any(t == "q" for t, _ in o.pc[base:]):
                raise Unsupported("predicate with quantified facts")
            res = Or(res, And(*([c for t, c in o.pc[base:] if t == "b"] + [self.as_bool(o, v)])))
        return x, res

    def c_find_if(self, st, n, args, callee):
        out = []
        for s, vs in self.ev_list(st, args):
            a, b, p = [self.rv(s, v) for v in vs]
            if not isinstance(a, It):
                out.append((s, self.havoc_val(s, self.T.of(n))))
                continue
            val = self.load(s, a.lv)
            x, cond = self.pure_pred(s, p, val.ct.elem)
            r = self.fint("found")
            i = z3.Int("i!find")
            at = lambda k: self.elem_term(val, k)
            pr = lambda k: z3.substitute(B(cond), (x, at(k)))
            s.pc.append(("f", z3.And(a.idx <= r, r <= b.idx)))
            s.pc.append(("f", z3.Implies(r < b.idx, pr(r))))
            s.pc.append(("q", FA([i], z3.Implies(z3.And(a.idx <= i, i < r), Not(pr(i))), patterns=[at(i)])))
            out.append((s, It(a.lv, r, a.ct)))
        return out

    def _quant_alg(self, st, n, args, kind):
        out = []
        for s, vs in self.ev_list(st, args):
            a, b, p = [self.rv(s, v) for v in vs]
            val = self.load(s, a.lv)
            x, cond = self.pure_pred(s, p, val.ct.elem)
            i = z3.Int("i!alg")
            pr = lambda k: z3.substitute(B(cond), (x, self.elem_term(val, k)))
            rng = z3.And(a.idx <= i, i < b.idx)
            r = self.fbool(kind)
            if kind == "all":
                body = FA([i], z3.Implies(rng, pr(i)), patterns=[self.elem_term(val, i)])
            else:
                body = z3.Exists([i], z3.And(rng, pr(i) if kind == "any" else pr(i)))
                if kind == "none":
                    body = z3.Not(body)
            s.pc.append(("q", r == body))
            out.append((s, Z(r, self.T.BOOL)))
        return out

    def c_all_of(self, st, n, args, callee):
        return self._quant_alg(st, n, args, "all")

    def c_any_of(self, st, n, args, callee):
        return self._quant_alg(st, n, args, "any")

    def c_none_of(self, st, n, args, callee):
        return self._quant_alg(st, n, args, "none")

    def c_remove_if(self, st, n, args, callee):
        """std::remove_if: kept elements first, in order (injection src)"""
        out = []
        for s, vs in self.ev_list(st, args):
            a, b, p = [self.rv(s, v) for v in vs]
            val = self.load(s, a.lv)
            ct = val.ct
            if numeral(a.idx) != 0:
                raise Unsupported("remove_if on a subrange")
            x, cond = self.pure_pred(s, p, ct.elem)
            pr = lambda k: z3.substitute(B(cond), (x, k))
            m = self.fint("kept")
            new = self.freshsort(self.L.vdata(ct, val.t).sort(), "rm")
            src = self.uf("rmsrc!%d" % self.cnt, z3.IntSort(), z3.IntSort())
            dst = self.uf("rmdst!%d" % self.cnt, z3.IntSort(), z3.IntSort())
            i, j = z3.Ints("i!rm j!rm")
            old = self.L.vdata(ct, val.t)
            s.pc.append(("f", z3.And(0 <= m, m <= b.idx)))
            s.pc.append(("q", FA([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= src(i), src(i) < b.idx, src(i) >= i, Select(new, i) == Select(old, src(i)), Not(pr(Select(old, src(i)))), dst(src(i)) == i)), patterns=[Select(new, i)])))
            s.pc.append(("q", FA([j], z3.Implies(z3.And(0 <= j, j < b.idx, Not(pr(Select(old, j)))), z3.And(0 <= dst(j), dst(j) < m, src(dst(j)) == j, Select(new, dst(j)) == Select(old, j))), patterns=[Select(old, j)])))
            self.store(s, a.lv, Z(self.L.mkvec(ct, new, self.L.vlen(ct, val.t)), ct))
            out.append((s, It(a.lv, m, a.ct)))
        return out

    # ------------------------------------------------------------ member calls
    def lib_member_call(self, st, n):
        me = n["inner"][0]
        while me.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
            me = me["inner"][0]
        if me.get("kind") != "MemberExpr":
            raise Unsupported("member call through " + me.get("kind", "?"))
        args = self.real_args(n["inner"][1:])
        did = me.get("referencedMemberDecl")
        name = me["name"]
        objn = me["inner"][0]
        out = []
        f = self.prog.decl.get(did)
        for s, v in self.ev(st, objn):
            if me.get("isArrow"):
                if not isinstance(v, P):
                    v = self.rv(s, v)
                lv = self.deref(s, v, name)
                if lv is None:
                    continue
            else:
                lv = v
            if f is not None:
                out.extend(self.call_method(s, f, lv, args, n))
            else:
                out.extend(self.std_method(s, name, lv, args, n, objn))
        return out

    def call_method(self, s, f, lv, args, n):
        lv = self.as_lv(s, lv, "this")
        ct = self.lvct(s, lv)
        target = self.prog.definition(f.node["id"])
        out = []
        if f.node.get("virtual") or (target is None) or self.is_virtual(f):
            t = self.dispatch(f, ct)
            if t is not None:
                target = t
            elif ct.kind == "opq" or target is None:
                for s2, vs in self.ev_list(s, args):
                    out.extend(self.abstract_call(s2, f, lv, vs, n))
                return out
        if target is None:
            for s2, vs in self.ev_list(s, args):
                out.extend(self.abstract_call(s2, f, lv, vs, n))
            return out
        for s2, vs in self.ev_list(s, args):
            this = self.this_for(s2, lv, target)
            out.extend(self.call_func(s2, target, this, vs, n))
        return out

    def this_for(self, s, lv, target):
        """adjust the object path when the method belongs to a base or to the derived class"""
        ct = self.lvct(s, lv)
        if ct.kind == "rec" and target.cls and target.cls != ct.name and target.cls in self.prog.records:
            b = self.base_path_by_name(ct, target.cls)
            if b:
                for x in b:
                    lv = lv.at(*x)
            elif lv.path and lv.path[-1][0] == "f" and lv.path[-1][1].startswith("@"):
                up = LV(lv.root, lv.path[:-1])
                if self.lvct(s, up).name == target.cls:
                    return up
        return lv

    def base_path_by_name(self, ct, name):
        for n, t in self.T.fields(ct):
            if n.startswith("@"):
                if t.name == name:
                    return [("f", n)]
                p = self.base_path_by_name(t, name)
                if p:
                    return [("f", n)] + p
        return None

    def is_virtual(self, f):
        nd = f.node
        seen = set()
        while nd is not None and nd["id"] not in seen:
            seen.add(nd["id"])
            if nd.get("virtual") or nd.get("pure"):
                return True
            for c in nd.get("inner", []):
                if c.get("kind") == "OverrideAttr":
                    return True
            nd = self.prog.by_id.get(nd.get("previousDecl"))
        return False

    def dispatch(self, f, ct):
        """override of f in the dynamic type ct"""
        if ct.kind != "rec":
            return None
        name = f.qual.split("::")[-1]
        cls = ct.name
        seen = set()
        while cls and cls not in seen:
            seen.add(cls)
            for g in self.prog.funcs.get(cls + "::" + name, []):
                if len(g.params) == len(f.params) and g.ty.rstrip().endswith("const") == f.ty.rstrip().endswith("const"):
                    return g
            r = self.prog.records.get(cls)
            nxt = None
            for b in (r.bases if r else []):
                bt = self.T.parse(b)
                nxt = bt.name
            cls = nxt
        return None

    def abstract_call(self, s, f, lv, vs, n):
        """virtual method of an object whose class is not known: contract if there is one, else
        const methods are functions of the object and the arguments, non-const methods may change the object"""
        c = self.contract_for(f)
        if c is not None:
            return self.apply_contract(s, c, f, lv, vs)
        const = f.ty.rstrip().endswith("const") or f.ty.rstrip().endswith("const noexcept")
        q = self.queries.get(f.qual)
        if q and not const:
            # declared non-const, but every overrider has a contract that modifies nothing
            const = True
            for k in q:
                self.applied[k] = self.applied.get(k, 0) + 1
        ct = self.ret_ct(f)
        ret_ref = self.ret_is_ref(f)
        self.trust("abstract %s (assumed %s)" % (f.qual, "a function of the object and its arguments, no exception" if const else "to be a step of a state machine: answer and next state depend on the object and the arguments, no exception, nothing else changes"))
        if const:
            obj = self.load(s, lv)
            zs = [obj] + [self.rv(s, v) for v in vs]
            zs = [self.abs_arg(s, z) for z in zs]
            if ct.kind == "void":
                return [(s, VOID)]
            sig = [self.T.sort(z.ct) for z in zs] + [self.T.sort(ct)]
            g = self.uf(f.qual + "/%d" % len(f.params), *sig)
            t = g(*[z.t for z in zs])
            self.typing(s, t, ct)
            self.ax_abstract(s, f, zs, t, ct)
            v = Z(t, ct)
            if ret_ref:
                return [(s, self.new_root(s, v, ct, "ret"))]
            return [(s, v)]
        cur = self.load(s, lv)
        oct_ = self.lvct(s, lv)
        zs = None
        if isinstance(cur, Z):
            try:
                zs = [cur] + [self.abs_arg(s, self.rv(s, v)) for v in vs]
            except Unsupported:
                zs = None
        if zs is not None:
            # the object is a state machine: the call moves it to the next state and answers from the current one
            sorts, ts = [self.T.sort(z.ct) for z in zs], [z.t for z in zs]
            nx = self.uf(f.qual + "/next", *(sorts + [self.T.sort(oct_)]))(*ts)
            self.typing(s, nx, oct_)
            self.store(s, lv, Z(nx, oct_))
            if ct.kind == "void":
                return [(s, VOID)]
            t = self.uf(f.qual + "/%d" % len(f.params), *(sorts + [self.T.sort(ct)]))(*ts)
            self.typing(s, t, ct)
            v = Z(t, ct)
            return [(s, self.new_root(s, v, ct, "ret") if ret_ref else v)]
        self.store(s, lv, self.havoc_val(s, oct_, "obj"))
        if ct.kind == "void":
            return [(s, VOID)]
        v = self.havoc_val(s, ct, f.qual.split("::")[-1])
        return [(s, self.new_root(s, v, ct, "ret") if ret_ref else v)]

    def abs_arg(self, s, z):
        if isinstance(z, Z):
            return z
        if isinstance(z, Agg):
            return Z(self.term(s, z, z.ct), z.ct)
        if isinstance(z, P) and z.lv is not None:
            return self.abs_arg(s, self.load(s, z.lv))
        raise Unsupported("abstract call with %r" % (z,))

    def ax_abstract(self, s, f, zs, t, ct):
        for ax in getattr(self, "axioms", {}).get(f.qual, ()):
            ax(self, s, zs, t, ct)

    # ---- std objects
    def std_method(self, s, name, obj, args, n, objn):
        st_ct = self.T.of(objn)
        if st_ct.kind == "ptr":
            st_ct = st_ct.elem
        v = None
        if isinstance(obj, LV):
            ct = self.lvct(s, obj)
            cur = self.load(s, obj)
        else:
            cur = obj
            ct = getattr(obj, "ct", None) or st_ct
        if isinstance(cur, P):
            return self.m_pref(s, name, obj, cur, args, n)
        if isinstance(cur, It):
            raise Unsupported("iterator method " + name)
        if isinstance(cur, Seq):
            return self.m_pyseq(s, name, obj, cur, args, n)
        if isinstance(cur, (Clo, Fn, Over)):
            if name == "operator bool":
                return [(s, Z(z3.BoolVal(True), self.T.BOOL))]
            if name == "operator()":
                out = []
                for s2, vs in self.ev_list(s, args):
                    out.extend(self.call_closure(s2, cur, vs))
                return out
        k = cur.ct.kind if isinstance(cur, Z) else ct.kind
        if name == "operator=":
            return self.do_assign(s, obj, args[0])
        m = getattr(self, "m_" + k, None)
        if m is None:
            return self.m_opq(s, name, obj, cur, args, n)
        return m(s, name, obj, cur, args, n)

    def do_assign(self, s, obj, argn):
        out = []
        for s2, v in self.ev(s, argn):
            v = self.rv(s2, v)
            self.store(s2, obj, self.conv(s2, v, self.lvct(s2, obj)))
            out.append((s2, obj))
        return out

    # optional<reference_wrapper>, reference_wrapper, raw pointers held as P
    def m_pref(self, s, name, obj, cur, args, n):
        if name in ("has_value", "operator bool"):
            return [(s, Z(B(cur.has), self.T.BOOL))]
        if name == "value":
            out = []
            for s2, tv in self.branch(s, B(cur.has)):
                if tv:
                    out.append((s2, P(True, cur.lv, cur.ct)))
                else:
                    self.throw(s2, "std::bad_optional_access")
            return out
        if name == "get" or name.startswith("operator "):
            rt = self.T.of(n)
            if rt.kind == "ptr":
                return [(s, cur)]
            lv = self.deref(s, cur, "reference_wrapper")
            return [] if lv is None else [(s, lv)]
        if name == "reset":
            self.store(s, obj, P(False, None, cur.ct))
            return [(s, VOID)]
        if name == "operator=":
            return self.do_assign(s, obj, args[0])
        raise Unsupported("pointer-like method " + name)

    def m_refw(self, s, name, obj, cur, args, n):
        """reference_wrapper inside a logical value: identity only; the referenced object is a function of it"""
        el = cur.ct.elem
        if name == "get" or name.startswith("operator "):
            f = self.uf("deref<%s>" % el.key, self.T.sort(cur.ct), self.T.sort(el))
            t = f(cur.t)
            self.typing(s, t, el)
            return [(s, self.new_root(s, Z(t, el), el, "refobj"))]
        raise Unsupported("reference_wrapper." + name)

    def m_pyseq(self, s, name, obj, cur, args, n):
        if name == "size":
            return [(s, Z(z3.IntVal(len(cur.items)), self.T.SIZE))]
        if name == "empty":
            return [(s, Z(z3.BoolVal(not cur.items), self.T.BOOL))]
        if name in ("push_back", "emplace_back", "push"):
            out = []
            for s2, vs in self.ev_list(s, args):
                v = self.rv(s2, vs[0])
                c2 = self.load(s2, obj)
                self.store(s2, obj, Seq(c2.items + [v], c2.ct))
                out.append((s2, VOID))
            return out
        if name in ("begin", "cbegin"):
            return [(s, It(self.as_lv(s, obj), z3.IntVal(0), cur.ct))]
        if name in ("end", "cend"):
            return [(s, It(self.as_lv(s, obj), z3.IntVal(len(cur.items)), cur.ct))]
        if name == "at":
            out = []
            for s2, vs in self.ev_list(s, args):
                i = numeral(z3.simplify(self.rv(s2, vs[0]).t))
                if i is None:
                    raise Unsupported("symbolic index into pointer sequence")
                out.append((s2, obj.at("i", z3.IntVal(i))))
            return out
        raise Unsupported("value sequence ." + name)

    # ---- optional / unique_ptr
    def m_opt(self, s, name, obj, cur, args, n):
        ct = cur.ct
        has = self.L.is_some(ct, cur.t)
        if name in ("has_value", "operator bool"):
            return [(s, Z(has, self.T.BOOL))]
        if name == "value":
            out = []
            lv = self.as_lv(s, obj)
            for s2, tv in self.branch(s, has):
                if tv:
                    out.append((s2, lv.at("v")))
                else:
                    self.throw(s2, "std::bad_optional_access")
            return out
        if name == "value_or":
            out = []
            for s2, vs in self.ev_list(s, args):
                d = self.conv(s2, self.rv(s2, vs[0]), ct.elem)
                out.append((s2, Z(Ite(has, self.L.optval(ct, cur.t), d.t), ct.elem)))
            return out
        if name == "reset":
            if args:
                out = []
                for s2, vs in self.ev_list(s, args):
                    self.store(s2, obj, self.conv(s2, self.rv(s2, vs[0]), ct))
                    out.append((s2, VOID))
                return out
            self.store(s, obj, Z(self.L.none(ct), ct))
            return [(s, VOID)]
        if name == "emplace":
            out = []
            for s2, vs in self.ev_list(s, args):
                if len(vs) == 1:
                    v = self.rv(s2, vs[0])
                    if isinstance(v, Z) and (v.ct is ct.elem or ct.elem.kind in ("int", "enum", "bool", "real", "str")):
                        self.store(s2, obj, Z(self.L.some(ct, self.conv(s2, v, ct.elem).t), ct))
                        out.append((s2, obj.at("v")))
                        continue
                raise Unsupported("optional::emplace")
            return out
        if name == "get":
            lv = self.as_lv(s, obj)
            return [(s, P(has, lv.at("v"), ct.elem))]
        if name == "release":
            raise Unsupported("release")
        if name == "swap":
            raise Unsupported("swap")
        raise Unsupported("optional." + name)

    def m_var(self, s, name, obj, cur, args, n):
        if name == "index":
            r = z3.IntVal(len(cur.ct.args) - 1)
            for k in range(len(cur.ct.args) - 2, -1, -1):
                r = Ite(self.L.isc(cur.ct, k, cur.t), z3.IntVal(k), r)
            return [(s, Z(r, self.T.SIZE))]
        raise Unsupported("variant." + name)

    # ---- vector / queue / deque
    def m_vec(self, s, name, obj, cur, args, n):
        ct = cur.ct
        L = self.L
        ln = L.vlen(ct, cur.t)
        if name in ("size", "length"):
            return [(s, Z(ln, self.T.SIZE))]
        if name == "empty":
            return [(s, Z(Eq(ln, z3.IntVal(0)), self.T.BOOL))]
        if name in ("begin", "cbegin"):
            return [(s, It(self.as_lv(s, obj), z3.IntVal(0), ct))]
        if name in ("end", "cend"):
            return [(s, It(self.as_lv(s, obj), ln, ct))]
        if name == "data":
            return [(s, P(ln > 0, self.as_lv(s, obj).at("i", z3.IntVal(0)), ct.elem))]
        if name in ("reserve", "shrink_to_fit"):
            return [(s2, VOID) for s2, _ in self.ev_list(s, args)]
        if name == "clear":
            self.store(s, obj, Z(L.mkvec(ct, L.vdata(ct, cur.t), z3.IntVal(0)), ct))
            return [(s, VOID)]
        if name in ("back", "front", "top"):
            self.safe(s, name + " of non-empty container", ln > 0)
            lv = self.as_lv(s, obj)
            return [(s, lv.at("i", sub(ln, z3.IntVal(1)) if name == "back" else z3.IntVal(0)))]
        if name in ("push_back", "push", "emplace_back", "emplace"):
            out = []
            for s2, vs in self.ev_list(s, args):
                cur2 = self.load(s2, obj)
                for s3, v in self.emplace_val(s2, ct.elem, vs, name.startswith("emplace")):
                    ln2 = L.vlen(ct, cur2.t)
                    nv = L.mkvec(ct, z3.Store(L.vdata(ct, cur2.t), ln2, self.term(s3, v, ct.elem)), add(ln2, z3.IntVal(1)))
                    self.store(s3, obj, Z(nv, ct))
                    self.typing_grow(s3, nv, ct)
                    out.append((s3, obj.at("i", ln2) if isinstance(obj, LV) else VOID))
            return out
        if name == "push_front":
            out = []
            for s2, vs in self.ev_list(s, args):
                cur2 = self.load(s2, obj)
                v = self.term(s2, self.conv_arg(s2, vs[0], ct.elem), ct.elem)
                self.store(s2, obj, self.splice(s2, cur2, z3.IntVal(0), z3.IntVal(0), [v], None))
                out.append((s2, VOID))
            return out
        if name in ("pop_back",):
            self.safe(s, "pop_back of non-empty container", ln > 0)
            self.store(s, obj, Z(L.mkvec(ct, L.vdata(ct, cur.t), sub(ln, z3.IntVal(1))), ct))
            return [(s, VOID)]
        if name in ("pop", "pop_front"):
            self.safe(s, name + " of non-empty container", ln > 0)
            self.store(s, obj, self.splice(s, cur, z3.IntVal(0), z3.IntVal(1), [], None))
            return [(s, VOID)]
        if name == "at":
            out = []
            lv = self.as_lv(s, obj)
            for s2, vs in self.ev_list(s, args):
                i = self.rv(s2, vs[0]).t
                ln2 = self.container_len(s2, lv)
                for s3, tv in self.branch(s2, And(i >= 0, i < ln2)):
                    if tv:
                        out.append((s3, lv.at("i", i)))
                    else:
                        self.throw(s3, "std::out_of_range")
            return out
        if name == "insert":
            out = []
            for s2, vs in self.ev_list(s, args):
                cur2 = self.load(s2, obj)
                pos = self.rv(s2, vs[0])
                if not isinstance(pos, It):
                    raise Unsupported("vector insert position")
                if len(vs) == 2:
                    v = self.rv(s2, vs[1])
                    self.store(s2, obj, self.splice(s2, cur2, pos.idx, pos.idx, [self.term(s2, self.conv(s2, v, ct.elem), ct.elem)], None))
                elif len(vs) == 3:
                    a, b = self.rv(s2, vs[1]), self.rv(s2, vs[2])
                    if not (isinstance(a, It) and isinstance(b, It)):
                        raise Unsupported("vector insert range")
                    self.store(s2, obj, self.splice(s2, cur2, pos.idx, pos.idx, None, (self.load(s2, a.lv), a.idx, b.idx)))
                else:
                    raise Unsupported("vector insert")
                out.append((s2, It(obj, pos.idx, ct)))
            return out
        if name == "erase":
            out = []
            for s2, vs in self.ev_list(s, args):
                cur2 = self.load(s2, obj)
                a = self.rv(s2, vs[0])
                b = self.rv(s2, vs[1]) if len(vs) > 1 else It(a.lv, add(a.idx, z3.IntVal(1)), ct)
                ln2 = L.vlen(ct, cur2.t)
                self.safe(s2, "erase range valid", z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= ln2))
                self.store(s2, obj, self.splice(s2, cur2, a.idx, b.idx, [], None))
                out.append((s2, It(obj, a.idx, ct)))
            return out
        if name == "resize":
            out = []
            for s2, vs in self.ev_list(s, args):
                cur2 = self.load(s2, obj)
                m = self.rv(s2, vs[0]).t
                d = self.conv_arg(s2, vs[1], ct.elem) if len(vs) > 1 else self.default_val(s2, ct.elem)
                dt = self.term(s2, d, ct.elem)
                ln2 = L.vlen(ct, cur2.t)
                arr = self.freshsort(L.vdata(ct, cur2.t).sort(), "rs")
                i = z3.Int("i!rs")
                s2.pc.append(("q", FA([i], Select(arr, i) == z3.If(z3.And(i >= ln2, i < m), dt, Select(L.vdata(ct, cur2.t), i)), patterns=[Select(arr, i)])))
                self.store(s2, obj, Z(L.mkvec(ct, arr, m), ct))
                out.append((s2, VOID))
            return out
        raise Unsupported("vector." + name)

    def typing_grow(self, s, t, ct):
        """a vector that was extended still fits in memory (allocation would fail first)"""
        ln = self.L.vlen(ct, t)
        if numeral(ln) is None:
            s.pc.append(("f", ln < (1 << 60)))

    def emplace_val(self, s, el, vs, emplace):
        """element value built from constructor arguments -> [(state, value)]"""
        if len(vs) == 1:
            v = self.rv(s, vs[0])
            if not isinstance(v, Z):
                return [(s, v)]
            try:
                return [(s, self.conv(s, v, el))]
            except Unsupported:
                if not emplace:
                    raise
        if not vs:
            return [(s, self.default_val(s, el))]
        if el.kind == "rec":
            f = self.find_ctor(el, None, len(vs))
            if f is not None and f.body is not None:
                return self.construct(s, el, f, vs)
            names = [a for a, _ in self.T.fields(el)]
            given = {}
            for a, v in zip(names, vs):
                given[a] = self.conv(s, self.rv(s, v), dict(self.T.fields(el))[a])
            return [(s, self.build_rec(s, el, given))]
        if el.kind == "tup":
            self.T.sort(el)
            return [(s, Z(el.con[0](*[self.term(s, self.conv_arg(s, v, a), a) for v, a in zip(vs, el.args)]), el))]
        if el.kind == "str":
            return [(s, Z(self.fint("str"), el))]
        raise Unsupported("emplace " + el.key)

    def splice(self, s, cur, lo, hi, terms, rng):
        """sequence with [lo,hi) replaced by `terms` or by the range rng=(value, from, to)"""
        ct, L = cur.ct, self.L
        old = L.vdata(ct, cur.t)
        ln = L.vlen(ct, cur.t)
        if rng is not None:
            src, a, b = rng
            if isinstance(src, Seq):
                terms = [self.term(s, x, ct.elem) for x in src.items[numeral(a):numeral(b)]]
                rng = None
            else:
                na, nb = numeral(z3.simplify(a)), numeral(z3.simplify(b))
                if na is not None and nb is not None and nb - na <= 12:
                    terms = [self.term(s, self.conv(s, Z(self.elem_term(src, z3.IntVal(q)), src.ct.elem), ct.elem), ct.elem) for q in range(na, nb)]
                    rng = None
        m = z3.IntVal(len(terms)) if rng is None else sub(b, a)
        nl, nlo, nhi = numeral(z3.simplify(ln)), numeral(z3.simplify(lo)), numeral(z3.simplify(hi))
        newlen = add(sub(ln, sub(hi, lo)), m)
        if rng is None and (z3.simplify(lo).eq(z3.simplify(ln)) or (nl is not None and nl == nlo)):
            arr = old
            for q, t in enumerate(terms):
                arr = z3.Store(arr, add(ln, z3.IntVal(q)), t)
            r = L.mkvec(ct, arr, newlen)
            self.typing_grow(s, r, ct)
            return Z(r, ct)
        if rng is None and nl is not None and nlo is not None and nhi is not None and nl <= 24:
            items = [Select(old, z3.IntVal(q)) for q in range(nl)]
            items = items[:nlo] + terms + items[nhi:]
            arr = self.freshsort(old.sort(), "sp")
            for q, t in enumerate(items):
                arr = z3.Store(arr, z3.IntVal(q), t)
            return Z(L.mkvec(ct, arr, z3.IntVal(len(items))), ct)
        arr = self.freshsort(old.sort(), "sp")
        i = z3.Int("i!sp")
        shift = sub(m, sub(hi, lo))
        if rng is not None:
            sd = (lambda k: self.elem_term(src, k))
            if src.ct.elem is not ct.elem:
                if self.T.sort(src.ct.elem) != self.T.sort(ct.elem):
                    raise Unsupported("splice element types")
            mid = sd(add(a, i - lo))
            s.pc.append(("q", FA([i], z3.Implies(z3.And(lo <= i, i < lo + m), Select(arr, i) == mid), patterns=[Select(arr, i)])))
            j = z3.Int("j!sp")
            s.pc.append(("q", FA([j], z3.Implies(z3.And(a <= j, j < b), Select(arr, j - a + lo) == sd(j)), patterns=[sd(j)])))
        else:
            for q, t in enumerate(terms):
                s.pc.append(("f", Select(arr, add(lo, z3.IntVal(q))) == t))
        if nlo != 0:
            s.pc.append(("q", FA([i], z3.Implies(i < lo, Select(arr, i) == Select(old, i)), patterns=[Select(arr, i)])))
            s.pc.append(("q", FA([i], z3.Implies(i < lo, Select(arr, i) == Select(old, i)), patterns=bases(old, i))))
        if not z3.simplify(lo).eq(z3.simplify(ln)):
            s.pc.append(("q", FA([i], z3.Implies(i >= lo + m, Select(arr, i) == Select(old, i - shift)), patterns=[Select(arr, i)])))
            s.pc.append(("q", FA([i], z3.Implies(i >= hi, Select(arr, i + shift) == Select(old, i)), patterns=bases(old, i))))
        r = L.mkvec(ct, arr, newlen)
        self.typing_grow(s, r, ct)
        return Z(r, ct)

    # ---- sets and maps
    def sm_parts(self, v):
        ct = v.ct
        self.T.sort(ct)
        a = ct.con[0].arity()
        p = {"mem": self.L.acc(ct, 0, 0, v.t), "seq": self.L.acc(ct, 0, a - 3, v.t), "pos": self.L.acc(ct, 0, a - 2, v.t), "n": self.L.acc(ct, 0, a - 1, v.t)}
        if ct.kind == "map":
            p["val"] = self.L.acc(ct, 0, 1, v.t)
        return p

    def sm_make(self, ct, p):
        if ct.kind == "map":
            return ct.con[0](p["mem"], p["val"], p["seq"], p["pos"], p["n"])
        return ct.con[0](p["mem"], p["seq"], p["pos"], p["n"])

    def sm_add(self, s, v, key):
        """container value with key present (order: appended when new)"""
        ct = v.ct
        p = self.sm_parts(v)
        isin = Select(p["mem"], key)
        q = dict(p)
        q["mem"] = z3.Store(p["mem"], key, True)
        if ct.flavor.startswith("tsl::"):
            q["seq"] = Ite(isin, p["seq"], z3.Store(p["seq"], p["n"], key))
            q["pos"] = Ite(isin, p["pos"], z3.Store(p["pos"], key, p["n"]))
        else:
            q["seq"] = self.freshsort(p["seq"].sort(), "sq")
            q["pos"] = self.freshsort(p["pos"].sort(), "ps")
        q["n"] = Ite(isin, p["n"], add(p["n"], z3.IntVal(1)))
        t = self.sm_make(ct, q)
        if not ct.flavor.startswith("tsl::"):
            for f in self.set_wf(ct, t):
                s.pc.append(("q" if z3.is_quantifier(f) else "f", f))
        s.typed.add((t.get_id(), ct.kind))
        s.pc.append(("f", q["n"] < (1 << 60)))
        self._keep(t)
        return Z(t, ct), isin

    def _keep(self, t):
        self.kept = getattr(self, "kept", [])
        self.kept.append(t)

    def sm_del(self, s, v, key):
        ct = v.ct
        p = self.sm_parts(v)
        isin = Select(p["mem"], key)
        q = dict(p)
        q["mem"] = z3.Store(p["mem"], key, False)
        q["n"] = Ite(isin, sub(p["n"], z3.IntVal(1)), p["n"])
        q["seq"] = self.freshsort(p["seq"].sort(), "sq")
        q["pos"] = self.freshsort(p["pos"].sort(), "ps")
        t = self.sm_make(ct, q)
        for f in self.set_wf(ct, t):
            s.pc.append(("q" if z3.is_quantifier(f) else "f", f))
        s.typed.add((t.get_id(), ct.kind))
        self._keep(t)
        if ct.flavor.startswith("tsl::"):
            k = z3.Const("k!del", key.sort())
            s.pc.append(("q", FA([k], z3.Implies(And(Select(q["mem"], k)), Select(q["pos"], k) == Select(p["pos"], k) - z3.If(z3.And(isin, Select(p["pos"], k) > Select(p["pos"], key)), 1, 0)), patterns=[Select(q["pos"], k)])))
            i = z3.Int("i!del")
            s.pc.append(("q", FA([i], z3.Implies(z3.And(0 <= i, i < q["n"]), Select(q["seq"], i) == Select(p["seq"], z3.If(z3.And(isin, i >= Select(p["pos"], key)), i + 1, i))), patterns=[Select(q["seq"], i)])))
        return Z(t, ct), isin

    def key_term(self, s, v, ct):
        return self.term(s, self.conv_arg(s, v, ct), ct)

    def m_set(self, s, name, obj, cur, args, n):
        ct = cur.ct
        p = self.sm_parts(cur)
        K = ct.args[0]
        if name == "size":
            return [(s, Z(p["n"], self.T.SIZE))]
        if name == "empty":
            return [(s, Z(Eq(p["n"], z3.IntVal(0)), self.T.BOOL))]
        if name in ("begin", "cbegin"):
            return [(s, It(self.as_lv(s, obj), z3.IntVal(0), ct))]
        if name in ("end", "cend"):
            return [(s, It(self.as_lv(s, obj), p["n"], ct))]
        if name in ("front", "back"):
            self.safe(s, name + " of non-empty container", p["n"] > 0)
            return [(s, Z(Select(p["seq"], z3.IntVal(0) if name == "front" else sub(p["n"], z3.IntVal(1))), K))]
        if name == "clear":
            self.store(s, obj, self.default_val(s, ct))
            return [(s, VOID)]
        out = []
        for s2, vs in self.ev_list(s, args):
            cur2 = self.load(s2, obj)
            p = self.sm_parts(cur2)
            if name in ("contains", "count"):
                k = self.key_term(s2, vs[0], K)
                m = Select(p["mem"], k)
                out.append((s2, Z(m, self.T.BOOL) if name == "contains" else Z(Ite(m, z3.IntVal(1), z3.IntVal(0)), self.T.SIZE)))
            elif name == "find":
                k = self.key_term(s2, vs[0], K)
                out.append((s2, It(self.as_lv(s2, obj), Ite(Select(p["mem"], k), Select(p["pos"], k), p["n"]), ct)))
                self.assume(s2, Implies_(Select(p["mem"], k), And(Select(p["pos"], k) >= 0, Select(p["pos"], k) < p["n"], Select(p["seq"], Select(p["pos"], k)) == k)))
            elif name in ("insert", "emplace") and len(vs) == 1:
                k = self.key_term(s2, vs[0], K)
                nv, isin = self.sm_add(s2, cur2, k)
                self.store(s2, obj, nv)
                pt = self.T.tup([self.T.opq("iter"), self.T.BOOL])
                self.T.sort(pt)
                out.append((s2, Z(pt.con[0](self.freshsort(self.T.sort(pt.args[0]), "it"), Not(isin)), pt)))
            elif name == "insert" and len(vs) == 2:
                a, b = self.rv(s2, vs[0]), self.rv(s2, vs[1])
                if not (isinstance(a, It) and isinstance(b, It)):
                    raise Unsupported("set insert range")
                src = self.load(s2, a.lv)
                if isinstance(src, Seq):
                    raise Unsupported("set insert from values")
                na, nb = numeral(z3.simplify(a.idx)), numeral(z3.simplify(b.idx))
                if na is not None and nb is not None and nb - na <= 12:
                    v = cur2
                    for q in range(na, nb):
                        v, _ = self.sm_add(s2, v, self.elem_term(src, z3.IntVal(q)))
                    self.store(s2, obj, v)
                else:
                    self.store(s2, obj, self.sm_union(s2, cur2, src, a.idx, b.idx))
                out.append((s2, VOID))
            elif name == "erase":
                v = self.rv(s2, vs[0])
                if isinstance(v, It):
                    self.safe(s2, "erase of a valid iterator", z3.And(0 <= v.idx, v.idx < p["n"]))
                    k = Select(p["seq"], v.idx)
                    self.assume(s2, And(Select(p["mem"], k), Select(p["pos"], k) == v.idx))
                    nv, isin = self.sm_del(s2, cur2, k)
                    self.store(s2, obj, nv)
                    out.append((s2, It(obj, v.idx, ct)))
                else:
                    k = self.term(s2, self.conv(s2, v, K), K)
                    nv, isin = self.sm_del(s2, cur2, k)
                    self.store(s2, obj, nv)
                    out.append((s2, Z(Ite(isin, z3.IntVal(1), z3.IntVal(0)), self.T.SIZE)))
            else:
                raise Unsupported("set." + name)
        return out

    def sm_union(self, s, cur, src, a, b):
        """insertion of src[a..b) in order"""
        ct = cur.ct
        p = self.sm_parts(cur)
        q = {"mem": self.freshsort(p["mem"].sort(), "um"), "seq": self.freshsort(p["seq"].sort(), "us"), "pos": self.freshsort(p["pos"].sort(), "up"), "n": self.fint("un")}
        t = self.sm_make(ct, q)
        for f in self.set_wf(ct, t):
            s.pc.append(("q" if z3.is_quantifier(f) else "f", f))
        s.typed.add((t.get_id(), ct.kind))
        self._keep(t)
        i = z3.Int("i!un")
        k = z3.Const("k!un", p["mem"].sort().domain())
        wit = self.uf("unw!%d" % self.cnt, p["mem"].sort().domain(), z3.IntSort())
        at = lambda x: self.elem_term(src, x)
        s.pc.append(("q", FA([i], z3.Implies(z3.And(a <= i, i < b), Select(q["mem"], at(i))), patterns=[at(i)])))
        s.pc.append(("q", FA([k], z3.Implies(Select(p["mem"], k), Select(q["mem"], k)), patterns=[Select(p["mem"], k)])))
        s.pc.append(("q", FA([k], z3.Implies(And(Select(q["mem"], k), Not(Select(p["mem"], k))), z3.And(a <= wit(k), wit(k) < b, at(wit(k)) == k)), patterns=[Select(q["mem"], k)])))
        s.pc.append(("f", z3.And(q["n"] >= p["n"], q["n"] <= p["n"] + (b - a))))
        if ct.flavor.startswith("tsl::"):
            s.pc.append(("q", FA([i], z3.Implies(z3.And(0 <= i, i < p["n"]), Select(q["seq"], i) == Select(p["seq"], i)), patterns=[Select(q["seq"], i)])))
        return Z(t, ct)

    def m_map(self, s, name, obj, cur, args, n):
        ct = cur.ct
        p = self.sm_parts(cur)
        K, V = ct.args
        if name in ("size", "empty", "begin", "cbegin", "end", "cend"):
            return self.m_set(s, name, obj, cur, args, n)
        if name == "clear":
            self.store(s, obj, self.default_val(s, ct))
            return [(s, VOID)]
        if name in ("contains", "count", "find", "erase"):
            return self.m_set(s, name, obj, cur, args, n)
        out = []
        for s2, vs in self.ev_list(s, args):
            cur2 = self.load(s2, obj)
            p = self.sm_parts(cur2)
            if name == "at":
                k = self.key_term(s2, vs[0], K)
                lv = self.as_lv(s2, obj)
                for s3, tv in self.branch(s2, Select(p["mem"], k)):
                    if tv:
                        out.append((s3, lv.at("m", k)))
                    else:
                        self.throw(s3, "std::out_of_range")
            elif name == "insert_or_assign":
                k = self.key_term(s2, vs[0], K)
                v = self.term(s2, self.conv_arg(s2, vs[1], V), V)
                nv, isin = self.sm_add(s2, cur2, k)
                self.map_put(s2, obj, nv, k, v)
                out.append((s2, self.ins_result(s2, isin)))
            elif name in ("insert", "emplace", "try_emplace"):
                if len(vs) == 1:
                    pr = self.rv(s2, vs[0])
                    k = self.term(s2, self.conv(s2, Z(self.L.acc(pr.ct, 0, 0, pr.t), pr.ct.args[0]), K), K)
                    v = self.term(s2, self.conv(s2, Z(self.L.acc(pr.ct, 0, 1, pr.t), pr.ct.args[1]), V), V)
                else:
                    k = self.key_term(s2, vs[0], K)
                    r = self.emplace_val(s2, V, vs[1:], True)
                    if len(r) != 1:
                        raise Unsupported("forking emplace")
                    s2, vv = r[0]
                    v = self.term(s2, vv, V)
                isin = Select(p["mem"], k)
                v = Ite(isin, Select(p["val"], k), v)
                nv, isin = self.sm_add(s2, cur2, k)
                self.map_put(s2, obj, nv, k, v)
                q = self.sm_parts(self.load(s2, obj))
                pair = Seq([It(obj, Select(q["pos"], k), ct), Z(Not(isin), self.T.BOOL)], None)
                self.assume(s2, And(Select(q["seq"], Select(q["pos"], k)) == k, Select(q["pos"], k) >= 0, Select(q["pos"], k) < q["n"]))
                out.append((s2, self.ins_result(s2, isin)))
            else:
                raise Unsupported("map." + name)
        return out

    def ins_result(self, s, isin):
        pt = self.T.tup([self.T.opq("iter"), self.T.BOOL])
        self.T.sort(pt)
        return Z(pt.con[0](self.freshsort(self.T.sort(pt.args[0]), "it"), Not(isin)), pt)

    def map_put(self, s, obj, nv, k, v):
        p = self.sm_parts(nv)
        p["val"] = z3.Store(p["val"], k, v)
        t = self.sm_make(nv.ct, p)
        s.typed.add((t.get_id(), nv.ct.kind))
        self._keep(t)
        self.store(s, obj, Z(t, nv.ct))

    # ---- strings: contents uninterpreted
    def m_str(self, s, name, obj, cur, args, n):
        self.trust("string contents (uninterpreted)")
        if name in ("size", "length"):
            f = self.uf("strlen", z3.IntSort(), z3.IntSort())
            t = f(cur.t)
            self.assume(s, z3.And(t >= 0, t < (1 << 60), (t == 0) == (cur.t == 0)))
            return [(s, Z(t, self.T.SIZE))]
        if name == "empty":
            return [(s, Z(Eq(cur.t, z3.IntVal(0)), self.T.BOOL))]
        if name.startswith("operator basic_string_view") or name in ("c_str", "data", "str"):
            return [(s, cur)]
        if name in ("append", "push_back", "operator+=", "erase", "remove_prefix", "remove_suffix", "clear", "insert", "replace", "resize"):
            out = []
            for s2, vs in self.ev_list(s, args):
                self.store(s2, obj, Z(z3.IntVal(0) if name == "clear" else self.fint("str"), self.T.STR))
                out.append((s2, obj))
            return out
        out = []
        ct = self.T.of(n)
        for s2, vs in self.ev_list(s, args):
            zs = [self.rv(s2, v) for v in vs]
            if all(isinstance(z, Z) for z in zs) and ct.kind in ("int", "bool", "str"):
                f = self.uf("str." + name, *([z3.IntSort()] + [self.T.sort(z.ct) for z in zs] + [self.T.sort(ct)]))
                t = f(cur.t, *[z.t for z in zs])
                self.typing(s2, t, ct)
                out.append((s2, Z(t, ct)))
            else:
                out.append((s2, self.havoc_val(s2, ct, "str_" + name)))
        return out

    # ---- tuples/pairs, opaque things
    def m_opq(self, s, name, obj, cur, args, n):
        ct = cur.ct if isinstance(cur, Z) else None
        key = ct.key if ct else "?"
        if "function" in key or key == "opq:fun":
            if name == "operator bool":
                return [(s, self.havoc_val(s, self.T.BOOL))]
            if name == "operator()":
                return self.call_opaque(s, cur, args, n)
        self.trust("method %s of %s (result unconstrained)" % (name, key))
        out = []
        for s2, vs in self.ev_list(s, args):
            rt = self.T.of(n)
            if isinstance(obj, LV) and not self.is_const_method(n):
                self.store(s2, obj, self.havoc_val(s2, self.lvct(s2, obj)))
            out.append((s2, VOID if rt.kind == "void" else self.havoc_val(s2, rt, name)))
        return out

    def is_const_method(self, n):
        return strip(n["inner"][0]).get("name") in ("size", "empty", "what", "str", "eof", "top", "count", "begin", "end", "good", "base")

    def call_opaque(self, s, cur, args, n):
        self.trust("callbacks (std::function arguments) do not change the state under contract")
        out = []
        for s2, vs in self.ev_list(s, args):
            for h in getattr(self, "callback_hooks", ()):
                h(self, s2, cur, vs)
            ct = self.T.of(n)
            out.append((s2, VOID if ct.kind == "void" else self.havoc_val(s2, ct, "cb")))
        return out

    # ------------------------------------------------------------ operators
    def is_stream(self, node):
        q = (node["type"].get("desugaredQualType") or node["type"]["qualType"])
        return any(x in q for x in STREAMY)

    def lib_operator(self, st, n):
        callee = strip(n["inner"][0])
        args = n["inner"][1:]
        rd = callee.get("referencedDecl", {})
        name = rd.get("name", "")
        did = rd.get("id")
        f = self.prog.decl.get(did)
        if name == "operator<<" and self.is_stream(args[0]):
            out = []
            dfn = self.prog.definition(did) if f is not None else None
            if dfn is not None and getattr(self, "inline_streams", False):
                for s, vs in self.ev_list(st, args):
                    out.extend(self.call_func(s, dfn, None, vs, n))
                return out
            self.trust("stream output")
            for s, vs in self.ev_list(st, args):
                out.append((s, vs[0]))
            return out
        if f is not None:
            dfn = self.prog.definition(did)
            is_method = f.node["kind"] == "CXXMethodDecl" and not f.static
            if dfn is not None and dfn.body is not None:
                out = []
                for s, vs in self.ev_list(st, self.real_args(args)):
                    if is_method:
                        this = self.as_lv(s, vs[0], "this")
                        cv = self.load(s, this)
                        out.extend(self.call_func(s, dfn, self.this_for(s, this, dfn), vs[1:], n))
                    else:
                        out.extend(self.call_func(s, dfn, None, vs, n))
                return out
            if name == "operator==":
                out = []
                for s, vs in self.ev_list(st, args):
                    out.append((s, Z(self.eqv(s, self.abs_arg(s, self.rv(s, vs[0])), self.abs_arg(s, self.rv(s, vs[1]))), self.T.BOOL)))
                return out
            if name == "operator=":
                return self.op_assign(st, args)
            if name != "operator()":
                raise Unsupported("project operator without body " + f.qual)
        m = {"operator()": self.op_call, "operator[]": self.op_index, "operator->": self.op_arrow, "operator*": self.op_star,
             "operator==": self.op_cmp, "operator!=": self.op_cmp, "operator<": self.op_cmp, "operator>": self.op_cmp,
             "operator<=": self.op_cmp, "operator>=": self.op_cmp, "operator=": None, "operator++": self.op_incdec,
             "operator--": self.op_incdec, "operator+": self.op_plus, "operator-": self.op_plus, "operator+=": self.op_pluseq}.get(name)
        if name == "operator=":
            return self.op_assign(st, args)
        if m is None:
            out = []
            self.trust("operator %s on opaque values" % name)
            for s, vs in self.ev_list(st, args):
                ct = self.T.of(n)
                if ct.kind == "void":
                    out.append((s, VOID))
                elif name in ("operator>>",):
                    out.append((s, vs[0]))
                else:
                    out.append((s, self.havoc_val(s, ct, "op")))
            return out
        return m(st, n, args, name)

    def op_assign(self, st, args):
        out = []
        # right operand first (C++17)
        for s, r in self.ev(st, args[1]):
            r = self.rv(s, r)
            for s2, l in self.ev(s, args[0]):
                if not isinstance(l, LV):
                    raise Unsupported("assignment to %r" % (l,))
                ct = self.lvct(s2, l)
                if isinstance(r, Z):
                    if ct.kind == "opt" and ct.elem.kind == "refw" and r.ct.kind == "null":
                        self.store(s2, l, P(False, None, ct.elem.elem))
                    else:
                        self.store(s2, l, self.conv(s2, r, ct))
                else:
                    self.store(s2, l, r)
                out.append((s2, l))
        return out

    def op_call(self, st, n, args, name):
        out = []
        for s, vs in self.ev_list(st, self.real_args(args)):
            c = self.rv(s, vs[0])
            if isinstance(c, P) and c.lv is not None:
                c = self.load(s, c.lv)
            if isinstance(c, (Clo, Fn)):
                out.extend(self.call_closure(s, c, vs[1:]))
            elif isinstance(c, Z) and c.ct.kind == "opq" and ("hash" in c.ct.key):
                ct = self.T.of(n)
                zs = [self.rv(s, v) for v in vs[1:]]
                f = self.uf("hash<%s>" % zs[0].ct.key, self.T.sort(zs[0].ct), self.T.sort(ct))
                t = f(zs[0].t)
                self.typing(s, t, ct)
                out.append((s, Z(t, ct)))
            elif isinstance(c, Z):
                self.trust("callbacks (std::function arguments) do not change the state under contract")
                for h in getattr(self, "callback_hooks", ()):
                    h(self, s, c, vs[1:])
                ct = self.T.of(n)
                out.append((s, VOID if ct.kind == "void" else self.havoc_val(s, ct, "cb")))
            else:
                raise Unsupported("call of %r" % (c,))
        return out

    def op_index(self, st, n, args, name):
        out = []
        for s, vs in self.ev_list(st, args):
            base = vs[0]
            cur = self.rv(s, base)
            if isinstance(cur, It):
                i = add(cur.idx, self.rv(s, vs[1]).t)
                out.append((s, self.it_deref(s, It(cur.lv, i, cur.ct))))
                continue
            lv = self.as_lv(s, base)
            if isinstance(cur, Seq):
                i = numeral(z3.simplify(self.rv(s, vs[1]).t))
                if i is None:
                    raise Unsupported("symbolic index into value sequence")
                self.safe(s, "index in bounds", z3.BoolVal(i < len(cur.items)))
                out.append((s, lv.at("i", z3.IntVal(i))))
                continue
            ct = cur.ct
            if ct.kind == "vec":
                i = self.rv(s, vs[1]).t
                self.safe(s, "index in bounds [%s]" % self.prog.short_text(n), z3.And(i >= 0, i < self.L.vlen(ct, cur.t)))
                out.append((s, lv.at("i", i)))
            elif ct.kind == "map":
                k = self.key_term(s, vs[1], ct.args[0])
                p = self.sm_parts(cur)
                isin = Select(p["mem"], k)
                d = self.term(s, self.default_val(s, ct.args[1]), ct.args[1])
                v = Ite(isin, Select(p["val"], k), d)
                nv, _ = self.sm_add(s, cur, k)
                self.map_put(s, lv, nv, k, v)
                out.append((s, lv.at("m", k)))
            elif ct.kind == "str":
                i = self.rv(s, vs[1]).t
                ln = self.uf("strlen", z3.IntSort(), z3.IntSort())
                g = self.uf("strat", z3.IntSort(), z3.IntSort(), z3.IntSort())
                self.safe(s, "string index in bounds [%s]" % self.prog.short_text(n), z3.And(i >= 0, i <= ln(cur.t)))
                t = g(cur.t, i)
                self.typing(s, t, self.T.CHAR)
                out.append((s, Z(t, self.T.CHAR)))
            else:
                self.trust("operator[] on " + ct.key)
                out.append((s, self.new_root(s, self.havoc_val(s, self.T.of(n)), self.T.of(n), "idx")))
        return out

    def op_arrow(self, st, n, args, name):
        out = []
        for s, v in self.ev(st, args[0]):
            cur = self.rv(s, v)
            if isinstance(cur, P):
                # optional<reference_wrapper>-> / pointer-like
                ct = self.T.of(n)
                self.safe(s, "-> on empty optional/pointer", B(cur.has))
                if cur.lv is None:
                    s.dead = True
                    continue
                if ct.kind == "ptr" and ct.elem.kind == "refw":
                    lv = self.new_root(s, P(True, cur.lv, cur.ct), ct.elem, "rw")
                    out.append((s, P(True, lv, ct.elem)))
                else:
                    out.append((s, P(True, cur.lv, cur.ct)))
            elif isinstance(cur, It):
                lv = self.it_deref(s, cur)
                out.append((s, P(True, lv, self.lvct(s, lv))))
            elif isinstance(cur, Z) and cur.ct.kind == "opt":
                lv = self.as_lv(s, v)
                self.safe(s, "-> on empty optional [%s]" % self.prog.short_text(n), self.L.is_some(cur.ct, cur.t))
                out.append((s, P(True, lv.at("v"), cur.ct.elem)))
            else:
                raise Unsupported("operator-> on %r" % (cur,))
        return out

    def it_deref(self, s, it):
        ln = self.container_len(s, it.lv)
        self.safe(s, "iterator dereference in range", z3.And(0 <= it.idx, it.idx < ln))
        return self.as_lv(s, self.it_elem(s, it))

    def op_star(self, st, n, args, name):
        if len(args) == 2:
            return self.op_plus(st, n, args, name)
        out = []
        for s, v in self.ev(st, args[0]):
            cur = self.rv(s, v)
            if isinstance(cur, P):
                ct = self.T.of(n)
                self.safe(s, "* on empty optional/pointer", B(cur.has))
                if cur.lv is None:
                    s.dead = True
                    continue
                if ct.kind == "refw":
                    out.append((s, P(True, cur.lv, cur.ct)))
                else:
                    out.append((s, cur.lv))
            elif isinstance(cur, It):
                out.append((s, self.it_deref(s, cur)))
            elif isinstance(cur, Z) and cur.ct.kind == "opt":
                lv = self.as_lv(s, v)
                self.safe(s, "* on empty optional [%s]" % self.prog.short_text(n), self.L.is_some(cur.ct, cur.t))
                out.append((s, lv.at("v")))
            else:
                out.append((s, self.havoc_val(s, self.T.of(n))))
        return out

    def op_cmp(self, st, n, args, name):
        out = []
        op = name[8:]
        for s, vs in self.ev_list(st, args):
            a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
            if isinstance(a, Z) and isinstance(b, Z) and ("opq" in (a.ct.kind, b.ct.kind)) and (op not in ("==", "!=") or a.ct is not b.ct):
                out.append((s, self.havoc_val(s, self.T.BOOL)))
                continue
            if isinstance(a, P) and isinstance(b, Z) and b.ct.kind == "null":
                out.append((s, Z(Not(B(a.has)) if op == "==" else B(a.has), self.T.BOOL)))
                continue
            if isinstance(a, Agg):
                a = self.abs_arg(s, a)
            if isinstance(b, Agg):
                b = self.abs_arg(s, b)
            if isinstance(a, Z) and isinstance(b, Z) and a.ct.kind == "str" and op not in ("==", "!="):
                out.append((s, self.havoc_val(s, self.T.BOOL)))
                continue
            if isinstance(a, (It,)) and not isinstance(b, It) or isinstance(b, It) and not isinstance(a, It):
                out.append((s, self.havoc_val(s, self.T.BOOL)))
                continue
            out.append((s, Z(self.compare(s, op, a, b), self.T.BOOL)))
        return out

    def op_incdec(self, st, n, args, name):
        out = []
        for s, v in self.ev(st, args[0]):
            if not isinstance(v, LV):
                raise Unsupported("++ of value")
            if not isinstance(self.load(s, v), It):
                raise Unsupported("++ of opaque iterator")
            out.append(self.incdec(s, v, "++" if name == "operator++" else "--", len(args) > 1))
        return out

    def op_plus(self, st, n, args, name):
        out = []
        for s, vs in self.ev_list(st, args):
            a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
            if isinstance(a, It):
                out.append((s, self.it_arith(s, name[8:], a, b)))
            else:
                ct = self.T.of(n)
                zs = [a, b]
                if ct.kind == "str" and all(isinstance(z, Z) for z in zs):
                    f = self.uf("str+", self.T.sort(a.ct), self.T.sort(b.ct), z3.IntSort())
                    out.append((s, Z(f(a.t, b.t), ct)))
                else:
                    out.append((s, self.havoc_val(s, ct, "plus")))
        return out

    def op_pluseq(self, st, n, args, name):
        out = []
        for s, vs in self.ev_list(st, args):
            a = self.load(s, vs[0])
            if isinstance(a, It):
                self.store(s, vs[0], self.it_arith(s, "+", a, self.rv(s, vs[1])))
            else:
                self.store(s, vs[0], self.havoc_val(s, self.lvct(s, vs[0])))
            out.append((s, vs[0]))
        return out

    # ------------------------------------------------------------ construction of std objects
    def lib_construct(self, st, n, ct, args, ctype):
        k = ct.kind
        out = []
        if k == "null":
            return [(st, Z(self.nullv(), self.T._mk("null", "null")))]
        if k == "opq":
            if ct is self.T.EXC or ct.key == "exc":
                return [(s, Z(self.freshsort(self.T.sort(ct), "exc"), ct)) for s, _ in self.ev_list(st, args)]
            for s, vs in self.ev_list(st, args):
                if len(vs) == 1:
                    v = self.rv(s, vs[0])
                    if isinstance(v, (Clo, Fn, Over, It)):
                        out.append((s, v))
                        continue
                    if isinstance(v, Z) and v.ct.kind == "opq" and self.T.sort(v.ct) == self.T.sort(ct):
                        out.append((s, v))
                        continue
                    if isinstance(v, Z) and v.ct.kind == "rec":
                        out.append((s, v))
                        continue
                out.append((s, Z(self.freshsort(self.T.sort(ct), "opq"), ct)))
            return out
        if not args:
            return [(st, self.default_val(st, ct))]
        pt = parse_type(ctype)
        if k in ("opt", "var", "tup", "refw"):
            for s, vs in self.ev_list(st, args):
                if k == "tup":
                    if len(vs) == len(ct.args):
                        zs = [self.rv(s, v) for v in vs]
                        self.T.sort(ct)
                        out.append((s, Z(ct.con[0](*[self.term(s, self.conv_arg(s, v, a), a) for v, a in zip(vs, ct.args)]), ct)))
                    else:
                        out.append((s, self.conv_arg(s, vs[0], ct)))
                    continue
                v0 = vs[0]
                v = self.rv(s, v0)
                if k == "opt" and ct.elem.kind == "refw" and isinstance(v0, LV) and isinstance(v, Z) and v.ct is ct.elem.elem:
                    out.append((s, P(True, v0, v.ct)))
                    continue
                if k == "refw":
                    if isinstance(v, P):
                        out.append((s, v))
                    elif isinstance(v, Z) and v.ct.kind == "refw":
                        out.append((s, v))
                    elif isinstance(v0, LV):
                        out.append((s, P(True, v0, self.lvct(s, v0))))
                    else:
                        raise Unsupported("reference_wrapper of value")
                    continue
                if isinstance(v, P) and k == "opt":
                    out.append((s, v))
                    continue
                if isinstance(v, (Agg,)):
                    v = self.abs_arg(s, v)
                if isinstance(v, Z):
                    if k == "opt" and ct.elem.kind == "refw" and v.ct.kind == "null":
                        out.append((s, P(False, None, ct.elem.elem)))
                    elif k == "opt" and ct.flavor == "smart" and v.ct.kind == "ptr":
                        out.append((s, self.havoc_val(s, ct)))
                    else:
                        out.append((s, self.conv(s, v, ct)))
                    continue
                raise Unsupported("construct %s from %r" % (ct.key, v))
            return out
        if k == "str":
            for s, vs in self.ev_list(st, args):
                v = self.rv(s, vs[0])
                if isinstance(v, Z) and v.ct.kind == "str":
                    out.append((s, Z(v.t, ct)))
                else:
                    out.append((s, Z(self.fint("str"), ct)))
            return out
        if k == "vec":
            for s, vs in self.ev_list(st, args):
                v = self.rv(s, vs[0])
                a0 = pt.args[0] if pt.args else None
                if isinstance(v, Seq):
                    out.append((s, Seq(v.items, ct)))
                elif isinstance(v, Z) and v.ct.kind == "vec":
                    out.append((s, self.conv(s, v, ct)))
                elif isinstance(v, It) and len(vs) == 2:
                    b = self.rv(s, vs[1])
                    e = self.default_val(s, ct)
                    out.append((s, self.splice(s, e, z3.IntVal(0), z3.IntVal(0), None, (self.load(s, v.lv), v.idx, b.idx))))
                elif isinstance(v, Z) and v.ct.kind in ("int",):
                    d = self.conv_arg(s, vs[1], ct.elem) if len(vs) > 1 else self.default_val(s, ct.elem)
                    arr = z3.K(z3.IntSort(), self.term(s, d, ct.elem))
                    self.assume(s, v.t < (1 << 60))
                    out.append((s, Z(self.L.mkvec(ct, arr, v.t), ct)))
                else:
                    raise Unsupported("vector construction from %r" % (v,))
            return out
        if k in ("set", "map"):
            for s, vs in self.ev_list(st, args):
                v = self.rv(s, vs[0])
                if isinstance(v, Z) and v.ct is ct:
                    out.append((s, v))
                elif isinstance(v, Z) and v.ct.kind == "vec":
                    m = numeral(z3.simplify(self.L.vlen(v.ct, v.t)))
                    if m is None:
                        raise Unsupported("set from list of unknown length")
                    cur = self.default_val(s, ct)
                    for q in range(m):
                        e = self.L.vat(v.ct, v.t, z3.IntVal(q))
                        if k == "set":
                            cur, _ = self.sm_add(s, cur, e)
                        else:
                            key = self.L.acc(v.ct.elem, 0, 0, e)
                            val = self.L.acc(v.ct.elem, 0, 1, e)
                            pp = self.sm_parts(cur)
                            isin = Select(pp["mem"], key)
                            val = Ite(isin, Select(pp["val"], key), val)
                            nv, _ = self.sm_add(s, cur, key)
                            pn = self.sm_parts(nv)
                            pn["val"] = z3.Store(pn["val"], key, val)
                            cur = Z(self.sm_make(ct, pn), ct)
                            s.typed.add((cur.t.get_id(), ct.kind))
                            self._keep(cur.t)
                    out.append((s, cur))
                elif isinstance(v, It) and len(vs) == 2:
                    b = self.rv(s, vs[1])
                    src = self.load(s, v.lv)
                    out.append((s, self.sm_union(s, self.default_val(s, ct), src, v.idx, b.idx)))
                else:
                    raise Unsupported("set construction from %r" % (v,))
            return out
        if k in ("int", "bool", "enum", "real"):
            return [(s, self.conv(s, self.rv(s, v), ct)) for s, v in self.ev(st, args[0])]
        if k == "ptr":
            return self.evv(st, args[0])
        raise Unsupported("construct " + ct.key)


def Implies_(a, b):
    return Or(Not(a), b)
