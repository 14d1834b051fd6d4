"""The loop rule.  A loop is cut at its head: every location its body may write is replaced by an unknown value, the loop invariant
is assumed for an arbitrary iteration, and one arbitrary iteration is executed.  The invariant is the conjunction of those candidate
formulas (written in the contracts, or proposed from the loop's own text) that hold on entry and are preserved by every path of the
body; a candidate that is not inductive is dropped, never assumed."""
import z3, time, re
from ctypes_ import Unsupported
from vals import *


def consts_of(t, cache=None):
    out, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x)
            st.extend(x.children())
    return out


def fresh_no(c):
    m = re.match(r".*!(\d+)$", c.decl().name())
    return int(m.group(1)) if m else -1


def newer(t, cnt0):
    return any(fresh_no(c) > cnt0 for c in consts_of(t))


class Loc:
    __slots__ = ("root", "pre", "depth", "ct", "h", "x0", "kind", "name", "tmpl", "sub", "mode")


def cell(store, root, sub):
    """value held by a root, or by a field of a record kept field by field"""
    v = store[root]
    for x in sub:
        v = v.f[x]
    return v


def setcell(store, root, sub, val):
    def up(v, sub):
        if not sub:
            return val
        f = dict(v.f)
        f[sub[0]] = up(f[sub[0]], sub[1:])
        return Agg(v.ct, f)
    store[root] = up(store[root], sub)


def split_agg(store, r, pre):
    """-> [(sub, rest of the prefix)] for a location inside a record kept field by field"""
    v, sub, rest = store[r], [], list(pre)
    while isinstance(v, Agg):
        if rest and rest[0][0] == "f" and rest[0][1] in v.f:
            sub.append(rest[0][1])
            v = v.f[rest[0][1]]
            rest.pop(0)
            continue
        # the whole record: every logical field
        out = []
        for n in v.f:
            w = v.f[n]
            if isinstance(w, Z):
                out.append((tuple(sub) + (n,), ()))
            elif isinstance(w, Agg):
                out.extend((tuple(sub) + (n,) + a, b) for a, b in split_agg({0: w}, 0, ()))
        return out
    return [(tuple(sub), tuple(rest))]


def locations(eng, s0, writes, cnt0, dyn):
    """writes of the body -> havoc locations [(root, prefix, depth)]"""
    by = {}
    for r, p in writes:
        if r not in s0.store:
            continue
        pre, rest, d, dynpre = [], list(p), 0, False
        while rest:
            k = rest[0][0]
            if k in ("f", "v", "a", "t"):
                pre.append(rest.pop(0))
            elif k == "i" and dyn and not newer(rest[0][1], cnt0) and rest[1:]:
                pre.append(rest.pop(0))
                dynpre = True
            else:
                break
        if rest:
            if rest[0][0] == "i":
                while rest and rest[0][0] == "i":
                    d += 1
                    rest.pop(0)
            elif rest[0][0] == "m":
                d = -1
        by.setdefault(r, []).append((tuple(pre), d, dynpre))
    out = []
    for r, l in by.items():
        pres = {}
        for pre, d, dp in l:
            key = tuple((s[0], s[1].get_id()) if s[0] == "i" else s for s in pre)
            pres.setdefault(key, [pre, set(), dp])[1].add(d)
        keys = list(pres)
        # several index-dependent prefixes, or prefixes below one another: fall back to the static part
        if any(v[2] for v in pres.values()) and len(keys) > 1:
            if dyn:
                return locations(eng, s0, writes, cnt0, False)
        for k in keys:
            if any(len(q) < len(k) and k[:len(q)] == q for q in keys):
                continue
            below = any(len(q) > len(k) and q[:len(k)] == k for q in keys)
            pre, ds, _ = pres[k]
            d = 0 if 0 in ds or below and ds != {0} and False else None
            if d is None:
                d = -1 if ds == {-1} else (0 if -1 in ds else min(ds))
            if below and d > 0:
                d = 0
            out.append((r, pre, d))
    return out


def run_body(eng, s, it, head, body, post):
    """one iteration -> (exits at head [(state)], normal ends [state], leaving [(state, flow)])"""
    exits, ends, leave = [], [], []
    for s1, c in head(s, it):
        if s1.dead:
            continue
        for s2, tv in eng.branch(s1, c):
            if not tv:
                exits.append(s2)
                continue
            for s3, fl in body(s2, it):
                if s3.dead:
                    continue
                if fl is None or fl[0] == "continue":
                    for s4 in post(s3, it):
                        if not s4.dead:
                            ends.append(s4)
                elif fl[0] == "break":
                    leave.append((s3, None))
                else:
                    leave.append((s3, fl))
    return exits, ends, leave


def check_writes(s0, H, e, hl):
    """whatever differs between the two ends of an iteration must be among the replaced locations"""
    def diff(a, b, sub):
        if a is b:
            return
        if isinstance(a, Agg) and isinstance(b, Agg) and set(a.f) == set(b.f):
            for k in a.f:
                yield from diff(a.f[k], b.f[k], sub + (k,))
        elif isinstance(a, Z) and isinstance(b, Z):
            if not a.t.eq(b.t):
                yield sub
        elif isinstance(a, P) and isinstance(b, P):
            if a is not b:
                yield sub
    for r in s0.store:
        if r not in H.store or r not in e.store:
            continue
        for sub in diff(H.store[r], e.store[r], ()):
            if not any(l.root == r and (l.sub[:len(sub)] == sub or sub[:len(l.sub)] == l.sub) for l in hl):
                raise Unsupported("a write of the loop body was not recorded: %s%s" % (r, "".join("." + str(x) for x in sub)))


class Dry:
    def __init__(self, eng):
        self.e = eng

    def __enter__(self):
        self.e.dry += 1
        self.sk = self.e.sinks
        self.e.sinks = [[]]
        return self

    def __exit__(self, *a):
        self.e.dry -= 1
        self.e.sinks = self.sk


class Loop:
    """what a sidecar invariant sees: variables at the loop head (arbitrary iteration) and on entry"""

    def __init__(self, eng, s0, H, it, locs, n, bound, cont):
        self.eng, self.s0, self.H, self.it, self.locs, self.n, self.bound, self.cont = eng, s0, H, it, locs, n, bound, cont


def run(eng, s0, n, kind, head, body, post, cont, bound):
    eng.hist_pending = []
    cnt0 = eng.cnt
    t_start = time.time()
    base_w = len(s0.writes)
    eng.cnt += 1
    it = z3.Int("it!%d" % eng.cnt)
    # ---------------------------------------------------------------- 1. what may the body write
    writes = []
    tmpl = {}
    locs = []
    cur_locs = None
    for rnd in range(5):
        with Dry(eng):
            H, hl = havoc(eng, s0, locs, tmpl, it, bound)
            body_w = len(H.writes)          # the replacement of the locations is not a write of the body
            ex, ends, leave = run_body(eng, H, it, head, body, post)
        new = []
        for e in ends + ex:
            new.extend(e.writes[body_w:])
        for e in ends:
            for r, v in e.store.items():
                if r in s0.store and isinstance(v, P) and v is not s0.store[r]:
                    if v.lv is not None:
                        t0 = tmpl.get(r)
                        if t0 is not None and not same_shape(t0, v.lv):
                            raise Unsupported("pointer variable over different shapes")
                        tmpl[r] = v.lv
                    else:
                        tmpl.setdefault(r, None)
        for w in new:
            if not any(w[0] == x[0] and len(w[1]) == len(x[1]) and all(step_eq(a, b) for a, b in zip(w[1], x[1])) for x in writes):
                writes.append(w)
        l2 = locations(eng, s0, writes, cnt0, True)
        key = sorted((r, str(pre), d) for r, pre, d in l2)
        if key == cur_locs:
            break
        cur_locs = key
        locs = l2
    else:
        raise Unsupported("write set of the loop does not stabilise")
    # ---------------------------------------------------------------- 2. candidates and their inductive subset
    survivors = []
    tried = set()
    info = {"loop": eng.prog.line(n), "func": eng.curfn(), "candidates": 0, "kept": 0}
    H0 = None
    # invariants written in the contract that hold on entry are assumed while the body is executed (nested loops then see them);
    # if one of them turns out not to be inductive the round is repeated without it
    assumed = None
    for rnd in range(8):
        with Dry(eng):
            H, hl = havoc(eng, s0, locs, tmpl, it, bound, reuse=H0)
            if H0 is None:
                H0 = hl
            if assumed is None:
                assumed = []
                sub0 = substitution(eng, s0, hl, it, z3.IntVal(0))
                hy0 = s0.conds()
                for f, lab in eng.sidecar_invariants(s0, H, it, hl, n, bound, cont, []):
                    f = B(f)
                    g = z3.simplify(z3.substitute(f, *sub0))
                    if z3.is_true(g) or prove(eng, hy0, g, 1500, lab.startswith("hint")):
                        assumed.append((f, lab))
            have = set(f.get_id() for f, _ in survivors)
            start = survivors + [(f, lab) for f, lab in assumed if f.get_id() not in have]
            for f, lab in start:
                H.pc.append(("q" if has_quant(f) else "f", f))
            Hsave = H.copy()
            base_pc = len(H.pc)
            ex, ends, leave = run_body(eng, H, it, head, body, post)
        for e in ends:
            check_writes(s0, Hsave, e, hl)
        cands = propose(eng, s0, Hsave, it, hl, ends, base_pc, n, kind, head, bound, cont, cnt0)
        kept_ids = set(f.get_id() for f, _ in start)
        cands = start + [(f, lab) for f, lab in cands if f.get_id() not in kept_ids]
        info["candidates"] = max(info["candidates"], len(cands))
        res = houdini(eng, s0, Hsave, it, hl, ends, cands, bound, base_pc)
        got = set(f.get_id() for f, _ in res)
        lost = [f for f, _ in start if f.get_id() not in got]
        if lost:
            # the round was executed under an assumption that does not hold: nothing of it is kept
            if eng.verbose > 1:
                print("   not inductive under its own assumption:", [lab for f, lab in start if f.get_id() not in got])
            gone = set(f.get_id() for f in lost)
            assumed = [(f, lab) for f, lab in assumed if f.get_id() not in gone]
            survivors = [(f, lab) for f, lab in survivors if f.get_id() not in gone]
            continue
        grown = len(res) > len(start)
        survivors = res
        if not grown or rnd >= 1:
            break
    else:
        survivors = []
    info["kept"] = len(survivors)
    info["kept_labels"] = [lab for _, lab in survivors]
    info["seconds"] = round(time.time() - t_start, 2)
    if not eng.dry:
        eng.loop_log.append(info)
    # ---------------------------------------------------------------- 3. arbitrary iteration with the invariant
    H, hl = havoc(eng, s0, locs, tmpl, it, bound, reuse=H0)
    for f, lab in survivors:
        H.pc.append(("q" if has_quant(f) else "f", f))
    hist_used = [p for p in eng.hist_pending if p[2].eq(it)]
    out = []
    if kind == "range":
        # leaves exactly when the index reaches the length
        E, el = havoc(eng, s0, locs, tmpl, bound, None, reuse=None)
        sub_ = [(it, bound)] + [(a.h, b.h) for a, b in zip(hl, el) if a.h is not None]
        for a, b in zip(hl, el):
            if a.kind == "ptr" and a.h is not None:
                sub_ += [(x[1], y[1]) for x, y in zip(a.tmpl.lv.path, b.tmpl.lv.path) if x[0] == "i"]
        for f, lab in survivors:
            g = z3.substitute(f, *sub_)
            E.pc.append(("q" if has_quant(g) else "f", g))
        for h, x0, _, k, lst in hist_used:
            h2 = tuple(z3.substitute(x, *sub_) for x in h)
            eng.keep_hist(h2, x0, [(vs, And(k < bound, c), val) for vs, c, val in lst])
        eng.assume(H, it < bound)
        ex, ends, leave = run_body(eng, H, it, head, body, post)
        out.append((E, None))
    else:
        ex, ends, leave = run_body(eng, H, it, head, body, post)
        out.extend((e, None) for e in ex)
        for h, x0, _, k, lst in hist_used:
            eng.keep_hist(h, x0, lst)
    outs = list(out) + leave
    # paths that leave the loop in the same way are joined
    live = [(a, None) for a, fl in outs if fl is None]
    rest = [(a, fl) for a, fl in outs if fl is not None]
    return live + rest


def has_quant(f):
    st, seen = [f], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        if z3.is_app(x):
            st.extend(x.children())
    return False


def step_eq(a, b):
    if a[0] != b[0]:
        return False
    if a[0] in ("i", "m"):
        return a[1].eq(b[1])
    if a[0] == "cf":
        return [x[1] for x in a[1]] == [x[1] for x in b[1]]
    return a == b


def same_shape(a, b):
    return a.root == b.root and len(a.path) == len(b.path) and all(x[0] == y[0] for x, y in zip(a.path, b.path))


def havoc(eng, s0, locs, tmpl, it, bound, reuse=None):
    s = s0.copy()
    out = []
    if bound is not None and z3.is_const(it) and not z3.is_int_value(it):
        s.pc.append(("f", z3.And(it >= 0, it <= bound)))
    elif z3.is_const(it) and not z3.is_int_value(it):
        s.pc.append(("f", it >= 0))
    flat = []
    for r, pre, d in locs:
        if isinstance(s0.store[r], Agg):
            flat.extend((r, sub, p2, d if p2 or len(pre) == len(sub) else 0) for sub, p2 in split_agg(s0.store, r, pre))
        else:
            flat.append((r, (), pre, d))
    for q, (r, sub, pre, d) in enumerate(flat):
        l = Loc()
        l.root, l.pre, l.depth, l.name, l.sub = r, pre, d, r + "".join("." + x for x in sub), sub
        cur = cell(s0.store, r, sub)
        l.h = l.x0 = None
        l.kind = "term"
        want = reuse[q].h if reuse is not None and q < len(reuse) else None
        if isinstance(cur, P) or (r in tmpl and not isinstance(cur, Z)):
            t = tmpl.get(r)
            l.kind = "ptr"
            if t is None:
                l.ct = None
                setcell(s.store, r, sub, cur)
            else:
                if want is not None:
                    setcell(s.store, r, sub, reuse[q].tmpl)
                    l.tmpl, l.h = reuse[q].tmpl, want
                else:
                    path = tuple((x[0], eng.fint("pi")) if x[0] == "i" else x for x in t.path)
                    hb = eng.fbool("ph")
                    v = P(hb, LV(t.root, path), cur.ct if isinstance(cur, P) else None)
                    setcell(s.store, r, sub, v)
                    l.tmpl, l.h = v, hb
                l.ct = eng.T.BOOL
                l.x0 = B(cur.has)
            s.writes.append((r, tuple(("f", x) for x in sub) + tuple(pre)))
            out.append(l)
            continue
        if isinstance(cur, It):
            l.kind = "iter"
            l.h = want if want is not None else eng.fint("ix")
            l.x0 = cur.idx
            l.ct = eng.T.INT
            setcell(s.store, r, sub, It(cur.lv, l.h, cur.ct))
            s.writes.append((r, tuple(("f", x) for x in sub) + tuple(pre)))
            out.append(l)
            continue
        if not isinstance(cur, Z):
            raise Unsupported("loop writes %r" % (cur,))
        t0, ct = eng.L.get(cur.t, cur.ct, pre)
        l.ct, l.x0 = ct, t0
        if want is not None:
            t = want
        else:
            t = eng.fresh(ct, "h_" + re.sub(r"\W", "_", r.split("#")[0]))
        l.h = t
        if d >= 1 and ct.kind == "vec":
            s.pc.append(("f", eng.L.vlen(ct, t) == eng.L.vlen(ct, t0)))
            if d >= 2 and ct.elem.kind == "vec":
                i = z3.Int("i!shape")
                s.pc.append(("q", FA([i], eng.L.vlen(ct.elem, eng.L.vat(ct, t, i)) == eng.L.vlen(ct.elem, eng.L.vat(ct, t0, i)), patterns=[eng.L.vat(ct, t, i)])))
        elif d == -1 and ct.kind == "map":
            # only mapped values are written: the key structure is unchanged
            for j in (0, 2, 3, 4):
                s.pc.append(("f", eng.L.acc(ct, 0, j, t) == eng.L.acc(ct, 0, j, t0)))
        eng.typing(s, t, ct)
        curs = cell(s.store, r, sub)
        setcell(s.store, r, sub, Z(eng.L.put(curs.t, curs.ct, pre, t, guard=True), curs.ct))
        s.writes.append((r, tuple(("f", x) for x in sub) + tuple(pre)))
        out.append(l)
    return s, out


def loc_val(eng, st, l):
    """current term of location l in state st"""
    v = cell(st.store, l.root, l.sub)
    if l.kind == "ptr":
        return B(v.has)
    if l.kind == "iter":
        return v.idx
    t, ct = eng.L.get(v.t, v.ct, l.pre)
    return t


def ptr_subst(eng, st, l):
    """pairs (fresh index of the pointer template, index in st)"""
    v = cell(st.store, l.root, l.sub)
    out = []
    if l.kind == "ptr" and l.h is not None and v.lv is not None:
        for a, b in zip(l.tmpl.lv.path, v.lv.path):
            if a[0] == "i":
                out.append((a[1], b[1]))
    return out


def substitution(eng, st, hl, it, itv):
    sub_ = [(it, itv)]
    for l in hl:
        if l.h is not None:
            sub_.append((l.h, loc_val(eng, st, l)))
            sub_.extend(ptr_subst(eng, st, l))
    return sub_


def prove(eng, hyps, goal, ms, hint=False):
    t0 = time.time()
    if not has_quant(goal):
        # most such goals follow from the facts without quantifiers; a failing one is not worth a long search
        s = z3.Solver()
        for h in hyps:
            if not has_quant(h):
                s.add(h)
        s.add(Not(goal))
        if limited(s, ms) == z3.unsat:
            eng.solver_s += time.time() - t0
            return True
        ms = min(ms, 800)
    for mb in ((False, True) if hint else (False,)):
        s = z3.Solver()
        s.set("mbqi", mb)
        for h in hyps:
            s.add(h)
        s.add(Not(goal))
        r = limited(s, ms)
        if r != z3.unknown:
            break
    if hint and r == z3.unknown and oldz3(list(hyps) + [Not(goal)], 2, secs=3):
        r = z3.unsat
    eng.solver_s += time.time() - t0
    if eng.deadline and time.time() > eng.deadline:
        raise Unsupported("time budget of the symbolic execution exhausted")
    return r == z3.unsat


def houdini(eng, s0, H, it, hl, ends, cands, bound, base_pc):
    # entry
    live = []
    sub0 = substitution(eng, s0, hl, it, z3.IntVal(0))
    hy0 = s0.conds()
    for f, lab in cands:
        g = z3.simplify(z3.substitute(f, *sub0))
        if z3.is_true(g) or prove(eng, hy0, g, 1500, lab.startswith("hint")):
            live.append((f, lab))
        elif eng.verbose > 1:
            print("   drop at entry", lab)
    # preservation
    subs = [substitution(eng, e, hl, it, it + 1) for e in ends]
    changed = True
    while changed:
        changed = False
        nxt = []
        for f, lab in live:
            ok = True
            for e, sb in zip(ends, subs):
                g = z3.simplify(z3.substitute(f, *sb))
                if z3.is_true(g):
                    continue
                # survivors are assumed at the head
                hy = [x for x, _ in live] + e.conds()
                if not prove(eng, hy, g, 3000, lab.startswith("hint")):
                    ok = False
                    break
            if ok:
                nxt.append((f, lab))
            else:
                changed = True
                if eng.verbose > 1:
                    print("   drop not inductive", lab)
        live = nxt
    return live


def propose(eng, s0, H, it, hl, ends, base_pc, n, kind, head, bound, cont, cnt0):
    L, T = eng.L, eng.T
    C = []

    def add_(f, lab):
        f = B(f)
        if not (z3.is_true(f)):
            C.append((f, lab))
    if eng.sidecar_only:
        for c, lab in eng.sidecar_invariants(s0, H, it, hl, n, bound, cont, ends):
            add_(c, lab)
        if C:
            return C
    mod = [l.h for l in hl if l.h is not None]
    modids = set(x.get_id() for x in mod)
    for l in hl:
        if l.kind == "ptr" and l.h is not None:
            for a in l.tmpl.lv.path:
                if a[0] == "i":
                    modids.add(a[1].get_id())

    def invariant_term(t):
        """mentions nothing the loop changes and nothing created inside the body (except the index)"""
        for c in consts_of(t):
            if c.eq(it):
                continue
            if c.get_id() in modids or fresh_no(c) > cnt0:
                return False
        return True
    ints = []
    for l in hl:
        # a variable that every iteration leaves as it was, or steps by one
        if l.h is not None and l.kind == "term" and l.ct.kind == "int":
            l.mode = None
            vs = [z3.simplify(loc_val(eng, e, l)) for e in ends]
            if vs and all(v.eq(l.h) or v.eq(z3.simplify(l.x0)) for v in vs):
                l.mode = "same"
            elif vs and all(z3.is_int_value(z3.simplify(v - l.h)) and z3.simplify(v - l.h).as_long() == 1 for v in vs):
                l.mode = "step"
    for l in hl:
        if l.h is None:
            continue
        k = l.ct.kind
        x, x0 = l.h, l.x0
        nm = l.name
        if k in ("int", "enum") or l.kind == "iter":
            add_(x == x0, nm + " unchanged")
            if k == "int" or l.kind == "iter":
                add_(x == x0 + it, nm + " = start + iterations")
                add_(x == x0 - it, nm + " = start - iterations")
                add_(x >= x0, nm + " >= start")
                add_(x <= x0, nm + " <= start")
                add_(x <= x0 + it, nm + " <= start + iterations")
                ints.append(l)
                if l.kind == "iter":
                    itv = cell(H.store, l.root, l.sub)
                    try:
                        ln = eng.container_len(H, itv.lv)
                        add_(x <= ln, nm + " iterator within the container")
                        add_(x >= 0, nm + " iterator not before begin")
                    except Unsupported:
                        pass
        elif k == "bool":
            add_(x == x0, nm + " unchanged")
            add_(Or(Not(x0), x), nm + " stays true")
            add_(Or(Not(x), x0), nm + " stays false")
            if l.kind == "ptr":
                ptr_history(eng, add_, s0, l, it, hl, ends, base_pc, invariant_term)
            else:
                bool_history(eng, add_, l, it, hl, ends, base_pc, invariant_term)
        elif k == "vec":
            ln, ln0 = L.vlen(l.ct, x), L.vlen(l.ct, x0)
            if l.depth < 1:
                add_(ln == ln0, nm + " same length")
                add_(ln == ln0 + it, nm + " one element appended per iteration")
                add_(ln >= ln0, nm + " length grows")
                add_(ln <= ln0 + it, nm + " at most one element appended per iteration")
                i = z3.Int("i!c")
                add_(FA([i], z3.Implies(z3.And(0 <= i, i < ln0), L.vat(l.ct, x, i) == L.vat(l.ct, x0, i)), patterns=[L.vat(l.ct, x, i)]), nm + " old elements kept")
                append_summary(eng, add_, l, it, hl, ends, base_pc, cnt0, invariant_term)
            map_summary(eng, add_, s0, H, l, it, hl, ends, base_pc, cnt0, modids)
        elif k in ("opt", "rec", "str", "real", "var", "tup"):
            add_(x == x0, nm + " unchanged")
            if k == "opt":
                add_(Implies(L.is_some(l.ct, x0), L.is_some(l.ct, x)), nm + " stays set")
                opt_history(eng, add_, l, it, hl, ends, base_pc, invariant_term)
        elif k in ("set", "map"):
            p, p0 = eng.sm_parts(Z(x, l.ct)), eng.sm_parts(Z(x0, l.ct))
            kk = z3.Const("k!c", p["mem"].sort().domain())
            add_(FA([kk], z3.Implies(Select(p0["mem"], kk), Select(p["mem"], kk)), patterns=[Select(p["mem"], kk)]), nm + " members kept")
            add_(FA([kk], z3.Implies(Select(p["mem"], kk), Select(p0["mem"], kk)), patterns=[Select(p["mem"], kk)]), nm + " no new members")
            add_(p["n"] <= p0["n"] + it, nm + " at most one member added per iteration")
            add_(p["n"] == p0["n"], nm + " same size")
            if k == "map":
                add_(FA([kk], z3.Implies(Select(p0["mem"], kk), Select(p["val"], kk) == Select(p0["val"], kk)), patterns=[Select(p["val"], kk)]), nm + " mapped values kept")
            set_summary(eng, add_, l, it, ends, base_pc, cnt0, invariant_term, hl)
    # bounds taken from the loop condition
    if kind != "range":
        with Dry(eng):
            try:
                hs = H.copy()
                for s1, c in head(hs, it):
                    for a, b in comparisons(c):
                        if not newer(a, eng.cnt):
                            add_(a <= b, "bound of the loop condition")
            except Unsupported:
                pass
    # normal continuation history: what was established in every completed iteration
    conts = []
    for e in ends:
        cs = [c for t, c in e.pc[base_pc:] if t == "b"]
        conts.append(And(*cs))
    if ends:
        N = Or(*conts)
        N2 = rewrite_elements(eng, N, hl, it)
        if invariant_term(N2) and any(c.eq(it) for c in consts_of(N2)):
            k = z3.Int("k!hist")
            add_(FA([k], z3.Implies(z3.And(0 <= k, k < it), z3.substitute(N2, (it, k)))), "every completed iteration passed its branch conditions")
    # sidecar
    for c, lab in eng.sidecar_invariants(s0, H, it, hl, n, bound, cont, ends):
        add_(c, lab)
    return C


def Implies(a, b):
    return Or(Not(a), b)


def comparisons(c):
    out, st, seen = [], [c], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if z3.is_lt(x):
                out.append((x.arg(0), x.arg(1)))
            elif z3.is_gt(x):
                out.append((x.arg(1), x.arg(0)))
            elif z3.is_not(x):
                y = x.arg(0)
                if z3.is_eq(y) and z3.is_int(y.arg(0)):
                    out.append((y.arg(0), y.arg(1)))
                    out.append((y.arg(1), y.arg(0)))
                if z3.is_le(y):
                    out.append((y.arg(1), y.arg(0)))
                if z3.is_ge(y):
                    out.append((y.arg(0), y.arg(1)))
                continue
            if z3.is_bool(x):
                st.extend(x.children())
    return out


def rewrite_elements(eng, t, hl, it):
    """under 'elements from the current index on are unchanged', reads of the current element are reads of the original container;
    counters that start at c and step by one are c + iterations"""
    subs = []
    for l in hl:
        if l.h is None:
            continue
        if l.ct.kind == "vec":
            subs.append((Select(eng.L.vdata(l.ct, l.h), it), Select(eng.L.vdata(l.ct, l.x0), it)))
            subs.append((eng.L.vlen(l.ct, l.h), eng.L.vlen(l.ct, l.x0)))
        elif l.ct.kind == "int":
            m = getattr(l, "mode", "step")
            if m:
                subs.append((l.h, l.x0 if m == "same" else add(l.x0, it)))
    for a, b in subs:
        t = z3.substitute(t, (a, b))
    if z3.is_expr(t):
        # x0 + it may have produced (0 + it)
        t = z3.simplify(t) if False else t
    return t


def path_conj(eng, e, base_pc, cnt0, keep, allow):
    out = []
    for tag, c in e.pc[base_pc:]:
        ok = True
        for x in consts_of(c):
            if fresh_no(x) > cnt0 and x.get_id() not in allow:
                ok = False
                break
        if ok:
            out.append(c)
    return out


def write_indices(e, l, base):
    """first index below the location's prefix for every write of this path"""
    out = []
    for r, p in e.writes:
        if r != l.root or len(p) <= len(l.pre):
            continue
        if all(step_eq(a, b) for a, b in zip(p, l.pre)) and p[len(l.pre)][0] == "i":
            out.append(p[len(l.pre)][1])
    return out


def map_summary(eng, add_, s0, H, l, it, hl, ends, base_pc, cnt0, modids):
    """pointwise update: iteration k only touches element k, whose new value is a function of the old one"""
    L = eng.L
    if l.depth == 0:
        pass
    i = z3.Int("i!m")
    x, x0 = l.h, l.x0
    at, at0 = (lambda k: L.vat(l.ct, x, k)), (lambda k: L.vat(l.ct, x0, k))
    # which counter indexes the writes
    idxs = []
    for e in ends:
        for t in write_indices(e, l, base_pc):
            if not any(t.eq(o) for o in idxs):
                idxs.append(t)
    idxs = [t for t in idxs if not (z3.is_int_value(t))]
    if len(idxs) == 0:
        return
    for idx in idxs[:3]:
        start = None
        if idx.eq(it):
            start = z3.IntVal(0)
        for q in hl:
            if q.h is not None and q.ct.kind == "int" and idx.eq(q.h):
                start = q.x0
            if q.kind == "iter" and q.h is not None and idx.eq(q.h):
                start = q.x0
        if start is None:
            continue
        fin = add(start, it)
        add_(FA([i], z3.Implies(z3.Or(i < start, i >= fin), at(i) == at0(i)), patterns=[at(i)]), l.name + " elements not reached yet are unchanged")
        # value relation
        disj = []
        hv = x
        for e in ends:
            ev = loc_val(eng, e, l)
            newv = rnorm(L.vat(l.ct, ev, idx))
            fresh_elem = z3.is_const(newv) and newv.decl().kind() == z3.Z3_OP_UNINTERPRETED
            allow = set([it.get_id(), idx.get_id()] + [q.h.get_id() for q in hl if q.h is not None])
            allowed = set(allow)
            el = at(idx)
            MARK = z3.Const("mark!!", newv.sort())
            conj = []
            # the new element (or its data array) may itself be an unknown constrained by facts of the path
            newids = set()
            for c in consts_of(newv):
                if fresh_no(c) > cnt0:
                    newids.add(c.get_id())
            subst_new = []
            if newids:
                subst_new = fresh_parts(eng, l.ct.elem, newv, MARK, cnt0)
                covered = set()
                for a, b in subst_new:
                    for c in consts_of(a):
                        covered.add(c.get_id())
                newids &= covered
            for tag, c in e.pc[base_pc:]:
                cs = consts_of(c)
                if all(fresh_no(y) <= cnt0 or y.get_id() in allowed or y.get_id() in newids for y in cs):
                    c = rnorm(c)
                    conj.append(z3.substitute(c, *subst_new) if subst_new else c)
            val = z3.substitute(newv, *subst_new) if subst_new else newv
            if all(fresh_no(y) <= cnt0 or y.get_id() in allowed or y.decl().name() == "mark!!" for y in consts_of(val)):
                conj.append(MARK == val if not MARK.eq(val) else z3.BoolVal(True))
            disj.append(And(*conj))
        if not disj:
            continue
        G = Or(*disj)
        # reads of the element before the iteration are reads of the original container
        G = z3.substitute(G, (Select(L.vdata(l.ct, x), idx), at0(idx)))
        G = z3.substitute(G, (L.vlen(l.ct, x), L.vlen(l.ct, x0)))
        for q in hl:
            if q is l or q.h is None:
                continue
            if q.h.eq(idx):
                continue
            if q.ct.kind == "int":
                G = z3.substitute(G, (q.h, add(q.x0, add(idx, sub(z3.IntVal(0), start)) if not idx.eq(it) else it)))
        G = z3.substitute(G, (z3.Const("mark!!", at(i).sort()), at(i)), (idx, i))
        if any(fresh_no(y) > cnt0 and not y.eq(x) for y in consts_of(G)):
            bad = [y for y in consts_of(G) if fresh_no(y) > cnt0 and not y.eq(x)]
            if not (len(bad) == 1 and bad[0].eq(it) and not idx.eq(it)):
                continue
            G = z3.substitute(G, (it, i - start))
        add_(FA([i], z3.Implies(z3.And(i >= start, i < fin), G), patterns=[at(i)]), l.name + " every visited element was updated as the body does")


def fresh_parts(eng, ct, newv, MARK, cnt0):
    """newv built from unknowns: map those unknowns to projections of MARK"""
    L = eng.L
    out = []

    def go(ct, t, m, depth=0):
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if fresh_no(t) > cnt0:
                out.append((t, m))
            return
        if depth > 4:
            return
        if ct is None:
            return
        if ct.kind == "vec" and z3.is_app(t) and t.decl().eq(ct.con[0]):
            d = t.arg(0)
            if z3.is_const(d) and fresh_no(d) > cnt0:
                out.append((d, L.vdata(ct, m)))
            ln = t.arg(1)
            if z3.is_const(ln) and fresh_no(ln) > cnt0:
                out.append((ln, L.vlen(ct, m)))
        elif ct.kind == "rec" and z3.is_app(t) and t.decl().eq(ct.con[0]):
            for j, (nme, fct) in enumerate(eng.T.fields(ct)):
                go(fct, t.arg(j), ct.acc[0][j](m), depth + 1)
        elif ct.kind == "opt" and z3.is_app(t) and t.decl().eq(ct.con[1]):
            go(ct.elem, t.arg(0), ct.acc[1][0](m), depth + 1)
    go(ct, newv, MARK)
    return out


def append_summary(eng, add_, l, it, hl, ends, base_pc, cnt0, invariant_term):
    """one element appended per iteration, element k a function of k"""
    L = eng.L
    i = z3.Int("i!a")
    x, x0 = l.h, l.x0
    ln0 = L.vlen(l.ct, x0)
    disj = []
    for e in ends:
        ev = loc_val(eng, e, l)
        d = L.vdata(l.ct, ev)
        if not (z3.is_app_of(d, z3.Z3_OP_STORE)):
            return
        val = d.arg(2)
        conj = [c for t, c in e.pc[base_pc:] if t == "b"]
        MARK = z3.Const("mark!!", val.sort())
        disj.append(And(*(conj + [MARK == val])))
    if not disj:
        return
    G = rewrite_elements(eng, Or(*disj), [q for q in hl if q is not l], it)
    if any(fresh_no(y) > cnt0 and not y.eq(it) for y in consts_of(G) if y.decl().name() != "mark!!"):
        return
    el = L.vat(l.ct, x, add(ln0, i))
    G = z3.substitute(G, (z3.Const("mark!!", el.sort()), el), (it, i))
    pats = [el] if not z3.is_int_value(ln0) or True else []
    add_(FA([i], z3.Implies(z3.And(0 <= i, i < it), G), patterns=[el]), l.name + " element k was appended by iteration k")


def _conds(eng, e, base_pc):
    return [c for t, c in e.pc[base_pc:] if t == "b"]


def set_summary(eng, add_, l, it, ends, base_pc, cnt0, invariant_term, hl):
    """keys added by iteration k"""
    k = z3.Int("k!s")
    p, p0 = eng.sm_parts(Z(l.h, l.ct)), eng.sm_parts(Z(l.x0, l.ct))
    K = p["mem"].sort().domain()
    kk = z3.Const("kk!s", K)
    adds = []
    for e in ends:
        ev = loc_val(eng, e, l)
        m = eng.sm_parts(Z(ev, l.ct))["mem"]
        conj = And(*_conds(eng, e, base_pc))
        while z3.is_app_of(m, z3.Z3_OP_STORE):
            if z3.is_true(m.arg(2)):
                adds.append((conj, m.arg(1)))
            m = m.arg(0)
    adds = [(rewrite_elements(eng, c, hl, it), rewrite_elements(eng, key, hl, it)) for c, key in adds]
    good = [(c, key) for c, key in adds if invariant_term(c) and invariant_term(key)]
    for c, key in good[:4]:
        cc, kv = z3.substitute(c, (it, k)), z3.substitute(key, (it, k))
        add_(FA([k], z3.Implies(z3.And(0 <= k, k < it, cc), Select(p["mem"], kv))), l.name + " contains what earlier iterations inserted")
    if good and len(good) == len(adds):
        ex = z3.Exists([k], z3.And(0 <= k, k < it, Or(*[And(z3.substitute(c, (it, k)), z3.substitute(key, (it, k)) == kk) for c, key in good])))
        add_(FA([kk], z3.Implies(And(Select(p["mem"], kk), Not(Select(p0["mem"], kk))), ex), patterns=[Select(p["mem"], kk)]), l.name + " contains nothing else")


# histories: when does an iteration set the location, and to what.  eng.hist remembers, for the unknown that stands for a location after
# an inner loop, (what it was before, variables, condition over those variables, value over those variables): the outer loop lifts it.
def history(eng, l, it, hl, ends, base_pc, value_of, start, invariant_term):
    """-> list of (bound variables, condition, value) in which an iteration assigns, or None.  value is a tuple of terms."""
    out = []
    flat = []
    for e in ends:
        v = value_of(e)
        if v is None:
            return None
        flat.extend(split_ite(And(*_conds(eng, e, base_pc)), v))
        if len(flat) > 24:
            return None
    for conj, v in flat:
        if all(a.eq(b) for a, b in zip(v, start)):
            continue
        h = eng.hist.get(v[0].get_id())
        if h is not None and all(a.eq(b) for a, b in zip(h[1], start)):
            for vs, c, val in h[2]:
                ren = [z3.Int("k!h%d" % (eng_next(eng))) for _ in vs]
                sb = list(zip(vs, ren))
                out.append((ren, And(conj, z3.substitute(c, *sb) if sb else c), tuple(z3.substitute(x, *sb) if sb else x for x in val)))
        else:
            out.append(([], conj, v))
    res = []
    for vs, c, val in out:
        c = rewrite_elements(eng, c, hl, it)
        val = tuple(rewrite_elements(eng, x, hl, it) for x in val)
        # a condition on the old value of the location itself (e.g. "not found yet") is dropped from the value side only
        if not (invariant_term(c) and all(invariant_term(x) for x in val)):
            return None
        res.append((vs, c, val))
    return res


def split_ite(conj, v, depth=0):
    """joined paths: one (condition, value) per case"""
    for x in v:
        if z3.is_app_of(x, z3.Z3_OP_ITE) and depth < 5:
            c = x.arg(0)
            pick = lambda side: tuple(y.arg(side) if z3.is_app_of(y, z3.Z3_OP_ITE) and y.arg(0).eq(c) else y for y in v)
            return split_ite(And(conj, c), pick(1), depth + 1) + split_ite(And(conj, Not(c)), pick(2), depth + 1)
    return [(conj, v)]


def eng_next(eng):
    eng.hcnt = getattr(eng, "hcnt", 0) + 1
    return eng.hcnt


def history_facts(eng, l, it, hist, h, x0, isset, isset0, nm, add_):
    k = z3.Int("k!b")
    sb = (it, k)
    rel = []
    for vs, c, val in hist:
        cc = z3.substitute(c, sb)
        add_(FA([k] + vs, z3.Implies(And(0 <= k, k < it, cc, *[v >= 0 for v in vs], B(isset(tuple(z3.substitute(x, sb) for x in val)))), isset(h))), nm + " is set once an iteration set it")
        rel.append(And(cc, *([v >= 0 for v in vs] + [a == z3.substitute(b, sb) for a, b in zip(h, val)])))
    allv = []
    for vs, _, _ in hist:
        allv += [v for v in vs]
    ex = z3.Exists([k] + allv, z3.And(0 <= k, k < it, Or(*rel)))
    same0 = And(*[a == b for a, b in zip(h, x0)]) if x0 is not None else Not(isset(h))
    add_(Or(same0, ex), nm + " holds its start value or one assigned by an iteration")
    eng.hist_pending.append((h, x0, it, k, [([k] + vs, z3.substitute(c, sb), tuple(z3.substitute(x, sb) for x in val)) for vs, c, val in hist]))


def bool_history(eng, add_, l, it, hl, ends, base_pc, invariant_term):
    def value_of(e):
        v = loc_val(eng, e, l)
        w = z3.simplify(z3.substitute(v, (l.h, z3.BoolVal(False)))) if not v.eq(l.h) and v.get_id() not in eng.hist else v
        return (w if z3.is_true(w) or v.get_id() in eng.hist or v.eq(l.h) else v,)
    hist = history(eng, l, it, hl, ends, base_pc, value_of, (l.h,), invariant_term)
    if hist:
        history_facts(eng, l, it, hist, (l.h,), (l.x0,), lambda v: v[0], None, l.name, add_)
        return
    k = z3.Int("k!b")
    setc = []
    for e in ends:
        v = loc_val(eng, e, l)
        conj = _conds(eng, e, base_pc)
        if v.eq(l.h):
            continue
        w = z3.substitute(v, (l.h, z3.BoolVal(False)))
        setc.append(And(*(conj + [w])))
    if not setc:
        return
    D = rewrite_elements(eng, z3.simplify(Or(*setc)), [q for q in hl if q is not l], it)
    if not invariant_term(D):
        D2 = z3.substitute(D, (l.h, z3.BoolVal(False)))
        if not invariant_term(D2):
            return
        D = D2
    Dk = z3.substitute(D, (it, k))
    add_(FA([k], z3.Implies(z3.And(0 <= k, k < it, Dk), l.h)), l.name + " is set once an iteration set it")
    add_(Implies(l.h, Or(l.x0, z3.Exists([k], z3.And(0 <= k, k < it, Dk)))), l.name + " is only set by an iteration")


def opt_history(eng, add_, l, it, hl, ends, base_pc, invariant_term):
    hist = history(eng, l, it, hl, ends, base_pc, lambda e: (loc_val(eng, e, l),), (l.h,), invariant_term)
    if hist:
        history_facts(eng, l, it, hist, (l.h,), (l.x0,), lambda v: eng.L.is_some(l.ct, v[0]), None, l.name, add_)


def ptr_history(eng, add_, s0, l, it, hl, ends, base_pc, invariant_term):
    def idx(v):
        return tuple(x[1] for x in v.lv.path if x[0] == "i")

    def value_of(e):
        v = cell(e.store, l.root, l.sub)
        if v.lv is None:
            return None if z3.is_true(B(v.has)) else (B(v.has),) + idx(l.tmpl)
        return (B(v.has),) + idx(v)
    start = (l.h,) + idx(l.tmpl)
    hist = history(eng, l, it, hl, ends, base_pc, value_of, start, invariant_term)
    if hist:
        v0 = cell(s0.store, l.root, l.sub)
        x0 = (B(v0.has),) + idx(v0) if v0.lv is not None else None
        history_facts(eng, l, it, hist, start, x0, lambda v: v[0], None, l.name, add_)
