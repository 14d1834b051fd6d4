"""C18: boundary rotations are injected exactly when a needed operator is hidden."""
from _common import *
from c15_translate import MAXW, SQ
C = []
P = ("C18",)
SRC = "lsqecc::LSInstructionStream::"
PO = "lsqecc::PauliOperator"


def shown(cx, e, op):
    return Or(And(op == en(cx, PO, "X"), e.x_exposed), And(op == en(cx, PO, "Z"), e.z_exposed))


C.append(Contract("lsqecc::RotatableSingleQubitPatchExposedOperators::is_exposed", P, inline=True, ensures=lambda cx: [("X and Z as recorded, nothing else", cx.ret == shown(cx, cx.this, cx.a(0)))]))
C.append(Contract("lsqecc::RotatableSingleQubitPatchExposedOperators::rotate", P, inline=True, modifies=[("this",)],
                  ensures=lambda cx: [("both flipped", And(cx.this2.x_exposed == Not(cx.this.x_exposed), cx.this2.z_exposed == Not(cx.this.z_exposed)))]))


def toggled(e2, e, c):
    return And(e2.x_exposed == z3.Xor(e.x_exposed, c), e2.z_exposed == z3.Xor(e.z_exposed, c))


def model(cx):
    s = cx.this
    exp = s.exposed_operators_
    ins = abstract(s.source_.VAL, SRC + "get_next_instruction", "lsqecc::LSInstruction")
    hid = lambda p, o: And(exp.IN(p), Not(shown(cx, exp[p], o)))
    m, b, q = ins.operation.AS("MultiPatchMeasurement"), ins.operation.AS("BellBasedCNOT"), ins.operation.AS("SingleQubitOp")
    isM, isB, isQ = ins.operation.IS("MultiPatchMeasurement"), ins.operation.IS("BellBasedCNOT"), ins.operation.IS("SingleQubitOp")
    X, Z = en(cx, PO, "X"), en(cx, PO, "Z")
    needs = lambda p: Or(And(isM, m.observable.IN(p), hid(p, m.observable[p])), And(isB, Or(And(p == b.control, hid(p, Z)), And(p == b.target, hid(p, X)))),
                         And(isQ, q.op == en(cx, SQ, "S"), p == q.target, hid(p, Z)))
    turns = lambda p: Or(needs(p), And(isQ, q.op == en(cx, SQ, "H"), p == q.target, exp.IN(p)))
    return dict(exp=exp, ins=ins, needs=needs, turns=turns, m=m, b=b, isM=isM, isB=isB, hid=hid)


MARK = z3.Function("asked", z3.IntSort(), z3.IntSort())      # only a trigger: constantly 0


def mark_axiom(cx):
    p = z3.Int("p!mk")
    return [z3.ForAll([p], MARK(p) == 0, patterns=[MARK(p)])]


def rotation(x):
    k = z3.Int("k!rc")
    return And(x.operation.IS("RotateSingleCellPatch"), x.wait_at_most_for == MAXW, FA([k], Not(x.clients.IN(k)), patterns=[x.clients.IN(k)]))


def tgt(x):
    return x.operation.AS("RotateSingleCellPatch").target


def ens(cx):
    s, s2, r = cx.this, cx.this2, cx.ret
    q, q2 = s.next_instructions_, s2.next_instructions_
    M = model(cx)
    ins, needs, turns, exp = M["ins"], M["needs"], M["turns"], M["exp"]
    exp2 = s2.exposed_operators_
    i, j, p = z3.Int("i!br"), z3.Int("j!br"), z3.Int("p!br")
    n = q2.LEN
    fresh = And(q.LEN == 0, Implies(M["isB"], M["b"].control != M["b"].target))
    out = [("pending instructions first, in order", Implies(q.LEN > 0, And(r.T == q[0].T, q2.LEN == q.LEN - 1, FA([i], z3.Implies(And(0 <= i, i < q2.LEN), q2[i].T == q[i + 1].T), patterns=[q2[i].T]), exp2.T == exp.T, s2.source_.T == s.source_.T))),
           ("otherwise exactly one instruction is taken", Implies(q.LEN == 0, And(abstract(s.source_.VAL, SRC + "has_next_instruction", "bool"), s2.source_.VAL.T == after(s.source_.VAL, SRC + "get_next_instruction").T, s2.source_.HAS)))]
    last = lambda: And(Implies(n == 0, r.T == ins.T), Implies(n > 0, q2[n - 1].T == ins.T))
    out += [("the instruction itself comes last, unchanged", Implies(fresh, last())),
            ("before it only rotations of patches that need one", Implies(fresh, And(Implies(n > 0, And(rotation(r), needs(tgt(r)))), FA([i], z3.Implies(And(0 <= i, i < n - 1), And(rotation(q2[i]), needs(tgt(q2[i])))), patterns=[q2[i].T])))),
            ("at most one for each", Implies(fresh, And(FA([i], z3.Implies(And(0 <= i, i < n - 1), tgt(q2[i]) != tgt(r)), patterns=[q2[i].T]),
                                                       FA([i, j], z3.Implies(And(0 <= i, i < j, j < n - 1), tgt(q2[i]) != tgt(q2[j])), patterns=[MP(q2[i].T, q2[j].T)])))),
            ("one for each that needs it", Implies(fresh, FA([p], z3.Implies(And(needs(p), MARK(p) == 0), And(n > 0, Or(tgt(r) == p, EX([i], And(0 <= i, i < n - 1, tgt(q2[i]) == p), patterns=[q2[i].T])))), patterns=[MARK(p)]))),
            ("the exposed operators are those after the rotations and Hadamards", Implies(fresh, FA([p], And(exp2.IN(p) == exp.IN(p), Implies(exp.IN(p), toggled(exp2[p], exp[p], turns(p)))), patterns=[exp.IN(p), exp2.IN(p)])))]
    return out


def inv(lp):
    cx = lp.eng.topctx
    M = model(cx)
    exp, needs = M["exp"], M["needs"]
    obs = M["m"].observable
    qs = [l for l in lp.locs if l.h is not None and l.ct.kind == "vec"]
    es = [l for l in lp.locs if l.h is not None and l.ct.kind == "map"]
    if len(qs) != 1 or len(es) != 1:
        return []
    q, e = V(lp.eng, qs[0].h, qs[0].ct), V(lp.eng, es[0].h, es[0].ct)
    if lp.cont is None or lp.eng.lvct(lp.s0, lp.cont).kind != "set":
        return []
    c = cx.wrap(lp.eng.load(lp.s0, lp.cont))
    i, j, p = z3.Int("i!bi"), z3.Int("j!bi"), z3.Int("p!bi")
    done = lambda x: And(c.IN(x), c.POS(x) < lp.it)
    return [(q.LEN >= 0, "length"),
            (FA([i], z3.Implies(And(0 <= i, i < q.LEN), And(rotation(q[i]), needs(tgt(q[i])), done(tgt(q[i])))), patterns=[q[i].T]), "hint rotations of patches that need one, so far"),
            (FA([i, j], z3.Implies(And(0 <= i, i < j, j < q.LEN), tgt(q[i]) != tgt(q[j])), patterns=[MP(q[i].T, q[j].T)]), "hint at most one for each"),
            (FA([p], z3.Implies(And(done(p), needs(p), MARK(p) == 0), EX([i], And(0 <= i, i < q.LEN, tgt(q[i]) == p), patterns=[q[i].T])), patterns=[MARK(p)]), "hint one for each so far"),
            (FA([p], And(e.IN(p) == exp.IN(p), Implies(exp.IN(p), toggled(e[p], exp[p], And(done(p), needs(p))))), patterns=[exp.IN(p), e.IN(p)]), "hint operators so far")]


C.append(Contract("lsqecc::BoundaryRotationInjectionStream::get_next_instruction", P, throws=True, requires=lambda cx: [("a source", cx.this.source_.HAS)],
                  modifies=[("this", "next_instructions_"), ("this", "source_"), ("this", "exposed_operators_")], ensures=ens, loops=[inv], opts={"paths": True, "axioms": mark_axiom}))
C.append(Contract("lsqecc::BoundaryRotationInjectionStream::has_next_instruction", P, requires=lambda cx: [("a source", cx.this.source_.HAS)],
                  ensures=lambda cx: [("as long as something is pending", cx.ret == Or(cx.this.next_instructions_.LEN > 0, abstract(cx.this.source_.VAL, SRC + "has_next_instruction", "bool")))]))
CONTRACTS = C
