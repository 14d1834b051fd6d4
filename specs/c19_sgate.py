"""C19: the expansions of the S gate (teleportation of a Y state; catalytic circuit), everything else unchanged and in order."""
from _common import *
from c15_translate import sqo, meas, joint, frame, claims, cnot_cases, gen_same, ctr_ok, S, MAXW, CT_, AP, CM, SQ
C = []
P = ("C19", "C16")
SRC = "lsqecc::LSInstructionStream::"


def ystate(cx, y, near, bind=True):
    def f(x):
        o = x.operation.AS("YStateRequest")
        return And(x.operation.IS("YStateRequest"), o.target == y, o.near_patch == near, frame(x, (near,) if bind else ()))
    return S(f)


def rotate(cx, t, wait=True):
    def f(x):
        return And(x.operation.IS("RotateSingleCellPatch"), x.operation.AS("RotateSingleCellPatch").target == t, frame(x))
    return S(f)


def same(i):
    return S(lambda x: x.T == i.T)


def expand(cx, cat):
    s, s2, r = cx.this, cx.this2, cx.ret
    q, q2 = s.next_instructions_, s2.next_instructions_
    src, src2 = s.source_.VAL, s2.source_.VAL
    ctr = lambda z: (z.instruction_generator_.id_generator_ if cat else z.id_generator_).counter_
    i = z3.Int("i!sg")
    ins = abstract(src, SRC + "get_next_instruction", "lsqecc::LSInstruction")
    core = abstract(after(src, SRC + "get_next_instruction"), SRC + "core_qubits", "tsl::ordered_set<unsigned int>")
    out = [("pending instructions first, in order", Implies(q.LEN > 0, And(r.T == q[0].T, q2.LEN == q.LEN - 1, FA([i], z3.Implies(And(0 <= i, i < q2.LEN), q2[i].T == q[i + 1].T), patterns=[q2[i].T]), ctr(s2) == ctr(s), s2.source_.T == s.source_.T))),
           ("otherwise exactly one instruction is taken", Implies(q.LEN == 0, And(abstract(src, SRC + "has_next_instruction", "bool"), src2.T == after(src, SRC + "get_next_instruction").T, s2.source_.HAS))),
           ("configuration", And(s2.always_rotate_ == s.always_rotate_, *([gen_same(s.instruction_generator_, s2.instruction_generator_)] if cat else [])))]
    n0 = ctr(s)
    o = ins.operation.AS("SingleQubitOp")
    mine = And(ins.operation.IS("SingleQubitOp"), core.IN(o.target))
    isS, isH = And(mine, o.op == en(cx, SQ, "S")), And(mine, o.op == en(cx, SQ, "H"), s.always_rotate_)
    t, y = o.target, n0
    h, ro = sqo(cx, y, "H"), rotate(cx, y)
    cs = []
    if not cat:
        cs.append(("S", isS, [ystate(cx, y, t), joint(cx, (y, "Z"), (t, "Z")), meas(cx, y, "X"), sqo(cx, t, "Z")], 1))
    else:
        loc = s.instruction_generator_.local_instructions_
        two = [cnot_cases(cx, t, y, en(cx, CT_, "ZX_WITH_MBM_CONTROL_FIRST"), en(cx, AP, "ANCILLA_NEXT_TO_CONTROL"), en(cx, CM, "NEVER"), loc, n) for n in (n0 + 1, n0 + 1)]
        per = {0: 2, 1: 1}
        first = cnot_cases(cx, t, y, en(cx, CT_, "ZX_WITH_MBM_CONTROL_FIRST"), en(cx, AP, "ANCILLA_NEXT_TO_CONTROL"), en(cx, CM, "NEVER"), loc, n0 + 1)
        for j, lab in ((0, "local"), (1, "")):
            ids = per[j]
            g1 = first[j][2]
            g2 = cnot_cases(cx, t, y, en(cx, CT_, "ZX_WITH_MBM_CONTROL_FIRST"), en(cx, AP, "ANCILLA_NEXT_TO_CONTROL"), en(cx, CM, "NEVER"), loc, n0 + 1 + ids)[j][2]
            cs.append(("S " + lab, And(isS, loc if j == 0 else Not(loc)), [ystate(cx, y, t)] + g1 + [h, ro] + g2 + [h, ro, ystate(cx, y, t, False)], 1 + 2 * ids))
    cs.append(("H", isH, [same(ins), rotate(cx, t)], 0))
    cs.append(("anything else", And(Not(isS), Not(isH)), [same(ins)], 0))
    at = lambda k: r if k == 0 else q2[k - 1]
    out += claims([(l, And(q.LEN == 0, c), g, n) for l, c, g, n in cs], q2.LEN + 1, at, ctr(s2), n0, "expansion")
    return out


for cat, cls in ((False, "TeleportedSGateInjectionStream"), (True, "CatalyticSGateInjectionStream")):
    C.append(Contract("lsqecc::%s::get_next_instruction" % cls, P, throws=True,
                      requires=lambda cx, cat=cat: [("a source", cx.this.source_.HAS)] + ctr_ok(cx.this.instruction_generator_ if cat else cx.this, 32),
                      modifies=[("this", "next_instructions_"), ("this", "source_"), ("this", "instruction_generator_" if cat else "id_generator_")],
                      ensures=lambda cx, cat=cat: expand(cx, cat),
                      opts=dict(paths=True, **({"alias": {(cls, "id_generator_"): ["instruction_generator_", "id_generator_"]}} if cat else {}))))
    C.append(Contract("lsqecc::%s::has_next_instruction" % cls, P, requires=lambda cx: [("a source", cx.this.source_.HAS)],
                      ensures=lambda cx: [("as long as something is pending", cx.ret == Or(cx.this.next_instructions_.LEN > 0, abstract(cx.this.source_.VAL, SRC + "has_next_instruction", "bool")))]))
    C.append(Contract("lsqecc::%s::core_qubits" % cls, P, requires=lambda cx: [("a source", cx.this.source_.HAS)],
                      ensures=lambda cx: [("those of the source", cx.ret.T == abstract(cx.this.source_.VAL, SRC + "core_qubits", "tsl::ordered_set<unsigned int>").T)]))
CONTRACTS = C
