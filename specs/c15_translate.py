"""C15/C16: gates become lattice-surgery instructions; auxiliary patches get fresh ids.

An instruction sequence is specified element by element: kind, operands, observable, order; `seqs` lists the instructions of a gadget."""
from _common import *
C = []
P = ("C15", "C16")
MAXW = (1 << 64) - 1
SQ = "lsqecc::SingleQubitOp::Operator"
GT = "lsqecc::gates::BasicSingleQubitGate::Type"
CT_ = "lsqecc::gates::CNOTType"
AP = "lsqecc::gates::CNOTAncillaPlacement"
CM = "lsqecc::CNOTCorrectionMode"
IST = "lsqecc::PatchInit::InitializeableStates"


class S:
    """one instruction of a gadget: what the element x has to be"""

    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        return self.f(x)


def frame(x, clients=()):
    """waits without limit and waits for exactly these patches"""
    k = z3.Int("k!cl")
    c = x.clients
    return And(x.wait_at_most_for == MAXW, FA([k], c.IN(k) == Or(*[k == t for t in clients]) if clients else Not(c.IN(k)), patterns=[c.IN(k)]))


def sqo(cx, target, op, dagger=False):
    def f(x):
        o = x.operation.AS("SingleQubitOp")
        return And(x.operation.IS("SingleQubitOp"), o.target == target, o.op == en(cx, SQ, op), o.is_dagger == dagger, frame(x))
    return S(f)


def meas(cx, target, op):
    def f(x):
        o = x.operation.AS("SinglePatchMeasurement")
        return And(x.operation.IS("SinglePatchMeasurement"), o.target == target, o.observable == po(cx, op), Not(o.is_negative), frame(x))
    return S(f)


def joint(cx, *ops):
    """joint measurement of exactly these patches (which are different)"""
    def f(x):
        o = x.operation.AS("MultiPatchMeasurement")
        m = o.observable
        k = z3.Int("k!jm")
        apart = And(*[a != b for i, (a, _) in enumerate(ops) for b, _ in ops[:i]])
        return And(x.operation.IS("MultiPatchMeasurement"), Not(o.is_negative), Not(o.local_instruction.HAS), frame(x),
                   Implies(apart, And(FA([k], m.IN(k) == Or(*[k == t for t, _ in ops]), patterns=[m.IN(k)]), *[m[t] == po(cx, w) for t, w in ops])))
    return S(f)


def magic(cx, new, near):
    def f(x):
        o = x.operation.AS("MagicStateRequest")
        return And(x.operation.IS("MagicStateRequest"), o.target == new, o.near_patch == near, frame(x, (near,)))
    return S(f)


def reset(cx, t):
    def f(x):
        return And(x.operation.IS("PatchReset"), x.operation.AS("PatchReset").target == t, frame(x))
    return S(f)


def bellcnot(cx, c, t, s1, s2):
    def f(x):
        o = x.operation.AS("BellBasedCNOT")
        return And(x.operation.IS("BellBasedCNOT"), o.control == c, o.target == t, o.side1 == s1, o.side2 == s2, Not(o.route.HAS), Not(o.counter_pairs.HAS),
                   Not(o.local_instruction_sets.HAS), Not(o.current_phase.HAS), frame(x, (c, t)))
    return S(f)


def init_anc(cx, anc, c, t, placement):
    def f(x):
        o = x.operation.AS("PatchInit")
        pn = o.place_next_to
        atc, att = placement == en(cx, AP, "ANCILLA_NEXT_TO_CONTROL"), placement == en(cx, AP, "ANCILLA_NEXT_TO_TARGET")
        return And(x.operation.IS("PatchInit"), o.target == anc, o.state == en(cx, IST, "Plus"), frame(x, (c, t)), pn.HAS == Or(atc, att),
                   Implies(atc, And(pn.VAL.target == c, pn.VAL.op == po(cx, "Z"))), Implies(att, And(pn.VAL.target == t, pn.VAL.op == po(cx, "X"))))
    return S(f)


def cnot_cases(cx, c, t, kind, placement, mode, local, n0):
    """[(condition, gadget, number of fresh ids)] for a CNOT; n0 is the next fresh id"""
    bell = Or(kind == en(cx, CT_, "BELL_BASED"), local)
    alw = mode == en(cx, CM, "ALWAYS")
    out = [("Bell based", And(bell, Not(alw)), [bellcnot(cx, c, t, n0, n0 + 1)], 2)]
    i, zz, xx, m = init_anc(cx, n0, c, t, placement), joint(cx, (c, "Z"), (n0, "Z")), joint(cx, (n0, "X"), (t, "X")), meas(cx, n0, "X")
    for w, a in (("", Not(alw)), (" with corrections", alw)):
        fst, snd = ([i, zz, xx, m], [i, xx, zz, m]) if not w else ([i, zz, sqo(cx, n0, "X"), xx, sqo(cx, c, "Z"), m], [i, xx, sqo(cx, n0, "Z"), zz, sqo(cx, t, "X"), m])
        out.append(("control first" + w, And(Not(bell), kind == en(cx, CT_, "ZX_WITH_MBM_CONTROL_FIRST"), a), fst, 1))
        out.append(("target first" + w, And(Not(bell), kind == en(cx, CT_, "ZX_WITH_MBM_TARGET_FIRST"), a), snd, 1))
    return out


def t_cases(cx, t, local, n0):
    s = sqo(cx, t, "S")
    return [("local", local, [magic(cx, n0, t), bellcnot(cx, t, n0, n0 + 1, n0 + 2), meas(cx, n0, "Z"), s], 3),
            ("", Not(local), [magic(cx, n0, t), joint(cx, (t, "Z"), (n0, "Z")), meas(cx, n0, "X"), s], 1)]


def claims(cases, n, at, ctr, n0, what):
    out = []
    for lab, cond, gad, ids in cases:
        l = (what + " " + lab).strip()
        out.append((l + ": number of instructions, fresh ids", Implies(cond, And(n == len(gad), ctr == n0 + ids))))
        for i, g in enumerate(gad):
            out.append((l + ": instruction %d" % i, Implies(cond, g(at(i)))))
    return out


def ctr_ok(gen, room=8):
    return [("fresh ids left", And(gen.id_generator_.counter_ >= 0, gen.id_generator_.counter_ < (1 << 32) - room))]


def gen_same(a, b):
    return a.local_instructions_ == b.local_instructions_


def cnot(cx):
    g, g2 = cx.this, cx.this2
    cs = cnot_cases(cx, cx.a(0), cx.a(1), cx.a(2), cx.a(3), cx.a(4), g.local_instructions_, g.id_generator_.counter_)
    return claims(cs, cx.ret.LEN, lambda i: cx.ret[i], g2.id_generator_.counter_, g.id_generator_.counter_, "CNOT") + [("generator", gen_same(g, g2)), ("one of these", Or(*[c for _, c, _, _ in cs]))]


def cnot_refused(cx):
    return [("only corrections of a Bell based CNOT are refused", And(cx.a(4) == en(cx, CM, "ALWAYS"), Or(cx.a(2) == en(cx, CT_, "BELL_BASED"), cx.this.local_instructions_)))]


C.append(Contract("lsqecc::LSIinstructionFromGatesGenerator::make_cnot_instructions", P, requires=lambda cx: ctr_ok(cx.this), modifies=[("this",)], throws=True, on_throw=cnot_refused, ensures=cnot))


def tg(cx):
    g, g2 = cx.this, cx.this2
    return claims(t_cases(cx, cx.a(0), g.local_instructions_, g.id_generator_.counter_), cx.ret.LEN, lambda i: cx.ret[i], g2.id_generator_.counter_, g.id_generator_.counter_, "T") + [("generator", gen_same(g, g2))]


C.append(Contract("lsqecc::LSIinstructionFromGatesGenerator::make_t_gate_instructions", P, requires=lambda cx: ctr_ok(cx.this, 16), modifies=[("this",)], throws=False, ensures=tg))


# ---------------------------------------------------------------- the stream
GS = "lsqecc::GateStream::"


def seq_gate(cx, g, gen, mode, n0):
    """[(label, condition, gadget, fresh ids)]: the translation of gate g"""
    b, rz, cg, rs = g.AS("BasicSingleQubitGate"), g.AS("RZ"), g.AS("ControlledGate"), g.AS("Reset")
    out = []
    for n in ("X", "Y", "Z", "H", "S"):
        out.append((n, And(g.IS("BasicSingleQubitGate"), b.gate_type == en(cx, GT, n)), [sqo(cx, b.target_qubit, n)], 0))
    out.append(("SDg", And(g.IS("BasicSingleQubitGate"), b.gate_type == en(cx, GT, "SDg")), [sqo(cx, b.target_qubit, "S", True)], 0))
    isT = And(g.IS("BasicSingleQubitGate"), Or(b.gate_type == en(cx, GT, "T"), b.gate_type == en(cx, GT, "TDg")))
    for lab, c, gad, ids in t_cases(cx, b.target_qubit, gen.local_instructions_, n0):
        out.append(("T " + lab, And(isT, c), gad, ids))
    f = rz.pi_fraction
    q = rz.target_qubit
    one = And(g.IS("RZ"), f.num == 1)
    out.append(("rz(pi)", And(one, f.den == 1), [sqo(cx, q, "Z")], 0))
    out.append(("rz(pi/2)", And(one, f.den == 2), [sqo(cx, q, "S", f.is_negative)], 0))
    for lab, c, gad, ids in t_cases(cx, q, gen.local_instructions_, n0):
        out.append(("rz(pi/4) " + lab, And(one, f.den == 4, c), gad, ids))
    tb = cg.target_gate.AS("BasicSingleQubitGate")
    cb = And(g.IS("ControlledGate"), cg.target_gate.IS("BasicSingleQubitGate"))
    for lab, c, gad, ids in cnot_cases(cx, cg.control_qubit, tb.target_qubit, cg.cnot_type, cg.cnot_ancilla_placement, mode, gen.local_instructions_, n0):
        h = sqo(cx, tb.target_qubit, "H")
        out.append(("CNOT " + lab, And(cb, tb.gate_type == en(cx, GT, "X"), c), gad, ids))
        out.append(("CZ " + lab, And(cb, tb.gate_type == en(cx, GT, "Z"), c), [h] + gad + [h], ids))
    out.append(("reset", g.IS("Reset"), [reset(cx, rs.target_qubit)], 0))
    return out


def nxt(cx):
    s, s2, r = cx.this, cx.this2, cx.ret
    q, q2 = s.next_instructions_, s2.next_instructions_
    gen, gen2 = s.instruction_generator_, s2.instruction_generator_
    i = z3.Int("i!nx")
    g = abstract(s.gate_stream_, GS + "get_next_gate", "lsqecc::gates::Gate")
    out = [("pending instructions first, in order", Implies(q.LEN > 0, And(r.T == q[0].T, q2.LEN == q.LEN - 1, FA([i], z3.Implies(And(0 <= i, i < q2.LEN), q2[i].T == q[i + 1].T), patterns=[q2[i].T]), gen2.T == gen.T, s2.gate_stream_.T == s.gate_stream_.T))),
           ("otherwise exactly one gate is taken", Implies(q.LEN == 0, And(abstract(s.gate_stream_, GS + "has_next_gate", "bool"), s2.gate_stream_.T == after(s.gate_stream_, GS + "get_next_gate").T))),
           ("configuration", And(s2.core_qubits_.T == s.core_qubits_.T, s2.cnot_correction_mode_ == s.cnot_correction_mode_, gen_same(gen, gen2)))]
    at = lambda k: r if k == 0 else q2[k - 1]
    cs = [(l, And(q.LEN == 0, c), gad, ids) for l, c, gad, ids in seq_gate(cx, g, gen, s.cnot_correction_mode_, gen.id_generator_.counter_)]
    out += claims(cs, q2.LEN + 1, at, gen2.id_generator_.counter_, gen.id_generator_.counter_, "gate")
    out.append(("every other gate is refused", Implies(q.LEN == 0, Or(*[c for _, c, _, _ in cs]))))
    return out


C.append(Contract("lsqecc::LSInstructionStreamFromGateStream::get_next_instruction", P, requires=lambda cx: ctr_ok(cx.this.instruction_generator_, 32), throws=True,
                  modifies=[("this", "next_instructions_"), ("this", "instruction_generator_"), ("this", "gate_stream_")], ensures=nxt, opts={"paths": True}))
C.append(Contract("lsqecc::LSInstructionStreamFromGateStream::has_next_instruction", P,
                  ensures=lambda cx: [("as long as something is pending", cx.ret == Or(cx.this.next_instructions_.LEN > 0, abstract(cx.this.gate_stream_, GS + "has_next_gate", "bool")))]))


def core(cx):
    k = z3.Int("q!core")
    n = abstract(cx.a(0), GS + "get_qreg", "lsqecc::Qreg").size
    return [("one patch per qubit of the register", FA([k], cx.ret.IN(k) == And(0 <= k, k < n), patterns=[cx.ret.IN(k)]))]


def core_inv(lp):
    sets = [l for l in lp.locs if l.h is not None and l.ct.kind == "set"]
    ids = [l for l in lp.locs if l.h is not None and l.ct.kind == "int"]
    k = z3.Int("q!ci")
    out = []
    for s in sets:
        r = V(lp.eng, s.h, s.ct)
        for i in ids:
            h = i.h
            out.append((FA([k], r.IN(k) == And(0 <= k, k < h), patterns=[r.IN(k)]), "hint the qubits so far"))
            out.append((r.LEN == h, "as many as qubits so far"))
    return out


C.append(Contract("lsqecc::core_qubits_from_gate_stream", P, requires=lambda cx: [("a register", abstract(cx.a(0), GS + "get_qreg", "lsqecc::Qreg").size > 0)], ensures=core, loops=[core_inv]))
CONTRACTS = C
