"""C14: operand sets and commutation."""
from _common import *

C = []
P = ("C14",)


def qubits_of(g, q):
    """specification: qubit q is acted on by gate g"""
    basic, rz, cg, rs = g.AS("BasicSingleQubitGate"), g.AS("RZ"), g.AS("ControlledGate"), g.AS("Reset")
    return Or(And(g.IS("BasicSingleQubitGate"), q == basic.target_qubit), And(g.IS("RZ"), q == rz.target_qubit),
              And(g.IS("ControlledGate"), Or(q == cg.control_qubit, q == target_of(cg))), And(g.IS("Reset"), q == rs.target_qubit))


def target_of(cg):
    t = cg.target_gate
    return z3.If(t.IS("BasicSingleQubitGate"), t.AS("BasicSingleQubitGate").target_qubit, t.AS("RZ").target_qubit)


def goq(cx):
    k = z3.Int("q!op")
    return [("exactly the qubits of the gate", FA([k], cx.ret.IN(k) == qubits_of(cx.a(0), k), patterns=[cx.ret.IN(k)]))]


C.append(Contract("lsqecc::gates::get_operating_qubits", P, ensures=goq))


def patches_of(ins, p, with_busy=True):
    """specification: patch p is acted on by instruction ins, or it waits for it"""
    op = ins.operation
    i = z3.Int("i!po")

    def has(kind, *fields):
        o = op.AS(kind)
        vs = []
        for f in fields:
            v = o
            for x in f.split("."):
                v = v.F(x)
            vs.append(p == v)
        return And(op.IS(kind), Or(*vs))
    busy = op.AS("BusyRegion").state_after_clearing
    return Or(ins.clients.IN(p), has("SinglePatchMeasurement", "target"), And(op.IS("MultiPatchMeasurement"), op.AS("MultiPatchMeasurement").observable.IN(p)),
              has("PatchInit", "target"), has("BellPairInit", "side1", "side2", "loc1.target", "loc2.target"), has("MagicStateRequest", "target"), has("YStateRequest", "target"),
              has("SingleQubitOp", "target"), has("RotateSingleCellPatch", "target"), has("BellBasedCNOT", "control", "target", "side1", "side2"), has("PatchReset", "target"),
              *[] if not with_busy else [And(op.IS("BusyRegion"), EX([i], And(0 <= i, i < busy.LEN, busy[i].id.HAS, busy[i].id.VAL == p)))])


def gop(cx):
    k = z3.Int("p!op")
    op = cx.this.operation
    exact = Not(op.IS("BusyRegion"))
    i = z3.Int("i!bz")
    busy = op.AS("BusyRegion").state_after_clearing
    return [("every patch of the instruction", FA([k], z3.Implies(And(exact, patches_of(cx.this, k, False)), cx.ret.IN(k)), patterns=[cx.ret.IN(k), cx.this.clients.IN(k), op.AS("MultiPatchMeasurement").observable.IN(k)])),
            ("no other patch", FA([k], z3.Implies(And(exact, cx.ret.IN(k)), patches_of(cx.this, k, False)), patterns=[cx.ret.IN(k)])),
            ("the patches it waits for", FA([k], z3.Implies(cx.this.clients.IN(k), cx.ret.IN(k)), patterns=[cx.ret.IN(k), cx.this.clients.IN(k)])),
            ("every patch of a busy region", Implies(op.IS("BusyRegion"), FA([i], z3.Implies(And(0 <= i, i < busy.LEN, busy[i].id.HAS), cx.ret.IN(busy[i].id.VAL)), patterns=[busy[i].T]))),
            ("own no other patch for a busy region", Implies(op.IS("BusyRegion"), FA([k], z3.Implies(cx.ret.IN(k), patches_of(cx.this, k)), patterns=[cx.ret.IN(k)])))]


def busy_inv(lp):
    cx = lp.eng.topctx
    if "this" not in cx.pre or not hasattr(cx.this, "operation"):
        return []
    busy = cx.this.operation.AS("BusyRegion").state_after_clearing
    i = z3.Int("i!bi")
    for l in lp.locs:
        if l.h is not None and l.ct.kind == "set":
            r = V(lp.eng, l.h, l.ct)
            k = z3.Int("k!bi")
            cl, obs = cx.this.clients, cx.this.operation.AS("MultiPatchMeasurement").observable
            ct = lp.eng.lvct(lp.s0, lp.cont) if lp.cont is not None else None
            if ct is not None and ct.kind == "map":
                return [(FA([k], r.IN(k) == Or(cl.IN(k), And(obs.IN(k), obs.POS(k) < lp.it)), patterns=[r.IN(k), obs.IN(k), cl.IN(k)]), "hint patches so far")]
            return [(FA([i], z3.Implies(And(0 <= i, i < lp.it, busy[i].id.HAS), r.IN(busy[i].id.VAL)), patterns=[busy[i].T]), "hint ids so far"),
                    (FA([k], z3.Implies(cl.IN(k), r.IN(k)), patterns=[r.IN(k), cl.IN(k)]), "hint clients kept"),
                    (FA([k], z3.Implies(r.IN(k), Or(cl.IN(k), EX([i], And(0 <= i, i < lp.it, busy[i].id.HAS, busy[i].id.VAL == k), patterns=[busy[i].T]))), patterns=[r.IN(k)]), "hint nothing else")]
    return []


C.append(Contract("lsqecc::LSInstruction::get_operating_patches", P, ensures=gop, loops=[busy_inv]))
C.append(Contract("lsqecc::LSInstruction::get_patch_dependencies", P, ensures=gop, opts={"own": True}))


def commute_ls(cx):
    a, b = cx.a(0), cx.a(1)
    k, i = z3.Int("p!cm"), z3.Int("i!cm")
    busy = lambda x: x.operation.IS("BusyRegion")
    out = [("commuting instructions share no patch, acted on or waited for", Implies(And(cx.ret, Not(busy(a)), Not(busy(b))), z3.ForAll([k], Not(And(patches_of(a, k), patches_of(b, k)))))),
           ("nor one both wait for", Implies(cx.ret, z3.ForAll([k], Not(And(a.clients.IN(k), b.clients.IN(k))))))]
    for x, y, n in ((a, b, "first"), (b, a, "second")):
        l = x.operation.AS("BusyRegion").state_after_clearing
        p = l[i].id
        out.append(("nor one a busy region holds (%s)" % n, Implies(And(cx.ret, busy(x), Not(busy(y))), FA([i], z3.Implies(And(0 <= i, i < l.LEN, p.HAS), Not(patches_of(y, p.VAL))), patterns=[l[i].T]))))
    return out


C.append(Contract("lsqecc::dag::CommutationTrait<lsqecc::LSInstruction>::can_commute", P, ensures=commute_ls, opts={"pure": True}))


def commute_g(cx):
    a, b = cx.a(0), cx.a(1)
    k = z3.Int("q!cm")
    ca, cb = a.AS("ControlledGate"), b.AS("ControlledGate")
    same = And(a.IS("ControlledGate"), b.IS("ControlledGate"), ca.control_qubit == cb.control_qubit)
    ok = And(target_of(ca) != ca.control_qubit, target_of(cb) != cb.control_qubit)
    return [("commuting gates share no qubit but a common control", Implies(And(cx.ret, Not(same)), z3.ForAll([k], Not(And(qubits_of(a, k), qubits_of(b, k)))))),
            ("a common control and different targets", Implies(And(cx.ret, same), target_of(ca) != target_of(cb)))]


C.append(Contract("lsqecc::dag::CommutationTrait<std::variant<lsqecc::gates::BasicSingleQubitGate,lsqecc::gates::RZ,lsqecc::gates::ControlledGate,lsqecc::gates::Reset>>::can_commute", P, ensures=commute_g, opts={"pure": True}))
CONTRACTS = C
