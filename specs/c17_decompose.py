"""C17: decomposition of rotations into the basic gate set.

approx(q, n, d, precision) stands for the gate list approximate_RZ_gate returns for the rotation by n*pi/d on qubit q: a function of the
value of the angle.  (In the configuration that is built here, without gridsynth, approximate_RZ_gate never returns.)"""
from _common import *

C = []
P = ("C17",)
TY = "lsqecc::gates::BasicSingleQubitGate::Type"


def snum(f):
    return z3.If(f.is_negative, -f.num, f.num)


def approx(E, gatevec, q, n, d, prec):
    so = E.T.sort(gatevec)
    f = z3.Function("approximation", z3.IntSort(), z3.IntSort(), z3.IntSort(), prec.sort(), so)
    return V(E, f(q, n, d, prec), gatevec)


def enumv(E, q, name):
    vals = E.prog.enums.get(q)
    if vals is None:
        vals = E.prog.enums[E.T._find(E.prog.enums, q)]
    return z3.IntVal(vals[name])


def tt(x):
    return x.T if isinstance(x, V) else x


def frac_ok(f):
    """doubling the denominator does not leave the machine type"""
    lim = 1 << 61
    return And(f.num > -lim, f.num < lim, f.den > -lim, f.den < lim)


def kinds(g):
    cg = g.AS("ControlledGate")
    return And(g.IS("ControlledGate"), cg.target_gate.IS("RZ")), And(g.IS("ControlledGate"), cg.target_gate.IS("BasicSingleQubitGate"))


def is_cnot(x, cg, tq):
    """x is a CNOT with the control and the options of cg on target tq"""
    y = x.AS("ControlledGate")
    b = y.target_gate.AS("BasicSingleQubitGate")
    return And(x.IS("ControlledGate"), y.control_qubit == cg.control_qubit, y.cnot_type == cg.cnot_type, y.cnot_ancilla_placement == cg.cnot_ancilla_placement,
               y.target_gate.IS("BasicSingleQubitGate"), b.target_qubit == tq, b.gate_type == enumv(x.E, TY, "X"))


def segment(n, at, base, l, pat):
    """elements base.. of the list are the list l"""
    i = z3.Int("i!sg")
    return FA([i], z3.Implies(And(0 <= i, i < l.LEN), tt(at(base + i)) == tt(l[i])), patterns=[tt(l[i])])


def crz_list(E, gatevec, n, at, cg, prec):
    rz = cg.target_gate.AS("RZ")
    f = rz.pi_fraction
    a = approx(E, gatevec, cg.control_qubit, snum(f), f.den * 2, prec)
    b = approx(E, gatevec, rz.target_qubit, snum(f), f.den * 2, prec)
    c = approx(E, gatevec, rz.target_qubit, -snum(f), f.den * 2, prec)
    la, lb, lc = a.LEN, b.LEN, c.LEN
    return [("lengths", And(la >= 0, lb >= 0, lc >= 0)), ("length", n == la + lb + lc + 2), ("half the rotation on the control", segment(n, at, z3.IntVal(0), a, None)),
            ("half the rotation on the target", segment(n, at, la, b, None)), ("first CNOT", is_cnot(at(la + lb), cg, rz.target_qubit)),
            ("minus half the rotation on the target", segment(n, at, la + lb + 1, c, None)), ("second CNOT", is_cnot(at(la + lb + 1 + lc), cg, rz.target_qubit))]


def dec_list(E, gatevec, n, at, g, prec):
    crz, cbasic = kinds(g)
    out = [("a basic gate is itself", Implies(Or(g.IS("BasicSingleQubitGate"), g.IS("Reset"), cbasic), And(n == 1, tt(at(z3.IntVal(0))) == g.T)))]
    rz = g.AS("RZ")
    l = approx(E, gatevec, rz.target_qubit, snum(rz.pi_fraction), rz.pi_fraction.den, prec)
    out.append(("a rotation is its approximation", Implies(g.IS("RZ"), And(n == l.LEN, segment(n, at, z3.IntVal(0), l, None)))))
    out += [("controlled rotation: " + lab, Implies(crz, f)) for lab, f in crz_list(E, gatevec, n, at, g.AS("ControlledGate"), prec)]
    return out


def of_ret(cx, g, prec):
    r = cx.ret
    return dec_list(r.E, r.CT, r.LEN, lambda i: r[i], g, prec)


def frac_req(cx):
    g = cx.a(0)
    crz, _ = kinds(g)
    return [("angle within the machine type", Implies(crz, frac_ok(g.AS("ControlledGate").target_gate.AS("RZ").pi_fraction)))]


def ap(cx):
    rz, r = cx.a(0), cx.ret
    l = approx(r.E, r.CT, rz.target_qubit, snum(rz.pi_fraction), rz.pi_fraction.den, cx.a(1))
    return [("a function of the angle", r.T == l.T), ("not empty", r.LEN > 0)]


C.append(Contract("lsqecc::approximate_RZ_gate", P, throws=True, ensures=ap, note="never returns in this configuration (no gridsynth)"))
C.append(Contract("lsqecc::gates::decompose", P, throws=True, requires=frac_req, ensures=lambda cx: of_ret(cx, cx.a(0), cx.a(1)) + [("not empty", cx.ret.LEN > 0)]))


def crz(cx):
    r = cx.ret
    return crz_list(r.E, r.CT, r.LEN, lambda i: r[i], cx.a(0), cx.a(1))


C.append(Contract("lsqecc::gates::decompose_CRZ_gate", P, throws=True,
                  requires=lambda cx: [("rotation", cx.a(0).target_gate.IS("RZ")), ("angle within the machine type", frac_ok(cx.a(0).target_gate.AS("RZ").pi_fraction))], ensures=crz))


def isd(cx):
    g = cx.a(0)
    return [("exactly the basic gate set", cx.ret == Or(g.IS("BasicSingleQubitGate"), g.IS("Reset"), kinds(g)[1]))]


C.append(Contract("lsqecc::gates::is_decomposed", P, ensures=isd))


# the stream
def nxt(cx):
    s, s2 = cx.this, cx.this2
    q, q2 = s.next_gates_, s2.next_gates_
    r = cx.ret
    src, src2 = s.input_gate_stream_.VAL, s2.input_gate_stream_.VAL
    i = z3.Int("i!nx")
    fresh = abstract(src, "lsqecc::GateStream::get_next_gate", r.CT)
    out = [("pending gates first, in order", Implies(q.LEN > 0, And(r.T == tt(q[0]), q2.LEN == q.LEN - 1, FA([i], z3.Implies(And(0 <= i, i < q2.LEN), tt(q2[i]) == tt(q[i + 1])), patterns=[tt(q2[i])]), src2.T == src.T))),
           ("otherwise one gate of the source", Implies(q.LEN == 0, src2.T == after(src, "lsqecc::GateStream::get_next_gate").T)), ("the source stays", s2.input_gate_stream_.HAS)]
    at = lambda i: V(r.E, z3.If(i == 0, r.T, tt(q2[i - 1])), r.CT)
    out += [("the gates of its decomposition: " + lab, Implies(q.LEN == 0, f)) for lab, f in dec_list(r.E, q.CT, q2.LEN + 1, at, fresh, s.rz_precision_log_ten_negative_)]
    return out


def nxt_req(cx):
    s = cx.this
    r = abstract(s.input_gate_stream_.VAL, "lsqecc::GateStream::get_next_gate", "lsqecc::gates::Gate")
    crz, _ = kinds(r)
    return [("a source", s.input_gate_stream_.HAS), ("angles within the machine type", Implies(crz, frac_ok(r.AS("ControlledGate").target_gate.AS("RZ").pi_fraction)))]


C.append(Contract("lsqecc::DecomposeRotationStream::get_next_gate", P, throws=True, requires=nxt_req, modifies=[("this", "next_gates_"), ("this", "input_gate_stream_")], ensures=nxt))
C.append(Contract("lsqecc::DecomposeRotationStream::has_next_gate", P, requires=lambda cx: [("a source", cx.this.input_gate_stream_.HAS)],
                  ensures=lambda cx: [("as long as something is pending", cx.ret == Or(cx.this.next_gates_.LEN > 0, abstract(cx.this.input_gate_stream_.VAL, "lsqecc::GateStream::has_next_gate", "bool")))]))
CONTRACTS = C
