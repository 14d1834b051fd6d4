"""Verify contracts: one forked process per contract, obligations discharged by z3 (cvc5 for what z3 leaves open)."""
import sys, os, time, json, signal, subprocess, tempfile, traceback, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import z3
import front, ctypes_, sym, contract
from ctypes_ import Unsupported
from vals import *

Z3_MS = 20000
CVC5_S = 20


STAGES = ((2000, {}), (4000, {"smt.random_seed": 7, "smt.mbqi": False}), (8000, {"smt.random_seed": 3, "smt.arith.solver": 2}), (12000, {"smt.random_seed": 11, "smt.mbqi": False}), (Z3_MS, {"smt.random_seed": 5}),
          (Z3_MS, {"smt.random_seed": 23, "smt.mbqi": False, "smt.case_split": 3}))


def discharge(o, budget_end):
    """-> (result, backend, seconds, detail)"""
    t = time.time()
    if z3.is_true(o.goal):
        return "proved", "trivial", 0.0, ""
    g = z3.simplify(Not(o.goal))
    if z3.is_false(g):
        return "proved", "simplifier", time.time() - t, ""
    fs = list(o.hyps) + [g]
    last = None
    for k, (ms, opts) in enumerate(STAGES):
        if time.time() > budget_end and k:
            wall_hits[0] += 1
            break
        s = z3.Solver()
        for a, b in opts.items():
            try:
                s.set(a.replace("smt.", ""), b)
            except z3.Z3Exception:
                pass
        for h in o.hyps:
            s.add(h)
        s.add(g)
        r = limited(s, ms)
        if os.environ.get("VCG_RATE"):
            st_ = s.statistics()
            print("RATE", o.name[-70:], len(o.hyps), ms, r, [st_.get_key_value(k_) for k_ in st_.keys() if k_ in ("rlimit count", "time")], flush=True)
        if r == z3.unsat:
            return "proved", "z3", time.time() - t, ""
        if r == z3.sat:
            m = s.model()
            txt = "\n".join("  %s = %s" % (d, str(m[d])[:400]) for d in sorted(m.decls(), key=str)[:80])
            return "refuted", "z3", time.time() - t, txt
        last = s
        why = s.reason_unknown()
        if k == 0 and (oldz3(fs, 8, False, 6) or oldz3(fs, 8, None, 6)):
            return "proved", "z3-4.8", time.time() - t, ""
        if k == 3 and oldz3(fs, 100):
            return "proved", "z3-4.8", time.time() - t, ""
    # second back end
    if time.time() < budget_end:
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(smt_text(fs))
                fn = f.name
            out = subprocess.run(["cvc5", "--tlimit=%d" % (CVC5_S * 1000), fn], capture_output=True, text=True, timeout=CVC5_S + 10).stdout.strip().splitlines()
            os.unlink(fn)
            if out and out[0] == "unsat":
                return "proved", "cvc5", time.time() - t, ""
        except Exception as e:
            pass
    return "unknown", "z3+cvc5", time.time() - t, why


def verify_one(prog, table, c, f, budget, verbose=0):
    """run in the worker process"""
    if getattr(c, "loops", None) and c.opts.get("sidecar_first", True):
        # the written invariants alone are usually enough, and much cheaper than the search for further ones
        r = attempt(prog, table, c, f, min(60, budget / 3), verbose, True)
        if r["status"] == "proved":
            return r
    return attempt(prog, table, c, f, budget, verbose, False)


def attempt(prog, table, c, f, budget, verbose, sidecar_only):
    t0 = time.time()
    wall_hits[0] = 0
    T = ctypes_.Types(prog)
    eng = sym.Engine(prog, T, table)
    eng.verbose = verbose
    eng.sidecar_only = sidecar_only
    eng.deadline = t0 + budget
    r = {"key": c.key if hasattr(c, "key") else c.name, "func": f.qual if f is not None else c.name, "obligations": [], "status": "?"}
    try:
        if isinstance(c, contract.Lemma):
            eng.top = c.name
            eng.vacuity = {}
            c.fn(eng)
        else:
            if hasattr(c, "setup") and c.setup:
                c.setup(eng)
            contract.verify(eng, c, f)
            if c.opts.get("hyps"):
                extra = c.opts["hyps"](eng)
                for o in eng.obs:
                    o.hyps = list(o.hyps) + list(extra)
        r["gen_s"] = round(time.time() - t0, 2)
        sv = 0.0
        seen = {}
        bad = 0
        for o in eng.obs:
            key = (o.name, o.goal.get_id(), tuple(h.get_id() for h in o.hyps))
            if key in seen:
                continue
            seen[key] = 1
            if bad > 6:
                res, be, s, d = "skipped", "-", 0.0, ""
            else:
                res, be, s, d = discharge(o, t0 + budget)
            sv += s
            if res not in ("proved", "skipped"):
                bad += 1
            e = {"name": o.name, "kind": o.kind, "result": res, "backend": be, "s": round(s, 2)}
            if d:
                e["detail"] = d
            r["obligations"].append(e)
        r["solver_s"] = round(sv + eng.solver_s, 2)
        n = sum(1 for e in r["obligations"] if e["result"] == "proved")
        r["status"] = "proved" if n == len(r["obligations"]) and n else ("empty" if not r["obligations"] else "failed")
        r["exits"] = getattr(eng, "n_exits", 0)
        r["throws"] = getattr(eng, "n_throws", 0)
        if not isinstance(c, contract.Lemma) and not eng.n_exits and not eng.n_throws:
            r["status"] = "failed"
            r["obligations"].append({"name": eng.top + "/vacuity:some exit is reachable", "kind": "vacuity", "result": "refuted", "backend": "-", "s": 0})
    except (Unsupported, front.FrontError, KeyError, IndexError, AttributeError, TypeError, AssertionError, ValueError, z3.Z3Exception, RecursionError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        r["status"] = "unsupported"
        r["reason"] = "%s: %s (%s:%d)" % (type(e).__name__, str(e)[:300], tb[-1].filename.split("/")[-1], tb[-1].lineno)
        r["solver_s"] = round(eng.solver_s, 2)
        if verbose:
            traceback.print_exc()
    if r["status"] == "failed" and wall_hits[0] and not any(o["result"] == "refuted" for o in r["obligations"]):
        r["status"] = "unsupported"
        r["reason"] = "solver queries ended by the wall clock (%d), not by their step limit" % wall_hits[0]
    r["wall_s"] = round(time.time() - t0, 2)
    r["inlined"] = dict(eng.inlined)
    r["applied"] = dict(eng.applied)
    r["loops"] = eng.loop_log
    r["trusted"] = sorted(eng.trusted)
    r["notes"] = sorted(eng.notes)
    r["vacuity"] = getattr(eng, "vacuity", {})
    return r


class Pool:
    def __init__(self, prog, table, jobs=8, mem_gb=6):
        self.prog, self.table, self.jobs, self.mem = prog, table, jobs, mem_gb
        self.queue, self.running, self.results, self.queued = [], {}, {}, set()

    def add(self, c, f, budget, tag=None):
        k = (c.key if hasattr(c, "key") else "lemma " + c.name, f.node["id"] if f is not None else "")
        if k in self.queued:
            return
        self.queued.add(k)
        self.queue.append((k, c, f, budget))

    def step(self, on_done=None):
        while self.queue and len(self.running) < self.jobs:
            k, c, f, budget = self.queue.pop(0)
            fd, path = tempfile.mkstemp(prefix="vcg")
            os.close(fd)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    resource.setrlimit(resource.RLIMIT_AS, (self.mem << 30, self.mem << 30))
                    r = verify_one(self.prog, self.table, c, f, budget)
                    open(path, "w").write(json.dumps(r))
                except BaseException as e:
                    open(path, "w").write(json.dumps({"key": k[0], "func": f.qual if f else k[0], "status": "unsupported", "reason": "worker: %s %s" % (type(e).__name__, str(e)[:200]), "obligations": [], "inlined": {}, "applied": {}, "loops": [], "wall_s": 0}))
                os._exit(0)
            self.running[pid] = (k, c, f, budget, time.time(), path)
        for pid in list(self.running):
            k, c, f, budget, t0, path = self.running[pid]
            r, _ = os.waitpid(pid, os.WNOHANG)
            done = bool(r)
            killed = False
            if not done and time.time() - t0 > budget + 60:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                done = killed = True
            if done:
                del self.running[pid]
                try:
                    res = json.load(open(path))
                except Exception:
                    res = {"key": k[0], "func": f.qual if f else k[0], "status": "unsupported", "reason": "time or memory limit of the worker" , "obligations": [], "inlined": {}, "applied": {}, "loops": [], "wall_s": round(time.time() - t0, 1)}
                os.unlink(path)
                self.results[k] = res
                if on_done:
                    on_done(k, c, f, res)

    def busy(self):
        return bool(self.queue or self.running)

    def stop(self):
        for pid in list(self.running):
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
        self.running = {}


def table_of(contracts):
    t = {}
    for c in contracts:
        if isinstance(c, contract.Contract):
            t.setdefault(c.qual, []).append(c)
    return t
