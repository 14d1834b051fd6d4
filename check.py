#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--tier quick|thorough]: verify the contracts of one property against /repo's current source.

exit 0  every obligation discharged (or left to the labelled bounded stand-in because the verifier could not process the function),
        and the replay search found nothing
exit 1  VIOLATION property=<id> replay=<path> [no-failing-input-found]"""
import os as _os, sys as _sys
if _os.environ.get("PYTHONHASHSEED") != "0":
    _os.environ["PYTHONHASHSEED"] = "0"      # the same run every time
    _os.execv(_sys.executable, [_sys.executable] + _sys.argv)
import sys, os, time, json, glob, shutil, subprocess, tempfile, re, hashlib, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vcg"))
REPO = os.environ.get("VERIF_REPO", "/repo")
import front, run, specs, contract
import meta

T0 = time.time()


def note(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# ---------------------------------------------------------------- replay drivers
class Driver:
    """compiles /repo's current sources and the property's driver with sanitizers, and runs it"""

    def __init__(self, pid, work, tier):
        self.src = os.path.join(HERE, "drivers", pid + ".cpp")
        self.exists = os.path.exists(self.src)
        self.work, self.tier, self.pid = work, tier, pid
        self.proc = None
        self.state = "absent"
        self.out = ""
        if self.exists:
            self.state = "building"
            self.start()

    def start(self, everything=False):
        self.everything = everything
        flags = "-std=gnu++20 -O1 -g0 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -DENABLE_BOOST_GRAPH_SEARCH -w"
        if "//STL-DEBUG" in open(self.src).read():
            flags += " -D_GLIBCXX_DEBUG"
        inc = "-I%s/include -I%s/external/include -I/usr/include/postgresql -I%s/drivers -I%s/drivers/stubs" % (REPO, REPO, HERE, HERE)
        mk = os.path.join(self.work, "Makefile")
        srcs = [s for s in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) if not re.search(r"_main|emscripten|pybind|pipelines/slicer", s)]
        objs = []
        rules = []
        need = re.search(r"//SOURCES:(.*)", open(self.src).read())
        if need and not everything:
            pats = need.group(1).split()
            srcs = [s for s in srcs if any(p in s for p in pats)]
        for s in srcs:
            o = os.path.join(self.work, hashlib.md5(s.encode()).hexdigest()[:10] + ".o")
            objs.append(o)
            rules.append("%s: %s\n\t@g++ %s %s -c $< -o $@\n" % (o, s, flags, inc))
        d = os.path.join(self.work, "drv.o")
        rules.append("%s: %s\n\t@g++ %s %s -c $< -o $@\n" % (d, self.src, flags, inc))
        libs = "-Wl,--allow-multiple-definition " if "//OVERRIDES" in open(self.src).read() else ""
        libs += "-lpq" if not need or everything else ""
        exe = os.path.join(self.work, "drv")
        open(mk, "w").write("%s: %s %s\n\t@g++ -fsanitize=address,undefined $^ -o $@ %s\n\n" % (exe, d, " ".join(objs), libs) + "\n".join(rules))
        self.exe = exe
        self.log = open(os.path.join(self.work, "build.log"), "w")
        self.proc = subprocess.Popen(["make", "-j6", "-k", "-f", mk, exe], stdout=self.log, stderr=subprocess.STDOUT, cwd=self.work)
        self.t0 = time.time()

    def poll(self):
        if self.state == "building" and self.proc.poll() is not None:
            if self.proc.returncode or not os.path.exists(self.exe):
                if not self.everything and "//SOURCES:" in open(self.src).read():
                    # a function may have moved to another file: link everything
                    return self.start(True)
                self.state = "build failed"
                self.out = open(os.path.join(self.work, "build.log")).read()[-3000:]
                return
            self.state = "running"
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0:exitcode=77", VERIF_TIER=self.tier)
            self.ro = open(os.path.join(self.work, "out.txt"), "w+")
            self.limit = 240 if self.tier == "quick" else 480
            scratch = os.path.join(self.work, "scratch")
            os.makedirs(scratch, exist_ok=True)
            self.proc = subprocess.Popen([self.exe], stdout=self.ro, stderr=subprocess.STDOUT, env=env, cwd=scratch, start_new_session=True)
            self.t1 = time.time()
        elif self.state == "running":
            rc = self.proc.poll()
            if rc is None and time.time() - self.t1 > self.limit:
                os.killpg(self.proc.pid, signal.SIGKILL)
                self.proc.wait()
                self.state = "time limit"
                rc = 0
                self.read(rc)
            elif rc is not None:
                self.state = "done"
                self.read(rc)

    def read(self, rc):
        self.ro.flush()
        self.ro.seek(0)
        self.out = self.ro.read()
        self.rc = rc
        self.secs = round(time.time() - self.t1, 1)

    def results(self):
        """-> (fails [(key, text)], evals, nontrivial, samples)"""
        fails, ev, nt, samples, rule, parts = [], 0, 0, [], "", {}
        cur = ""
        for l in self.out.splitlines():
            if l.startswith("FAIL "):
                m = re.match(r"FAIL key=(\S+) :: (.*)", l)
                if m:
                    fails.append((m.group(1), m.group(2)))
            elif l.startswith("EVALS "):
                a = l.split()
                ev, nt = int(a[1]), int(a[3])
            elif l.startswith("PART "):
                a = l.split()
                parts[a[1]] = int(a[2])
            elif l.startswith("SAMPLE "):
                samples.append(l[7:400])
            elif l.startswith("RULE "):
                rule = l[5:]
            elif l.startswith("CURRENT "):
                cur = l[8:]
        if self.state == "done" and self.rc not in (0, 1):
            err = [l for l in self.out.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error:" in l or "Assertion" in l or "terminate called" in l or "Error: attempt" in l or "what():" in l]
            part = re.match(r"(\S+)", cur)
            fails.append(("crash:" + (part.group(1) if part else "?"), "the real code crashed (exit %s) on: %s -- %s" % (self.rc, cur, "; ".join(err)[:600])))
        return fails, ev, nt, samples, rule, parts

    def stop(self):
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()


def known(pid):
    fn = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(fn):
        return []
    return [e for e in json.load(open(fn)) if e["property"] == pid and e["status"] == "known"]


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        rc = check(pid, tier, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(pid, tier, seed, work):
    kn = known(pid)
    limit = 780 if tier == "quick" else 3000
    drv = Driver(pid, work, tier)
    cs = specs.load_specs()
    mine = [c for c in cs if pid in c.props]
    results, missing, prog, ferr = {}, [], None, None
    done_log = []
    pool = None
    closure_from = {}
    try:
        os.makedirs(os.path.join(work, "ast"))
        prog = front.load(os.path.join(work, "ast"))
    except Exception as e:
        ferr = "%s: %s" % (type(e).__name__, str(e)[:500])
        note("front end:", ferr)
    if prog is not None:
        table = run.table_of(cs)
        budget = 300 if tier == "quick" else 900
        pool = run.Pool(prog, table, jobs=8)

        def enqueue(c, why):
            if isinstance(c, contract.Lemma):
                pool.add(c, None, budget)
                return
            fs = [f for f in prog.funcs.get(c.qual, []) if c.matches(f)]
            if not fs and c.key not in missing:
                missing.append(c.key)
            for f in fs:
                pool.add(c, f, c.opts.get("budget", budget))

        def on_done(k, c, f, r):
            n = len(r["obligations"])
            ok = sum(1 for o in r["obligations"] if o["result"] == "proved")
            note("%-11s %-64s %d/%d obligations, %.1fs%s" % (r["status"], k[0][:64], ok, n, r["wall_s"], (" -- " + r["reason"]) if r.get("reason") else ""))
            results[k] = (c, r)
            # a caller is only as good as the contracts it relied on
            for key in r.get("applied", {}):
                for d in cs:
                    if isinstance(d, contract.Contract) and d.key == key:
                        closure_from.setdefault(d.key, k[0])
                        enqueue(d, k[0])
        refuted = None
        order = sorted(mine, key=lambda c: -(c.opts.get("cost", 1) if isinstance(c, contract.Contract) else 0))
        for c in order:
            enqueue(c, None)
        while pool.busy() or drv.state in ("building", "running"):
            pool.step(on_done)
            drv.poll()
            time.sleep(0.02)
            if drv.state == "done" and not refuted:
                ks = [e.get("key") for e in kn]
                if any(k not in ks for k, _ in drv.results()[0]):
                    refuted = time.time()
                else:
                    refuted = -1
            if time.time() - T0 > limit or (refuted and refuted > 0 and time.time() - refuted > 40):
                note("time limit of the check reached; what is open stays undecided" if not (refuted and refuted > 0) else "the real code fails on a found input; obligations still open are left open")
                for pid_, (k, c, f, b, t0, p) in list(pool.running.items()):
                    results[k] = (c, {"status": "unsupported", "reason": "not finished when the check stopped", "obligations": [], "inlined": {}, "applied": {}, "loops": [], "wall_s": 0})
                pool.stop()
                pool.queue = []
                break
    while drv.state in ("building", "running"):
        drv.poll()
        time.sleep(0.05)
        if time.time() - T0 > limit + 60:
            drv.stop()
            drv.state = "time limit"
    return report(pid, tier, seed, kn, cs, mine, results, missing, prog, ferr, drv)


def norm_obl(n):
    """obligation name without path numbers"""
    n = re.sub(r" \((exit|throw) [^)]*\)", "", n)
    return re.sub(r" \(throw \d+\)", "", n)


def report(pid, tier, seed, kn, cs, mine, results, missing, prog, ferr, drv):
    m = meta.META.get(pid, {})
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    failed, undecided, funcs = [], [], []
    tot = disc = 0
    backends, solver_s = {}, 0.0
    inlined, trusted, loops, notes = {}, set(), 0, set()
    inv_kept = 0
    for k, (c, r) in sorted(results.items(), key=lambda x: x[0]):
        nm = k[0]
        obs = r["obligations"]
        ok = sum(1 for o in obs if o["result"] == "proved")
        e = {"contract": nm, "status": r["status"], "obligations": len(obs), "discharged": ok, "wall_s": r.get("wall_s", 0), "own": pid in c.props}
        if r.get("reason"):
            e["reason"] = r["reason"]
        funcs.append(e)
        solver_s += r.get("solver_s", 0) or 0
        for a in r.get("inlined", {}):
            inlined[a] = inlined.get(a, 0) + r["inlined"][a]
        trusted |= set(r.get("trusted", []))
        notes |= set(r.get("notes", []))
        for l in r.get("loops", []):
            loops += 1
            inv_kept += l["kept"]
        if r["status"] in ("proved", "failed"):
            tot += len(obs)
            disc += ok
            for o in obs:
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
                if o["result"] not in ("proved", "skipped"):
                    failed.append((nm, o))
        else:
            undecided.append((nm, r.get("reason", r["status"])))
    for k in missing:
        undecided.append((k, "no function of this name and signature in the current source"))
    dfails, ev, nt, samples, rule, parts = drv.results()
    new, seen_known = [], set()
    for key, text in dfails:
        hit = [e for e in kn if e.get("key") and (e["key"] == key)]
        if hit:
            for e in hit:
                seen_known.add(e["key"])
        else:
            new.append((key, text))
    newobl = []
    for nm, o in failed:
        n = norm_obl(o["name"])
        hit = [e for e in kn if n in e.get("obligations", [])]
        if hit:
            for e in hit:
                seen_known.add(e["key"])
        else:
            newobl.append((nm, o))
    for e in kn:
        if e["key"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    # ---------------------------------------------------------------- evidence
    level = m.get("level", "proof")
    cov = {
        "obligations": tot, "discharged": disc,
        "checker_cmd": "python3 /verif/check.py %s (VC generator /verif/vcg on clang's AST of /repo/src; z3 %s, cvc5)" % (pid, __import__("z3").get_version_string()),
        "trusted_base": m.get("trusted", []) + ["clang 18 front end (AST)", "vcg: the verification-condition generator and its models of the standard library (/verif/vcg)", "z3 / cvc5"] + sorted(trusted),
        "functions_under_contract": funcs,
        "functions_inlined": {a: b for a, b in sorted(inlined.items())},
        "backends": backends, "solver_s": round(solver_s, 1),
        "loops_cut": loops, "loop_invariants_kept": inv_kept,
        "undecided": [{"contract": a, "reason": b} for a, b in undecided],
        "failed_obligations": [{"contract": a, "obligation": o["name"], "result": o["result"]} for a, o in failed],
        "replay_search": {"state": drv.state, "evaluations": ev, "distinct_nontrivial": nt, "rule": rule, "samples": samples[:5], "parts": parts, "label": "bounded: concrete executions of the real code against the same contracts; never counted as proved"},
        "evaluations": ev, "distinct_nontrivial": nt, "rule": rule or "no replay driver", "samples": samples[:5],
        "known_findings_seen": sorted(seen_known),
        "explanation": m.get("explanation", ""),
    }
    if ferr:
        cov["front_end_error"] = ferr
    evd = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
           "assumptions": meta.ASSUMPTIONS + m.get("assumptions", []) + sorted(notes), "wall_s": round(time.time() - T0, 1), "violations": len(new) + (len(newobl) if not new else 0)}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    print("%s: %d contracts, %d/%d obligations discharged, %d undecided; replay search: %s, %d evaluations; %.1fs" % (pid, len(funcs), disc, tot, len(undecided), drv.state, ev, time.time() - T0))
    for a, b in undecided:
        print("UNDECIDED (bounded stand-in only): %s: %s" % (a, b))
    if drv.state == "build failed":
        print("replay driver did not build against this tree:\n" + drv.out[-1500:])
    rp = os.path.join("evidence", "%s.replay.txt" % pid)
    if new:
        with open(os.path.join(HERE, rp), "w") as f:
            f.write("property %s: failing inputs on the real code\n\n" % pid)
            for key, text in new[:50]:
                f.write("key=%s\n%s\n\n" % (key, text))
            f.write("\nfailed obligations:\n")
            for nm, o in newobl:
                f.write("  %s: %s (%s)\n%s\n" % (nm, o["name"], o["result"], o.get("detail", "")))
            f.write("\nrerun: python3 /verif/check.py %s\n\ndriver output (tail):\n%s\n" % (pid, drv.out[-4000:]))
        for key, text in new[:5]:
            print("  failing input [%s]: %s" % (key, text[:300]))
        for nm, o in newobl[:5]:
            print("  failed obligation: %s (%s)" % (o["name"], o["result"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if newobl:
        with open(os.path.join(HERE, rp), "w") as f:
            f.write("property %s: obligations generated from the current source that are not discharged\n\n" % pid)
            for nm, o in newobl:
                f.write("contract %s\nobligation %s\nresult %s (%s, %.1fs)\n%s\n\n" % (nm, o["name"], o["result"], o["backend"], o["s"], o.get("detail", "")))
        for nm, o in newobl[:8]:
            print("  failed obligation: %s (%s)" % (o["name"], o["result"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    main()
