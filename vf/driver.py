"""runs one property's check: generate -> prove -> native contract execution -> verdict + evidence"""
import os, sys, json, time, shutil, tempfile, subprocess, importlib.util, traceback, re
import concurrent.futures as cf
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
PY = "/opt/veriftools/pyvenv/bin/python"


def load_spec(pid):
    p = os.path.join(V, "checks", pid, "spec.py")
    s = importlib.util.spec_from_file_location("spec_" + pid, p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def prove_worker(pid, unit, hname, ll, deadline, verbose):
    """one harness, in its own process"""
    t0 = time.time()
    out = {"harness": hname, "unit": unit, "error": None, "obls": [], "covers": [], "stats": {}, "funcs": [], "loops": []}
    try:
        from . import ir, engine
        from .theory import Unsupported
        m = load_spec(pid)
        sp = dict(m.UNITS[unit].get("defaults", {}))
        sp.update(m.UNITS[unit]["harnesses"].get(hname) or {})
        if "run" in sp:      # custom back end (e.g. GF(2) algebra)
            r = sp["run"](ll, hname, sp)
            out.update(r)
            out["wall"] = time.time() - t0
            return out
        mod = ir.parse(open(ll).read())
        fn = "vf_harness_" + hname
        if fn not in mod.funcs:
            raise Unsupported("harness %s missing" % hname)
        th = sp.get("theory", "int")
        e = engine.Engine(mod, theory=th, spec=sp, timeout=sp.get("timeout", 30000), verbose=verbose)
        if "setup" in sp:
            sp["setup"](e)
        e.deadline = deadline
        try:
            e.run_harness(fn)
        except engine.PathEnd:
            pass
        except (Unsupported, ir.IRError) as ex:
            out["error"] = "unsupported: %s" % ex
            if verbose > 1:
                traceback.print_exc(file=sys.stdout)
        out["obls"] = [dict(name=o.name, kind=o.kind, status=o.status, t=round(o.t, 3), solver=o.solver, model=o.model,
                            detail=o.detail) for o in e.obls]
        out["covers"] = e.covers
        out["stats"] = e.stats
        out["funcs"] = sorted(e.pretty(f) for f in e.funcs_executed if not f.startswith("vf_harness"))
        out["loops"] = e.loopinfo
        out["contracts"] = sorted(e.used_contracts)
        out["bounded"] = e.bounded
    except Exception as ex:
        out["error"] = "%s: %s" % (type(ex).__name__, str(ex)[:500])
        traceback.print_exc(file=sys.stdout)
    out["wall"] = time.time() - t0
    return out


def native_run(exe, args, timeout):
    try:
        p = subprocess.run([exe] + args, capture_output=True, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as ex:
        return -99, "", "timeout"


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1 and argv[1] in ("quick", "thorough"):
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    verbose = int(os.environ.get("VF_VERBOSE", "0"))
    only = os.environ.get("VF_ONLY")
    t0 = time.time()
    budget = 780 if tier == "quick" else 3000
    sys.path.insert(0, V)
    spec = load_spec(pid)
    wd = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    outdir = os.path.join(V, "out")
    os.makedirs(outdir, exist_ok=True)
    try:
        return run(pid, tier, seed, verbose, only, t0, budget, spec, wd, outdir)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def run(pid, tier, seed, verbose, only, t0, budget, spec, wd, outdir):
    from . import build
    problems = []       # reasons why the proof could not be carried out
    units = spec.UNITS
    ent_info = []
    # ---------------- generation
    gen_ok = {}
    for u, ud in units.items():
        d = os.path.join(wd, u)
        os.makedirs(d)
        try:
            info = ud["gen"](d) if ud.get("gen") else []
            ent_info += [x for x in (info or []) if x not in ent_info]
            gen_ok[u] = True
        except Exception as ex:
            gen_ok[u] = False
            problems.append("extraction (%s): %s" % (u, ex))
    hdir = os.path.join(V, "checks", pid)
    # ---------------- compile
    natives, lls = {}, {}

    def comp(u, kind):
        ud = units[u]
        src = os.path.join(hdir, ud.get("harness", "harness.cc"))
        fl = ["-I", os.path.join(wd, u), "-I", hdir] + [f.replace("@", hdir) for f in ud.get("flags", ())]
        if kind == "native":
            fl += list(ud.get("native_flags", ()))
            return build.native(src, os.path.join(wd, u, "native"), fl, san=ud.get("san", True))
        fl += list(ud.get("sym_flags", ()))
        return build.symbolic(src, os.path.join(wd, u, "h.ll"), fl, passes=ud.get("passes"), inline=ud.get("inline", True), noinline=ud.get("noinline", ()))
    with cf.ThreadPoolExecutor(8) as ex:
        fs = {}
        for u in units:
            if gen_ok[u]:
                fs[(u, "native")] = ex.submit(comp, u, "native")
                if not units[u].get("native_only"):
                    fs[(u, "sym")] = ex.submit(comp, u, "sym")
        for (u, k), f in fs.items():
            try:
                (natives if k == "native" else lls)[u] = f.result()
            except Exception as e:
                problems.append("compile %s (%s): %s" % (k, u, str(e)[-1500:]))
    for p in problems:
        print("NOTE: " + p[:3000], flush=True)
    # ---------------- proofs (processes) and native contract execution (threads)
    deadline = t0 + budget * 0.72
    tasks = []
    for u in units:
        if u in lls:
            for h, hs in units[u]["harnesses"].items():
                if only and h != only:
                    continue
                if hs and hs.get("tier") == "thorough" and tier != "thorough":
                    continue
                if hs and hs.get("native_only"):
                    continue
                tasks.append((u, h))
    weights = {(u, h): (units[u]["harnesses"][h] or {}).get("weight", 1) for u, h in tasks}
    tasks.sort(key=lambda x: -weights[x])
    results = []
    nsecs = float(os.environ.get("VF_NATIVE_SECS", spec.__dict__.get("NATIVE_SECS", 20) * (1 if tier == "quick" else 6)))
    evals = 0
    native_out = {}

    def nat(u, extra=(), secs=nsecs, sd=seed):
        rp = os.path.join(wd, "fail_%s_%d" % (u, len(extra)))
        if os.path.exists(rp):
            os.unlink(rp)
        rc, o, e = native_run(natives[u], ["--seed", str(sd), "--secs", str(secs), "--out", rp] + list(extra), secs + 120)
        return rc, o, e, rp
    tp = cf.ThreadPoolExecutor(4)
    sched = Sched(pid, [(u, h, lls[u]) for u, h in tasks], wd, deadline, t0 + budget * 0.85, verbose, int(os.environ.get("VF_JOBS", "7")))
    nf = {u: tp.submit(nat, u) for u in natives} if not os.environ.get("VF_NONATIVE") else {}
    violation = None
    for u, f in nf.items():
        rc, o, e, rp = f.result()
        native_out[u] = (rc, o)
        m = re.search(r"ran (\d+)", o)
        if m:
            evals += int(m.group(1))
        if rc == 1 and os.path.exists(rp):
            violation = violation or (u, rp, o, e)
        elif rc not in (0,):
            problems.append("native contract run of %s ended with status %d: %s" % (u, rc, (o + e)[-400:]))
        if verbose:
            print("native", u, rc, o[-300:], e[-600:])
    kf = known_findings(pid)
    if violation:
        u, rp, o, e = violation
        why = open(rp).read()
        # which obligation does the verifier refuse?  (the concrete input is the replayable counterexample to it)
        named, lim = [], min(t0 + budget, time.time() + 100)
        while time.time() < lim and not named:
            over = sched.done()
            named = ["%s: %s [%s]" % (r["harness"], ob["name"], ob["kind"]) for r in sched.finished() for ob in r["obls"] if ob["status"] == "invalid" and ob["kind"] != "unwind"]
            if over:
                break
            time.sleep(0.2)
        sched.kill()
        results += sched.finished()
        for n in named[:5]:
            print("FAILED OBLIGATION " + n)
        path = save_replay(outdir, pid, "contract violated on a concrete input (native run of the harness against /repo's code)\n" + why + "\n---- obligations the verifier refused in this run\n" +
                           ("\n".join(named) or "(none refused before the concrete input was found)") + "\n---- output\n" + (o + e)[-4000:])
        evidence(pid, tier, seed, t0, spec, results, ent_info, evals, problems, 1, why)
        print("reason: " + why.split("\n")[1])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    results += sched.wait()
    bad, unk = [], []
    for r in results:
        if r["error"]:
            unk.append((r, None, r["error"]))
        for o in r["obls"]:
            if o["status"] == "invalid" and r["stats"].get("user_unknown"):
                # a candidate invariant was given up for lack of time: the failure may be the prover's, not the code's
                unk.append((r, o, "not proved (invariant candidates timed out)"))
            elif o["status"] == "invalid" and o["kind"] != "unwind":
                bad.append((r, o))
            elif o["status"] != "valid":
                unk.append((r, o, "solver: " + o["status"]))
        for c, s in r["covers"]:
            if s == "UNREACHABLE":
                unk.append((r, None, "vacuous: cover %s unreachable" % c))
        if not r["error"] and not r["obls"]:
            unk.append((r, None, "no obligations generated"))
    for r, o in bad:
        print("FAILED OBLIGATION %s: %s [%s]" % (r["harness"], o["name"], o["kind"]))
    for r, o, why in unk:
        print("UNDECIDED %s: %s %s" % (r["harness"], o["name"] if o else "", why[:600]))
    if (bad or unk) and natives and not os.environ.get("VF_NONATIVE"):
        # replay countermodels, then search harder in the harnesses concerned
        for r, o in bad:
            if o.get("model") and r["unit"] in natives:
                cp = os.path.join(wd, "cex")
                with open(cp, "w") as fh:
                    fh.write("harness %s\n" % r["harness"])
                    for k, v in o["model"].items():
                        if isinstance(v, int):
                            fh.write("input %s %d\n" % (k, v))
                        elif isinstance(v, list):
                            fh.write("input %s %s\n" % (k, " ".join(map(str, v))))
                rp = os.path.join(wd, "cexfail")
                rc, so, se = native_run(natives[r["unit"]], ["--replay", cp, "--out", rp], 90)
                if rc == 1 and os.path.exists(rp):
                    why = open(rp).read()
                    path = save_replay(outdir, pid, "failed obligation: %s / %s\nverifier counterexample replayed against the real code:\n%s" % (r["harness"], o["name"], why) + so[-2000:] + se[-3000:])
                    evidence(pid, tier, seed, t0, spec, results, ent_info, evals, problems, 1, o["name"])
                    print("VIOLATION property=%s replay=%s" % (pid, path))
                    return 1
        hs = sorted(set((r["unit"], r["harness"]) for r, _ in bad) | set((r["unit"], r["harness"]) for r, _, _ in unk))
        left = max(10.0, min(90.0, t0 + budget - 20 - time.time()))
        fl = [tp.submit(nat, u, ("--harness", h), left / max(1, (len(hs) + 3) // 4), seed + 7) for u, h in hs if u in natives]
        for f in fl:
            rc, so, se, rp = f.result()
            m = re.search(r"ran (\d+)", so)
            evals += int(m.group(1)) if m else 0
            if rc == 1 and os.path.exists(rp):
                why = open(rp).read()
                path = save_replay(outdir, pid, "contract violated on a concrete input\n" + why + so[-2000:] + se[-3000:])
                evidence(pid, tier, seed, t0, spec, results, ent_info, evals, problems, 1, why)
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
    if bad:
        r, o = bad[0]
        txt = "failed obligations (the verifier gives a countermodel; no failing concrete input was found natively)\n"
        for r, o in bad:
            txt += "harness %s\nobligation %s [%s] solver %s\nmodel %s\ngoal %s\n\n" % (r["harness"], o["name"], o["kind"], o["solver"], o["model"], o["detail"])
        path = save_replay(outdir, pid, txt)
        evidence(pid, tier, seed, t0, spec, results, ent_info, evals, problems, 1, o["name"])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        return 1
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    undec = bool(unk or problems)
    evidence(pid, tier, seed, t0, spec, results, ent_info, evals, problems, 0, None, undec, unk)
    if problems and not natives:
        print("ERROR: the check could not process the current source")
        return 2
    n = sum(len(r["obls"]) for r in results)
    print("%s: %s  obligations %d, native contract evaluations %d, %.1fs" % (
        pid, "UNDECIDED for some obligations (bounded native check only)" if undec else "all obligations discharged", n, evals, time.time() - t0))
    return 0


class Sched:
    """runs the proof tasks, at most `jobs` at a time, each in its own process"""
    def __init__(self, pid, tasks, wd, deadline, hard, verbose, jobs):
        self.tasks, self.hard, self.stop = tasks, hard, False
        self.res = {}
        self.procs = {}
        self.args = (pid, wd, deadline, verbose, jobs)
        self.th = threading.Thread(target=self.loop, daemon=True)
        self.th.start()

    def fail(self, i, why):
        u, h, _ = self.tasks[i]
        self.res[i] = {"harness": h, "unit": u, "error": why, "obls": [], "covers": [], "stats": {}, "funcs": [], "loops": [], "wall": 0}

    def loop(self):
        pid, wd, deadline, verbose, jobs = self.args
        todo = list(range(len(self.tasks)))
        while (todo or self.procs) and not self.stop:
            while todo and len(self.procs) < jobs and time.time() < self.hard:
                i = todo.pop(0)
                u, h, ll = self.tasks[i]
                outp = os.path.join(wd, "res_%d.json" % i)
                err = open(os.path.join(wd, "err_%d.txt" % i), "w")
                env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
                p = subprocess.Popen([PY, "-m", "vf.worker", pid, u, h, ll, str(deadline), str(verbose), outp], cwd=V, env=env,
                                     stdout=(None if verbose else subprocess.DEVNULL), stderr=err, stdin=subprocess.DEVNULL)
                self.procs[i] = (p, outp, time.time())
            for i, (p, outp, ts) in list(self.procs.items()):
                rc = p.poll()
                if rc is None:
                    if time.time() > self.hard:
                        p.kill()
                        p.wait()
                        del self.procs[i]
                        self.fail(i, "no result within the time budget")
                    continue
                del self.procs[i]
                try:
                    self.res[i] = json.load(open(outp))
                except Exception:
                    e = open(os.path.join(wd, "err_%d.txt" % i)).read()[-400:]
                    self.fail(i, "worker ended with status %s: %s" % (rc, e))
            if todo and time.time() >= self.hard:
                for i in todo:
                    self.fail(i, "not started within the time budget")
                todo = []
            time.sleep(0.03)
        if self.stop:
            for p, _, _ in self.procs.values():
                p.kill()

    def finished(self):
        return [self.res[i] for i in sorted(self.res)]

    def done(self):
        return not self.th.is_alive()

    def kill(self):
        self.stop = True
        self.th.join(10)

    def wait(self):
        self.th.join()
        return [self.res[i] for i in sorted(self.res)]


def save_replay(outdir, pid, txt):
    p = os.path.join(outdir, "replay_%s.txt" % pid)
    with open(p, "w") as f:
        f.write("property %s\n" % pid + txt)
    return p


def known_findings(pid):
    p = os.path.join(V, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=%s (.*)" % pid, l)
            if m:
                out.append(m.group(1).strip())
    return out


def evidence(pid, tier, seed, t0, spec, results, ents, evals, problems, viol, why, undec=False, unk=()):
    obls = [o for r in results for o in r["obls"]]
    be = {}
    for o in obls:
        if o["status"] == "valid":
            be[o["solver"]] = be.get(o["solver"], 0) + 1
    kinds = {}
    for o in obls:
        kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
    disch = sum(1 for o in obls if o["status"] == "valid")
    level = "proof"
    cov = {
        "obligations": len(obls),
        "discharged": disch,
        "checker_cmd": "/verif/check %s %s" % (pid, tier),
        "trusted_base": ["clang 18 front end and the listed opt passes", "the VC generator /verif/vf", "z3 5.3.2 / cvc5",
                         "model std library /verif/model/std", "shims /verif/shim"],
        "functions_under_contract": ents,
        "functions_executed_symbolically": sorted(set(f for r in results for f in r["funcs"])),
        "discharged_by": be,
        "obligation_kinds": kinds,
        "solver_seconds": round(sum(r["stats"].get("solver_s", 0) for r in results), 2),
        "loops": [list(x) for r in results for x in r["loops"]][:60],
        "covers": [list(c) for r in results for c in r["covers"]],
        "harnesses": {r["harness"]: {"obligations": len(r["obls"]), "wall_s": round(r.get("wall", 0), 2), "error": r["error"],
                                     "bounded": r.get("bounded", False)} for r in results},
        "evaluations": evals,
        "rule": "native evaluations: the same contracts executed on concrete inputs against the real code built with ASan/UBSan (validation and replay, not counted as proof)",
        "bounded_harnesses": getattr(spec, "BOUNDED", []),
        "obligation_list": [o["name"] for o in obls if o["kind"] in ("post", "throw")][:80],
    }
    if not obls:
        cov["explanation"] = "no obligation was generated in this run"
        level = "other"
    if undec:
        level = "exploration"
        cov["distinct_nontrivial"] = evals
        cov["samples"] = ["undecided: %s" % u[2][:200] for u in list(unk)[:5]] + problems[:3]
    if viol:
        cov["violation"] = why
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(getattr(spec, "ASSUMPTIONS", [])) + list(problems)[:5], "wall_s": round(time.time() - t0, 2), "violations": viol}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
