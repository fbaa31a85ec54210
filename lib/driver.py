"""Runs one check: lowers /repo, runs the analyser, compares with the known findings,
writes the evidence file, prints the verdict.

exit 0: the property held on everything analysed (known findings are printed)
exit 1: VIOLATION line
exit 2: the check could not decide (an anchor vanished, lowering failed, ...)
"""
import concurrent.futures as cf
import json, os, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import bitcode

TOOL = os.path.join(VERIF, "tools/build/apa")


class CheckError(Exception):
    pass


def build_tool():
    r = subprocess.run(["make", "-s", "-j8", "-C", os.path.join(VERIF, "tools")], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("the analyser does not build:\n" + r.stderr[-3000:])


class Result:
    """What one or several analyser runs said."""
    def __init__(self):
        self.findings, self.obs, self.stats, self.errors = {}, {}, {}, []

    def add_finding(self, rule, func, key, msg, file="", line=0, run=""):
        f = self.findings.setdefault("%s|%s|%s" % (rule, func, key),
                                     {"rule": rule, "func": func, "key": key, "msg": msg,
                                      "file": os.path.relpath(file, bitcode.REPO) if file.startswith("/") else file,
                                      "line": line, "runs": []})
        if run and run not in f["runs"]:
            f["runs"].append(run)

    def add_ob(self, rule, func, what, ok=True):
        k = (rule, func, what)
        self.obs[k] = self.obs.get(k, True) and ok

    def parse(self, text, run):
        done = False
        for ln in text.splitlines():
            if not ln.startswith("{"):
                continue
            try:
                d = json.loads(ln)
            except ValueError:
                self.errors.append("%s: unreadable analyser output: %s" % (run, ln[:200]))
                continue
            k = d["kind"]
            if k == "finding":
                self.add_finding(d["rule"], d["func"], d["key"], d["msg"], d["file"], d["line"], run)
            elif k == "ob":
                self.add_ob(d["rule"], d["func"], d["what"], d["ok"])
            elif k == "stat":
                self.stats[d["name"]] = self.stats.get(d["name"], 0) + d["value"]
            elif k == "error":
                self.errors.append("%s: %s" % (run, d["msg"]))
            elif k == "done":
                done = True
        if not done:
            self.errors.append("%s: the analyser did not finish" % run)


class Run:
    """One analyser invocation on the bitcode of some units linked together."""
    def __init__(self, units, cmd, args=(), label=None):
        self.units, self.cmd, self.args = list(units), cmd, list(args)
        self.label = label or "+".join(self.units)


def analyse(runs, work, res, timeout=800):
    names = sorted({u for r in runs for u in r.units})
    bc = bitcode.build(names, work)

    def one(i):
        r = runs[i]
        if len(r.units) == 1:
            m = bc[r.units[0]]
        else:
            m = os.path.join(work, "run%d.bc" % i)
            bitcode.link([bc[u] for u in r.units], m)
        p = subprocess.run([TOOL, r.cmd, m] + r.args, capture_output=True, text=True, errors="replace", timeout=timeout)
        return r.label, p.returncode, p.stdout, p.stderr

    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for label, rc, out, err in ex.map(one, range(len(runs))):
            res.parse(out, label)
            if rc != 0:
                res.errors.append("%s: analyser ended with %d: %s" % (label, rc, err[-400:]))
    return bc


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    d = json.load(open(p)) if os.path.exists(p) else {"findings": []}
    return {f["id"]: f for f in d["findings"] if f["property"] == pid}


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import checks
    chk = checks.CHECKS[pid]
    res = Result()
    try:
        build_tool()
        work = bitcode.scratch()
        chk.execute(tier, work, res)
        for name, low in chk.floors.items():
            if res.stats.get(name, 0) < low:
                res.errors.append("only %d %s found, %d expected: the analysis has lost what it decides on"
                                  % (res.stats.get(name, 0), name, low))
        byrule = {}
        for (rule, _, _), ok in res.obs.items():
            byrule[rule] = byrule.get(rule, 0) + 1
        for name, low in chk.ob_floors.items():
            if byrule.get(name, 0) < low:
                res.errors.append("only %d obligations of rule %s, %d expected" % (byrule.get(name, 0), name, low))
        chk.selftest(work, res)
    except (bitcode.LowerError, CheckError, subprocess.TimeoutExpired) as e:
        res.errors.append(str(e))
    except Exception:
        res.errors.append(traceback.format_exc())
    kn = known(pid)
    exc = {}
    for k in list(res.findings):
        if k in chk.exceptions:
            exc[k] = chk.exceptions[k]
            del res.findings[k]
    new = {k: f for k, f in res.findings.items() if k not in kn}
    old = {k: f for k, f in res.findings.items() if k in kn}
    rules = {}
    for (rule, _, _), ok in res.obs.items():
        r = rules.setdefault(rule, {"obligations": 0, "discharged": 0})
        r["obligations"] += 1
        r["discharged"] += 1 if ok else 0
    samples = {}
    for (rule, fn, what), ok in sorted(res.obs.items()):
        l = samples.setdefault(rule, [])
        if len(l) < 3:
            l.append("%s: %s [%s]" % (fn, what, "ok" if ok else "FAILS"))
    cov = {"explanation": chk.explanation,
           "obligations": len(res.obs), "discharged": sum(1 for v in res.obs.values() if v),
           "rules": rules, "counts": res.stats, "modules": sorted(chk.labels(tier)),
           "samples": [s for l in samples.values() for s in l],
           "exceptions": exc, "known_findings": sorted(old), "new_findings": sorted(new)}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.level, "coverage": cov,
          "assumptions": chk.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if chk.level == "proof":
        cov["checker_cmd"] = "cd /verif && python3 lib/driver.py " + pid
        cov["trusted_base"] = ["clang 18 front end and LLVM 18 analyses", "/verif/tools (analyser)", "/verif/lib"] + chk.trusted
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    rep = os.path.join(VERIF, "evidence", pid + ".report.txt")
    with open(rep, "w") as f:
        for k, x in sorted(new.items()):
            f.write("%s:%s: [%s] %s: %s\n    id: %s\n    modules: %s\n" %
                    (x["file"], x["line"], x["rule"], x["func"], x["msg"], k, ", ".join(x["runs"])))
        for e in res.errors:
            f.write("ERROR: %s\n" % e)
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k].get("what") or old[k]["msg"]))
    for k, x in sorted(new.items())[:40]:
        print("%s:%s: [%s] %s: %s" % (x["file"], x["line"], x["rule"], x["func"], x["msg"]))
    for e in res.errors[:20]:
        print("ERROR: " + e[:1500])
    print("%s: %d obligations, %d findings (%d known), %.1f s" % (pid, len(res.obs), len(res.findings), len(old), time.time() - t0))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if res.errors:
        return 2
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "ids":  # list the finding ids, for maintaining known_findings.json
        pass
    sys.exit(main(sys.argv[1]))
