#!/usr/bin/python3
"""check.py <PROPERTY>: build the tree, run the monitored workloads of one
property, judge what was observed, write evidence/<PROPERTY>.json.
Exit 0 held / 1 violation / 2 the check itself could not run."""
import glob, hashlib, importlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE + "/lib")
import vf, plans

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:"
                    "detect_stack_use_after_return=0:symbolize=1:max_allocation_size_mb=3000:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98:halt_on_error=1",
}


def crash_key(kind, sig, code, errtxt, outtxt):
    """A key naming what failed: the assertion, sanitizer report or exit message."""
    if kind == "hang":
        return "hang"
    m = re.search(r"(\S+):(\d+): (.*?): Assertion `(.*?)' failed", errtxt, re.S)
    if m:
        fn = re.sub(r"\(.*", "", m.group(3)).split(" ")[-1]
        return "assert:%s:%s" % (fn, re.sub(r"\s+", " ", m.group(4))[:120])
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", errtxt)
    if m:
        fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+)", errtxt) if "/cxx/" in f[1] and "harness" not in f[1]]
        fn = re.sub(r"\(.*", "", fr[0][0]) if fr else "?"
        return "asan:%s:%s" % (m.group(1), fn)
    m = re.search(r"(\S+?):(\d+):\d+: runtime error: (.*)", errtxt)
    if m:
        return "ubsan:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"-?[\d.e+]+", "N", m.group(3))[:100])
    m = re.search(r"terminate called after throwing an instance of '(.*?)'(?:\s+what\(\):\s+(.*))?", errtxt)
    if m:
        return "terminate:%s:%s" % (m.group(1), (m.group(2) or "")[:100])
    if sig:
        return "signal:%d" % sig
    last = [l for l in outtxt.strip().splitlines() if l.strip()]
    return "exit:%d:%s" % (code, re.sub(r"\d+", "N", last[-1])[:100] if last else "")


class Result:
    def __init__(self):
        self.cases = 0
        self.sigs = set()
        self.nontrivial = 0
        self.counts = {}
        self.perfam = {}
        self.samples = []
        self.viol = {}      # key -> dict(family, case, msg, n)
        self.notes = []

    def violation(self, key, **kw):
        if key in self.viol:
            self.viol[key]["n"] += 1
        else:
            self.viol[key] = dict(kw, n=1)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n


def run_harness(res, exe, prop, tier, seed, work, limit, only=None, scale=1.0, tag=""):
    out = os.path.join(work, "run" + tag)
    os.makedirs(out)
    cmd = [exe, "--out", out, "--prop", prop, "--tier", tier, "--seed", str(seed), "--limit", str(limit),
           "--scale", str(scale)]
    if only:
        cmd += ["--family", only]
    env = dict(os.environ, **SAN_ENV)
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=out)
    if r.returncode:
        raise RuntimeError("harness %s failed: %s" % (exe, r.stdout.decode(errors="replace")[-2000:]))
    for line in open(out + "/families.tsv"):
        n, t = line.rstrip("\n").split("\t")
        res.perfam.setdefault(n, dict(planned=0, run=0, distinct=0))["planned"] += int(t)
    for lf in glob.glob(out + "/w*.log"):
        for line in open(lf, errors="replace"):
            f = line.rstrip("\n").split("\t")
            if len(f) != 9:
                continue
            status, fam, idx, sig, nt, cnt, key, msg, desc = f
            res.cases += 1
            pf = res.perfam[fam]
            pf["run"] += 1
            if nt == "1" and (fam, sig) not in res.sigs:
                res.sigs.add((fam, sig))
                pf["distinct"] += 1
            for kv in cnt.split(","):
                if kv:
                    k, v = kv.rsplit("=", 1)
                    res.count(k, int(v))
            if status == "viol":
                res.violation(key, family=fam, case=int(idx), msg=msg, desc=desc, exe=exe, seed=seed, tier=tier)
            elif desc and sum(1 for s in res.samples if s["family"] == fam) < 2 and len(res.samples) < 14:
                res.samples.append(dict(family=fam, case=int(idx), desc=desc))
    for line in open(out + "/crashes.tsv"):
        kind, fam, idx, sig, code, base = line.rstrip("\n").split("\t")
        res.cases += 1
        res.perfam[fam]["run"] += 1
        if kind == "slow":
            res.count("slow_cases_rerun")
            continue
        if kind == "killed":
            res.notes.append("a worker was killed from outside (memory?) in %s case %s" % (fam, idx))
            continue
        rd = lambda p: open(p, errors="replace").read() if os.path.exists(p) else ""
        e, o = rd(base + ".err"), rd(base + ".out")
        res.violation(crash_key(kind, int(sig), int(code), e, o), family=fam, case=int(idx), seed=seed, tier=tier,
                      exe=exe, msg=("%s signal=%s exit=%s; stderr: %s; stdout tail: %s" % (kind, sig, code, e[:1500], o[-300:])))
    missing = {n: f for n, f in res.perfam.items() if f["run"] < f["planned"]}
    if missing:
        res.notes.append("time limit reached before: " + ", ".join("%s %d/%d" % (n, f["run"], f["planned"]) for n, f in missing.items()))
    shutil.rmtree(out, ignore_errors=True)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = plans.PLANS[prop]
    t0 = time.time()
    res = Result()
    os.makedirs(vf.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=vf.BUILD)
    try:
        plan["run"](res, prop, tier, seed, work, run_harness)
    except vf.BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    known = json.load(open(HERE + "/known_findings.json"))["findings"]
    mine = [k for k in known if k["property"] == prop]
    bad, hit = [], {}
    for key, v in sorted(res.viol.items()):
        m = [k for k in mine if re.fullmatch(k["key"], key) and ("family" not in k or k["family"] == v.get("family"))]
        if m:
            hit.setdefault(m[0]["key"], []).append((key, v))
        else:
            bad.append((key, v))
    for k in mine:
        if k["key"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for key, v in bad[:20]:
        name = "%s-%s.json" % (prop, hashlib.sha256(key.encode()).hexdigest()[:10])
        cmd = None
        if v.get("exe"):
            cmd = "%s --family %s --case %d --seed %d --tier %s" % (v["exe"], v["family"], v["case"], v["seed"], v["tier"])
        json.dump(dict(property=prop, key=key, **{k: w for k, w in v.items()}, replay_cmd=cmd),
                  open(os.path.join(rdir, name), "w"), indent=1)
        print("VIOLATION property=%s replay=evidence/replay/%s" % (prop, name))
        print("   key=%s family=%s case=%s n=%d\n   %s" % (key, v.get("family"), v.get("case"), v["n"], v.get("msg", "")[:700]))
    cov = dict(evaluations=res.cases, distinct_nontrivial=len(res.sigs), rule=plan["rule"],
               samples=res.samples[:14], families=res.perfam, monitor_counters=res.counts)
    if res.notes:
        cov["notes"] = res.notes
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=plan.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(bad))
    if hit:
        cov["known_findings_observed"] = {k: [x[0] for x in v] for k, v in hit.items()}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (HERE, prop), "w"), indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %s oracle checks, %d violation(s), %.1fs" % (
        prop, tier, res.cases, len(res.sigs), res.counts.get("oracle_checks", 0), len(bad), time.time() - t0))
    if res.cases == 0:
        print("no case ran")
        return 2
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
