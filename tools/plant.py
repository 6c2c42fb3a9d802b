#!/usr/bin/python3
"""plant.py ID...: validates planted bugs of /verif/seeded in a scratch copy of
/repo: applies, builds, passes the stable tests, demo 0 without / nonzero with,
and runs this property's check (and others given with --also) against it.
  --nocheck: only the validity part;  --nocheck-validity: only the check"""
import json, os, shutil, subprocess, sys
S = "/root/scratch/plant"  # the test runner rewrites paths under /tmp
V = "/verif/seeded"
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd=None, env=None, timeout=1500):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def fresh():
    if not os.path.exists(S):
        sh("cp -a /repo " + S)
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (S, S))


def build():
    return sh("/usr/bin/python3 /opt/vp/hirm/check_python.py {0} && /usr/bin/python3 /opt/vp/hirm/gen_ninja.py {0}/cxx {0}/_build && ninja -C {0}/cxx -f {0}/_build/build.ninja everything".format(S))


def tests():
    sh("rm -rf %s/_build/test; mkdir -p %s/_build/test" % (S, S))
    l = S + "/_build/test/results.txt"
    open(l, "w").close()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg", MPLCONFIGDIR=S + "/_build/mpl")
    sh(["/usr/bin/python3", "/opt/vp/hirm/run_tests.py", S, l], env=env)
    o = "/tmp/plant_tests.json"
    sh(["/usr/bin/python3", "/opt/vp/results.py", o, "lines:" + l])
    return BASE - set(json.load(open(o))["passed"])


def demo(i):
    d = "/tmp/plant_demo"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(V + "/" + i, d, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    # the demo runs with cwd /repo; here the scratch copy stands in for it
    rc, out = sh(["bash", d + "/demo.sh"], cwd=S, timeout=300)
    shutil.rmtree(d, ignore_errors=True)
    return rc, out


def main():
    args = sys.argv[1:]
    also = []
    if "--also" in args:
        k = args.index("--also")
        also = args[k + 1].split(",")
        del args[k:k + 2]
    validity = "--nocheck-validity" not in args
    check = "--nocheck" not in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V))
    for i in ids:
        meta = json.load(open("%s/%s/meta.json" % (V, i)))
        fresh()
        if validity:
            rc, out = build()
            rc0, o0 = demo(i)
        rc, out = sh("git apply --check {0} && git apply {0}".format("%s/%s/patch.diff" % (V, i)), cwd=S)
        if rc:
            print(i, "DOES NOT APPLY", out[-500:]); continue
        if validity:
            rc, out = build()
            if rc:
                print(i, "DOES NOT BUILD", out[-1500:]); continue
            lost = tests()
            rc1, o1 = demo(i)
            ok = not lost and rc0 == 0 and rc1 != 0
            print(i, "VALID" if ok else "INVALID", "lost=%s demo clean=%d planted=%d" % (sorted(lost)[:5], rc0, rc1), flush=True)
            if not ok:
                print("   clean:", o0[-600:], "\n   planted:", o1[-600:])
        if check:
            for p in [meta["property"]] + also:
                rc, out = sh(["python3", "/verif/check.py", p], env=dict(os.environ, VF_REPO=S))
                l = [x for x in out.splitlines() if "key=" in x]
                print("   %s %s rc=%d %s" % (i, p, rc, (l or out.splitlines()[-1:])[:3]), flush=True)
    fresh()


main()
