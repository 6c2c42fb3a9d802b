"""Build driver: compiles /repo/cxx (current working tree) plus a harness from
/verif/harness with sanitizers, in parallel, into /verif/build (git-ignored).

Objects are cached by the hash of (flags, source, every header of the tree), so
a change of /repo is always seen; nothing is ever written into /repo."""
import concurrent.futures as cf
import glob, hashlib, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CXX = os.path.join(REPO, "cxx")
BUILD = os.path.join(VERIF, "build")
COMMON = ["-std=c++20", "-w", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    # asserts on; memory and undefined-behaviour sanitizers
    "san": ["-O1", "-fsanitize=address,bounds,signed-integer-overflow,shift,integer-divide-by-zero,"
                   "float-cast-overflow,bool,enum,return,unreachable", "-fno-sanitize-recover=all"],
    # fast build with asserts on, for volume (statistics, long histories)
    "fast": ["-O2"],
    # what a release build does: asserts off, but memory checked
    "sanrel": ["-O1", "-DNDEBUG", "-fsanitize=address,bounds", "-fno-sanitize-recover=all"],
    # as built by the project's own release flags
    "rel": ["-O2", "-DNDEBUG"],
}
# Compile the slowest translation units first.
SLOW = ["irm.cc", "hirm.cc", "hirm_main.cc", "pclean/pclean.cc", "gendb.cc", "util_io.cc"]


class BuildError(Exception):
    pass


def compiler():
    for c in ("g++-13", "g++"):
        for d in os.environ.get("PATH", "/usr/bin").split(":"):
            if os.path.exists(os.path.join(d, c)):
                return c
    return "g++"


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_sources():
    """Every non-test, non-main C++ source of the tree, and the mains."""
    lib, mains = [], []
    for p in sorted(glob.glob(CXX + "/**/*.cc", recursive=True)):
        rel = os.path.relpath(p, CXX)
        if rel.endswith("_test.cc") or rel.startswith("tests/"):
            continue
        if re.search(rb"^\s*int\s+main\s*\(", _read(p), re.M):
            mains.append(rel)
        else:
            lib.append(rel)
    return lib, mains


def headers_hash():
    h = hashlib.sha256()
    for pat in ("/**/*.hh", "/**/*.hpp", "/**/*.h"):
        for p in sorted(glob.glob(CXX + pat, recursive=True)):
            h.update(p.encode()); h.update(_read(p))
    for p in sorted(glob.glob(VERIF + "/harness/*.hh")):
        h.update(p.encode()); h.update(_read(p))
    return h.hexdigest()


def compile_all(jobs, hh, log):
    """jobs: list of (source path, variant, extra flags). Returns objects."""
    cxx = compiler()
    os.makedirs(BUILD + "/obj", exist_ok=True)
    out, todo = [], []
    for src, variant, extra in jobs:
        flags = COMMON + VARIANTS[variant] + ["-iquote", CXX, "-iquote", VERIF + "/harness"] + extra
        key = hashlib.sha256(("\0".join([cxx, src] + flags) + hh).encode() + _read(src)).hexdigest()[:24]
        obj = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(src).replace(".", "_"), key)
        out.append(obj)
        if not os.path.exists(obj):
            todo.append((src, flags, obj))

    def rank(j):
        rel = os.path.relpath(j[0], CXX)
        if j[0].startswith(VERIF):
            return -1
        return SLOW.index(rel) if rel in SLOW else len(SLOW)
    todo.sort(key=rank)

    def one(j):
        src, flags, obj = j
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([cxx] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            t = r.stdout.decode(errors="replace")
            e = [l for l in t.splitlines() if ": error:" in l or ": fatal" in l]
            return src, "\n".join(e)[:2500] or t[-2500:]
        os.rename(tmp, obj)
        return None
    if todo:
        with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            errs = [e for e in ex.map(one, todo) if e]
        if errs:
            raise BuildError("\n".join("%s:\n%s" % e for e in errs)[:6000])
    return out


def link(objs, out, variant):
    key = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:16]
    exe = "%s-%s" % (out, key)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".%d.tmp" % os.getpid()
    r = subprocess.run([compiler()] + VARIANTS[variant] + objs + ["-o", tmp, "-lpthread"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode(errors="replace")[-3000:])
    os.rename(tmp, exe)
    return exe


def build(harness, variant="san", sources=None, main=None, extra=()):
    """Build /verif/harness/<harness> (or the repo main `main`) against the tree.
    sources: glob patterns (relative to cxx/) of the sources it needs; when the
    link shows that more is needed, everything is compiled."""
    hh = headers_hash()
    lib, mains = repo_sources()

    def pick(pats):
        if pats is None:
            return lib
        import fnmatch
        return [s for s in lib if any(fnmatch.fnmatch(s, p) for p in pats)]
    os.makedirs(BUILD + "/bin", exist_ok=True)
    top = (VERIF + "/harness/" + harness) if harness else (CXX + "/" + main)
    name = os.path.basename(top).rsplit(".", 1)[0]
    attempts = [sources, None] if sources is not None else [None]
    err = None
    for pats in attempts:
        jobs = [(top, variant, list(extra))] + [(CXX + "/" + s, variant, []) for s in pick(pats)]
        objs = compile_all(jobs, hh, None)
        try:
            return link(objs, "%s/bin/%s-%s" % (BUILD, name, variant), variant)
        except BuildError as e:
            err = e
    raise err
