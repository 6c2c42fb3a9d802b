#!/usr/bin/python3 -B
"""C26: monitors for the Python tools.  Takes the options and writes the logs of
the C++ harnesses (mon.hh): random files in, the tools' answers and the figures
they draw compared with what the files say."""
import hashlib
import io
import multiprocessing
import os
import random
import re
import subprocess
import sys
import time
import traceback

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "agg")
os.environ["OPENBLAS_NUM_THREADS"] = "1"
REPO = os.environ.get("VF_REPO", "/repo")
PY = REPO + "/py"
FAMILIES = {}
NUMERIC = ("bernoulli", "normal", "categorical", "skellam")


def family(quick, thorough):
    def add(fn):
        FAMILIES[fn.__name__] = (fn, quick, thorough)
        return fn
    return add


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(key)
        self.key, self.msg = key, msg


class Ctx:
    def __init__(self, rng, tmp):
        self.rng, self.tmp, self.counts, self.desc, self.sign = rng, tmp, {}, "", None

    def coin(self, p=0.5):
        return self.rng.random() < p

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def check(self, ok, key, msg):
        self.count("oracle_checks")
        if not ok:
            raise Violation(key, msg)

    def sig(self, s):
        self.desc = s
        self.sign = hashlib.sha256(s.encode()).hexdigest()[:16]


# ------------------------------------------------------------- generators
def ident(c, taken):
    while True:
        s = c.rng.choice("abcRSTxyz_ABC") + "".join(c.rng.choice("abxyzRS_019") for _ in range(c.rng.randint(0, 5)))
        if c.coin(0.15):
            s = c.rng.choice(["irm", "irm0", "irms", "irm_x", "hirm", "nan", "inf", "None", "true", "domain", "relation", "x" * 40])
        if s not in taken:
            taken.add(s)
            return s


def entity(c, taken):
    odd = ["0", "-1", "a.b", "#x", '"q"', "it's", "\u00e9t\u00e9", "1e5", "irm=0", "$x$", "$a", "$%^$", "_under", "\\alpha", "~", "nan", "x=y;z"]
    while True:
        s = c.rng.choice(odd) if c.coin(0.2) else "".join(chr(c.rng.randint(33, 126)) for _ in range(c.rng.randint(1, 5))).replace(",", "_")
        if s not in taken:
            taken.add(s)
            return s


class Rel:
    def __init__(self, name, dist, params, doms, base=None, depth=0):
        self.name, self.dist, self.params, self.doms, self.base, self.depth = name, dist, params, doms, base, depth


def quoted(c, s):
    q = "'" if '"' in s else '"' if "'" in s else c.rng.choice("'\"")
    return q + s + q


def blanks(c, plain):
    return "" if plain else c.rng.choice(["", "", "", " ", "  ", "\t"])


def comment(c):
    return c.rng.choice(["#", "# note", "#a ~ bernoulli(D)", "# \"unclosed", "## 'x' ~"])


def decl(c, r, plain):
    b = lambda: blanks(c, plain)
    s = b() + r.name + b() + "~" + b() + r.dist + b()
    if r.params:
        s += "[" + ",".join(b() + k + b() + "=" + b() + v + b() for k, v in r.params.items()) + "]" + b()
    s += "(" + b()
    if r.base:
        s += r.base + b() + ";" + b()
    s += ("," if plain else b() + "," + b()).join(r.doms) + b() + ")" + b()
    if not plain and c.coin(0.2):
        s += comment(c)
    return s + "\n"


def schema_text(c, rels, plain=False):
    t = ""
    for r in rels:
        while not plain and c.coin(0.2):
            t += c.rng.choice(["\n", "  \n", "\t" + comment(c) + "\n", comment(c) + "\n"])
        t += decl(c, r, plain)
    while not plain and c.coin(0.2):
        t += c.rng.choice(["\n", "  \n", comment(c) + "\n"])
    return t if plain or c.coin(0.8) else t.rstrip("\n")


@family(600, 20000)
def schema_reader(c):
    import hirm_io
    names = set()
    doms = [ident(c, set()) for _ in range(c.rng.randint(1, 3))]
    rels = []
    for _ in range(c.rng.randint(1, 8)):
        base = c.rng.choice(rels) if rels and c.coin(0.3) else None
        dist = c.rng.choice(["sometimes_bitflip", "simple_string", "gaussian", "sometimes_categorical"] if base else
                            ["bernoulli", "normal", "categorical", "stringcat", "bigram", "skellam", "string_nat"])
        params = {}
        if "categorical" in dist:
            params["k"] = str(c.rng.randint(2, 9))
        if dist == "stringcat":
            txt = "".join(c.rng.choice("abc ,()[]=~#;.x'") for _ in range(c.rng.randint(0, 10)))
            params["strings"] = quoted(c, txt)
            if c.coin(0.3):
                params["delim"] = quoted(c, c.rng.choice([",", " ", ";"]))
        if dist in ("bigram", "string_nat") and c.coin():
            params["maxlength"] = str(c.rng.randint(1, 99))
        ds = (list(base.doms) if base else []) + [c.rng.choice(doms) for _ in range(c.rng.randint(0 if base else 1, 2 if base else 3))]
        rels.append(Rel(ident(c, names), dist, params, ds, base.name if base else None))
    text = schema_text(c, rels, c.coin(0.2))
    c.sig(text)
    path = c.tmp + "/x.schema"
    open(path, "w").write(text)
    got = hirm_io.load_schema(path)
    c.check(list(got) == [r.name for r in rels], "schema:relations", "relations %s read from %s" % (list(got), text))
    for r in rels:
        g = got[r.name]
        c.check((g.name, g.distribution) == (r.name, r.dist), "schema:distribution", "%s from %s" % (g, text))
        c.check(dict(g.parameters) == r.params, "schema:parameters", "%s instead of %s from %s" % (g.parameters, r.params, text))
        c.check(list(g.domains) == r.doms, "schema:domains", "%s instead of %s from %s" % (g.domains, r.doms, text))


@family(400, 10000)
def observation_reader(c):
    import hirm_io
    rows = []
    for _ in range(c.rng.randint(1, 20)):
        value = c.rng.choice(["0", "1", "-2", "1.5", "1e-3", "", "abc", " x", "a b"])
        items = [entity(c, set()) + c.rng.choice(["", "", "", " ", " y"]) for _ in range(c.rng.randint(1, 3))]
        rows.append((value, ident(c, set()), items))
    text = "".join(",".join([v, r] + it) + "\n" for v, r, it in rows)
    if c.coin(0.2):
        text = text[:-1]
    c.sig(text)
    path = c.tmp + "/x.obs"
    open(path, "w").write(text)
    got = [(o.value, o.relation, list(o.items)) for o in hirm_io.load_observations(path)]
    c.check(got == rows, "observations", "%s read from %s" % (got, text))
    c.count("rows_compared", len(rows))


def gen_clusters(c, single=False):
    """Clusters as (id, relations, [(domain, cluster, entities)])."""
    out, names = [], set()
    ids = c.rng.sample(range(30), c.rng.randint(1, 4))
    for i in ids:
        parts = []
        for d in c.rng.sample(["Da", "animal", "Zed", "irm", "irm_x"], 1 if single else c.rng.randint(1, 3)):
            taken = set()
            for k in c.rng.sample(range(20), c.rng.randint(1, 4)):
                parts.append((d, str(k), [entity(c, taken) for _ in range(c.rng.randint(1, 5))]))
        if c.coin(0.3):
            c.rng.shuffle(parts)  # clusters of one domain need not be together
        if not single and c.coin(0.05):
            parts = []
        out.append((str(i), [ident(c, names) for _ in range(c.rng.randint(1, 4))], parts))
    return out


def clusters_text(c, cl):
    t = "".join(" ".join([i] + r) + "\n" for i, r, _ in cl)
    order = list(cl)
    if c.coin(0.3):
        c.rng.shuffle(order)
    for i, _, parts in order:
        t += "\nirm=" + i + "\n" + "".join(" ".join([d, k] + es) + "\n" for d, k, es in parts)
    return t


@family(400, 10000)
def cluster_reader(c):
    import hirm_io
    cl = gen_clusters(c)
    text = clusters_text(c, cl)
    c.sig(text)
    path = c.tmp + "/x.hirm"
    open(path, "w").write(text)
    got = [(x.cluster_id, list(x.relations), [(d.domain, d.cluster_id, list(d.entities)) for d in x.domain_clusters]) for x in hirm_io.load_clusters(path)]
    c.check(got == cl, "clusters", "%s read from %s" % (got, text))
    c.count("clusters_compared", sum(len(p) for _, _, p in cl))


def as_cluster(cl):
    import hirm_io
    i, rels, parts = cl
    return hirm_io.Cluster(cluster_id=i, relations=rels, domain_clusters=[hirm_io.DomainCluster(cluster_id=k, domain=d, entities=es) for d, k, es in parts])


def blocks_of(labels, cuts):
    out, a = [], 0
    for b in list(cuts) + [len(labels)]:
        out.append(labels[a:b])
        a = b
    return out


@family(500, 10000)
def entity_order(c):
    import visualize
    cl = gen_clusters(c)
    c.sig(repr(cl))
    for one in cl:
        x = as_cluster(one)
        want = {}
        for d, k, es in one[2]:
            want.setdefault(d, []).append(frozenset(es))
        if one[2]:
            names, big, small = visualize.get_all_entities(x)
            c.check(sorted(names) == sorted(e for _, _, es in one[2] for e in es), "order:entities", "%s for %s" % (names, one))
            cuts = sorted(list(big) + list(small))
            c.check(len(set(cuts)) == len(cuts) and all(0 < n < len(names) for n in cuts), "order:dividers", "%s %s for %s" % (big, small, one))
            got = blocks_of(names, cuts)
            c.check(sorted(map(sorted, got)) == sorted(map(sorted, [s for v in want.values() for s in v])), "order:dividers",
                    "blocks %s for %s" % (got, one))
            sections = [sorted(b) for b in blocks_of(names, sorted(big))]
            c.check(sorted(sections) == sorted(sorted(e for s in v for e in s) for v in want.values()), "order:domains", "domains %s for %s" % (sections, one))
        for d in list(want) + ["none"]:
            names, cuts = visualize.get_all_entities_for_domain(x, d)
            c.check(list(cuts) == sorted(set(cuts)) and all(0 < n < len(names) for n in cuts), "order:dividers", "%s for %s of %s" % (cuts, d, one))
            got = blocks_of(names, cuts) if names else []
            c.check(sorted(map(sorted, got)) == sorted(map(sorted, want.get(d, []))), "order:domain_blocks", "blocks %s of %s for %s" % (got, d, one))
            c.count("orders_compared")


def value(c, dist, k=3):
    if dist == "bernoulli":
        return c.rng.choice("01")
    if dist == "categorical":
        return str(c.rng.randint(0, k - 1))
    if dist == "skellam":
        return str(c.rng.randint(-4, 4))
    return c.rng.choice(["%.3f", "%.17g", "%.2e"]) % c.rng.gauss(0, 2)


@family(400, 10000)
def matrices(c):
    import hirm_io
    import numpy as np
    import visualize
    taken = set()
    es = [entity(c, taken) for _ in range(c.rng.randint(1, 8))]
    rels = [ident(c, taken) for _ in range(c.rng.randint(1, 5))]
    kept, cells, obs = rels[:c.rng.randint(1, len(rels))], {}, []
    for r in rels:
        for e in es:
            if c.coin(0.6):
                v = value(c, c.rng.choice(NUMERIC))
                cells[r, e] = float(v)
                obs.append(hirm_io.Observation(relation=r, value=v, items=[e]))
    c.rng.shuffle(obs)
    c.rng.shuffle(kept)
    c.sig(repr((es, kept, obs)))
    m = visualize.make_unary_matrix(obs, es, kept)
    c.check(m.shape == (len(es), len(kept)), "matrix:shape", repr(m.shape))
    for i, e in enumerate(es):
        for j, r in enumerate(kept):
            w = cells.get((r, e))
            c.check(np.isnan(m[i][j]) if w is None else m[i][j] == w, "matrix:unary", "%s at %s %s instead of %s" % (m[i][j], r, e, w))
    fs = [entity(c, taken) for _ in range(c.rng.randint(1, 8))] if c.coin() else es
    cells, obs = {}, []
    for e in es:
        for f in fs:
            if c.coin(0.5):
                v = value(c, "normal")
                cells[e, f] = float(v)
                obs.append(hirm_io.Observation(relation="r", value=v, items=[e, f]))
    c.rng.shuffle(obs)
    m = visualize.make_binary_matrix(obs, es, fs)
    c.check(m.shape == (len(es), len(fs)), "matrix:shape", repr(m.shape))
    for i, e in enumerate(es):
        for j, f in enumerate(fs):
            w = cells.get((e, f))
            c.check(np.isnan(m[i][j]) if w is None else m[i][j] == w, "matrix:binary", "%s at %s,%s instead of %s" % (m[i][j], e, f, w))
    c.count("cells_compared", len(es) * (len(kept) + len(fs)))
    # unary, binary and other observations
    obs = []
    for _ in range(c.rng.randint(0, 20)):
        n = c.rng.randint(1, 4)
        obs.append(hirm_io.Observation(relation="R%d_%d" % (n, c.rng.randint(0, 2)), value="1", items=[c.rng.choice(es) for _ in range(n)]))
    one, two = visualize.collate_observations(obs)
    c.check(list(one) == [o for o in obs if len(o.items) == 1], "collate", "unary %s of %s" % (one, obs))
    c.check({r: list(v) for r, v in two.items()} == {r: [o for o in obs if o.relation == r] for r in {o.relation for o in obs if len(o.items) == 2}},
            "collate", "binary %s of %s" % (dict(two), obs))


# ---------------------------------------------------------------- figures
def picture(fig):
    """What a figure shows: labels of rows and columns, lines, cells."""
    import numpy as np
    ax = fig.axes[0]
    a = ax.images[0].get_array()
    cells = np.ma.filled(np.ma.masked_invalid(np.asarray(a, dtype=float)), np.nan)
    if np.ma.isMaskedArray(a):
        cells = np.where(np.ma.getmaskarray(a), np.nan, np.asarray(a.data, dtype=float))
    ys, xs = set(), set()
    for l in ax.lines:
        x, y = list(l.get_xdata()), list(l.get_ydata())
        if y[0] == y[-1]:
            ys.add(y[0] + 0.5)
        else:
            xs.add(x[0] + 0.5)
    lab = lambda axis: dict(zip([round(float(v), 6) for v in axis.get_ticklocs()], [t.get_text() for t in axis.get_ticklabels()]))
    yl, xl = lab(ax.yaxis), lab(ax.xaxis)
    n, m = cells.shape
    return [yl.get(i) for i in range(n)], [xl.get(i) for i in range(m)], ys, xs, cells


def same(a, b):
    return a == b or (a != a and b != b)


def check_unary(c, pic, cl, cells, doms, where):
    import math
    rows, cols, ys, xs, m = pic
    i, rels, parts = cl
    c.check(sorted(cols) == sorted(rels), "plot:columns", "%s for relations %s | %s" % (cols, rels, where))
    c.check(not xs, "plot:lines", "columns are divided | " + where)
    cuts = sorted(ys)
    c.check(all(n == int(n) and 0 < n < len(rows) for n in cuts), "plot:lines", "lines at %s of %d rows | %s" % (cuts, len(rows), where))
    blocks = blocks_of(rows, [int(n) for n in cuts])
    c.check(sorted(map(sorted, blocks)) == sorted(sorted(es) for _, _, es in parts), "plot:blocks", "blocks %s for %s | %s" % (blocks, parts, where))
    at = [0]
    for b in blocks:
        at.append(at[-1] + len(b))

    def fits(b, d):
        for y in range(at[b], at[b + 1]):
            for x, r in enumerate(cols):
                w = cells.get((r, rows[y]), math.nan) if doms.get(r) == [d] else math.nan
                if not same(m[y][x], w):
                    return False
        return True

    # Which cluster each block is: names alone may leave it open.
    def assign(b, left, seen):
        if b == len(blocks):
            return True
        for k in range(len(left)):
            d, _, es = left[k]
            if sorted(es) != sorted(blocks[b]):
                continue
            if d in seen and seen[-1] != d:
                continue  # a domain's blocks are together
            if fits(b, d) and assign(b + 1, left[:k] + left[k + 1:], seen + [d]):
                return True
        return False

    c.check(assign(0, list(parts), []), "plot:unary_cells", "no reading of the rows fits: %s %s %s | %s" % (rows, cols, m.tolist(), where))
    c.count("plotted_cells", m.size)
    c.count("plots_compared")


def check_binary(c, pic, cl, rel, doms, cells, where):
    import math
    rows, cols, ys, xs, m = pic
    for labels, cuts, d, name in ((rows, sorted(ys), doms[0], "rows"), (cols, sorted(xs), doms[1], "columns")):
        c.check(all(n == int(n) and 0 < n < len(labels) for n in cuts), "plot:lines", "lines at %s of %d %s | %s" % (cuts, len(labels), name, where))
        blocks = blocks_of(labels, [int(n) for n in cuts])
        want = [sorted(es) for dd, _, es in cl[2] if dd == d]
        c.check(sorted(map(sorted, blocks)) == sorted(want), "plot:blocks", "blocks %s of %s for %s | %s" % (blocks, name, want, where))
    for y, e in enumerate(rows):
        for x, f in enumerate(cols):
            c.check(same(m[y][x], cells.get((rel, e, f), math.nan)), "plot:binary_cells",
                    "%s at %s,%s instead of %s | %s" % (m[y][x], e, f, cells.get((rel, e, f)), where))
    c.count("plotted_cells", m.size)
    c.count("plots_compared")


class Recorder:
    """Stands in for writing figures to files and keeps what they show."""
    def __enter__(self):
        import matplotlib.figure
        self.cls, self.old, self.pics = matplotlib.figure.Figure, matplotlib.figure.Figure.savefig, []

        def savefig(fig, out, *a, **k):
            self.pics.append(picture(fig))
            if len(self.pics) == 1:  # the real thing now and then
                return self.old(fig, out, *a, **k)
            if hasattr(out, "write"):
                out.write(b"png")
        self.cls.savefig = savefig
        return self

    def __exit__(self, *a):
        self.cls.savefig = self.old


def gen_data(c, single):
    doms = ["Da"] if single else c.rng.sample(["Da", "animal", "Zed"], c.rng.randint(1, 3))
    pool, ents = set(), {}
    for d in doms:
        taken = set()
        ents[d] = [entity(c, taken) for _ in range(c.rng.randint(1, 6))]
        if pool and c.coin(0.4):  # a name of another domain
            s = c.rng.choice(sorted(pool))
            if s not in ents[d]:
                ents[d][0] = s
        pool |= set(ents[d])
    names, rels = set(), []
    for _ in range(c.rng.randint(1, 5)):
        d = c.rng.choice(NUMERIC)
        rels.append(Rel(ident(c, names), d, {"k": "3"} if d == "categorical" else {}, [c.rng.choice(doms) for _ in range(c.rng.choice([1, 1, 2, 2, 3]))]))
    hidden = set()
    for r in list(rels):
        if r.dist in ("bernoulli", "normal") and c.coin(0.25):
            extra = [c.rng.choice(doms)] if len(r.doms) < 2 and c.coin(0.4) else []
            rels.append(Rel(ident(c, names), "sometimes_bitflip" if r.dist == "bernoulli" else "gaussian", {}, r.doms + extra, r.name))
            hidden.add(r.name)
    rows = {}
    for r in rels:
        if r.name in hidden:
            continue
        dist = {"sometimes_bitflip": "bernoulli", "gaussian": "normal"}.get(r.dist, r.dist)
        for _ in range(c.rng.randint(1, 10)):
            items = tuple(c.rng.choice(ents[d]) for d in r.doms)
            rows.setdefault((r.name,) + items, value(c, dist))
    lines = list(rows.items())
    c.rng.shuffle(lines)
    return rels, lines


def end_to_end(c, single, cli):
    rels, lines = gen_data(c, single)
    schema, obs = schema_text(c, rels), "".join(",".join([v] + list(k)) + "\n" for k, v in lines)
    where = schema + "||" + obs
    c.sig(where)
    base = c.tmp + "/x"
    open(base + ".schema", "w").write(schema)
    open(base + ".obs", "w").write(obs)
    seed = c.rng.randint(0, 999)
    p = subprocess.run([os.environ["VF_HIRM"], "--mode=hirm", "--seed=%d" % seed, "--iters=%d" % c.rng.randint(0, 4), base], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    c.check(p.returncode == 0, "native_failed", p.stdout.decode(errors="replace")[-400:] + where)
    saved = base + ".%d.hirm" % seed
    text = open(saved).read()
    # the file as it is, read independently
    cl, cur = [], None
    head, *rest = text.split("\n\n")
    rel_of = {l.split(" ")[0]: [x for x in l.split(" ")[1:] if x] for l in head.split("\n") if l}
    parts_of = {}
    for l in "\n".join(rest).split("\n"):
        if l.startswith("irm=") and " " not in l:
            cur = l[4:]
            parts_of[cur] = []
        elif l:
            f = [x for x in l.split(" ") if x]
            parts_of[cur].append((f[0], f[1], f[2:]))
    cl = [(i, r, parts_of[i]) for i, r in rel_of.items()]
    doms = {r.name: r.doms for r in rels}
    cells = {k: float(v) for k, v in lines}
    import hirm_io
    import visualize
    use_schema = not single or c.coin()
    s = hirm_io.load_schema(base + ".schema") if use_schema else None
    o, k = hirm_io.load_observations(base + ".obs"), hirm_io.load_clusters(saved)
    got = [(x.cluster_id, list(x.relations), [(d.domain, d.cluster_id, list(d.entities)) for d in x.domain_clusters]) for x in k]
    c.check(got == cl, "clusters", "%s read from %s" % (got, text))
    seen = {r for r, *_ in cells}
    want = 0
    for x, one in zip(k, cl):
        one_un = [r for r in one[1] if len(doms[r]) == 1 and r in seen]
        one_bi = [r for r in one[1] if len(doms[r]) == 2 and r in seen]
        want += bool(one_un) + len(one_bi)
        with Recorder() as rec:
            html = visualize.html_for_cluster(x, s, o, k)
        n = (1 if one_un else 0) + len(one_bi)
        c.check(len(rec.pics) == n and html.count("<img ") == n, "plot:number", "%d figures, %d expected for %s | %s" % (len(rec.pics), n, one, where))
        if one_un:
            check_unary(c, rec.pics[0], one, cells, doms, where + repr(one))
        # binary relations, under their names
        shown = re.findall(r"<h2>(.*?)</h2>", html)
        c.check(sorted(shown) == sorted(one_bi), "plot:headings", "%s for %s | %s" % (shown, one_bi, where))
        for r, pic in zip(shown, rec.pics[1 if one_un else 0:]):
            check_binary(c, pic, one, r, doms[r], cells, where + repr(one))
    import matplotlib.pyplot as plt
    c.check(not plt.get_fignums(), "plot:left_open", "figures are left open")
    if cli:
        out = c.tmp + "/out.html"
        if os.path.exists(out):
            os.remove(out)
        args = ["/usr/bin/python3", "-B", PY + "/make_plots.py", "--observations=" + base + ".obs", "--clusters=" + saved, "--output=" + out]
        if use_schema:
            args.append("--schema=" + base + ".schema")
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        c.check(p.returncode == 0, "make_plots_failed", p.stdout.decode(errors="replace")[-600:] + where)
        html = open(out).read()
        c.check(re.findall(r"<h1>IRM #(\d+)</h1>", html) == [i for i, _, _ in cl], "html:clusters", html[:300] + where)
        c.check(html.count("<img ") == want, "html:images", "%d images, %d expected | %s" % (html.count("<img "), want, where))
        c.count("pages_written")


@family(160, 3000)
def plots_one_domain(c):
    end_to_end(c, True, False)


@family(240, 4000)
def plots_many_domains(c):
    end_to_end(c, False, False)


@family(24, 300)
def command_line(c):
    end_to_end(c, c.coin(), True)


# ------------------------------------------------------------------ runner
def clean(s):
    return "".join(ch if 32 <= ord(ch) < 127 else "?" for ch in s)[:1500]


def run_case(name, idx, seed, tmp):
    c = Ctx(random.Random("%s/%d/%d" % (name, seed, idx)), tmp)
    status = key = msg = ""
    try:
        FAMILIES[name][0](c)
        status = "ok"
    except Violation as v:
        status, key, msg = "viol", v.key, v.msg
    except SystemExit as e:
        status, key, msg = "viol", "stopped", "the tool exited (%s) on %s" % (e.code, c.desc)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        status, key = "viol", "exception:%s:%s" % (type(e).__name__, tb.name)
        msg = traceback.format_exc()[-500:] + c.desc
    cnt = ",".join("%s=%d" % kv for kv in c.counts.items())
    return "\t".join([status, name, str(idx), c.sign or "0", "1" if c.sign else "0", cnt, clean(key), clean(msg),
                      clean(c.desc) if status != "ok" or idx < 3 else ""])


def work(w, out, sel, seed, nxt, deadline):
    sys.path.insert(0, PY)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    tmp = out + "/scratch%d" % w
    os.makedirs(tmp, exist_ok=True)
    os.environ["MPLCONFIGDIR"] = out + "/mpl"
    with open(out + "/w%d.log" % w, "w") as log:
        for name, n in sel:
            while time.time() < deadline:
                with nxt[name].get_lock():
                    i = nxt[name].value
                    nxt[name].value += 1
                if i >= n:
                    break
                log.write(run_case(name, i, seed, tmp) + "\n")
                log.flush()


def main():
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    seed, tier, scale = int(a.get("--seed", 1)), a.get("--tier", "quick"), float(a.get("--scale", 1))
    only = a.get("--family")
    if "--case" in a:
        import tempfile
        sys.path.insert(0, PY)
        with tempfile.TemporaryDirectory() as t:
            print(run_case(only, int(a["--case"]), seed, t))
        return
    sel = [(n, max(1, int((q if tier == "quick" else t) * scale))) for n, (_, q, t) in FAMILIES.items() if only in (None, n)]
    sel.sort(key=lambda s: not s[0].startswith(("plots", "command")))
    out = a["--out"]
    with open(out + "/families.tsv", "w") as f:
        f.writelines("%s\t%d\n" % s for s in sel)
    open(out + "/crashes.tsv", "w").close()
    os.makedirs(out + "/mpl", exist_ok=True)
    nxt = {n: multiprocessing.Value("l", 0) for n, _ in sel}
    deadline = time.time() + float(a.get("--limit", 400))
    ps = [multiprocessing.Process(target=work, args=(w, out, sel, seed, nxt, deadline)) for w in range(os.cpu_count())]
    for p in ps:
        p.start()
    for p in ps:
        p.join()
    if any(p.exitcode for p in ps):
        sys.exit("a worker failed")


if __name__ == "__main__":
    main()
