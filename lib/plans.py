"""What each property's check runs."""
import vf

DIST = ["distributions/*.cc", "emissions/*.cc", "util_math.cc", "util_parse.cc", "util_observation*"]


def limit(tier, q=300, t=1500):
    return q if tier == "quick" else t


def real_scores(res, least=10, share=0.002):
    n, off = res.counts.get("real_scores_compared", 0), res.counts.get("real_scores_off", 0)
    if off > least and off > share * n:
        res.violation("model:real-cluster-scores", msg="%d of %d scores of clusters of real numbers differ from rebuilt ones" % (off, n))


def simple(harness, sources, variant="san", q=300, t=1500):
    def run(res, prop, tier, seed, work, run_harness):
        exe = vf.build(harness, variant, sources)
        run_harness(res, exe, prop, tier, seed, work, limit(tier, q, t))
        real_scores(res)
    return run


PLANS = {}


def plan(ids, rule, run, assumptions=()):
    for i in ids:
        PLANS[i] = dict(rule=rule, run=run, assumptions=list(assumptions))


plan(["C01", "C02", "C03", "C04", "C05", "C06"],
     "each case draws a model, hyperparameters and a value history from the seed; non-trivial when it holds at least two "
     "values (C03-C06: a concrete trained state), distinct by model, hyperparameters and history",
     simple("dist.cc", DIST))

MODEL_RULE = ("each case draws a schema, observations and a history of operations from the seed; non-trivial when at "
              "least two observations (items) are held, distinct by schema, data and operations")
plan(["C07", "C08", "C09", "C10", "C12", "C13", "C14", "C15"], MODEL_RULE, simple("model.cc", None))


def inference(res, prop, tier, seed, work, run_harness):
    simple("model.cc", None)(res, prop, tier, seed, work, run_harness)
    exe = vf.build("model.cc", "sanrel", None)
    run_harness(res, exe, prop, tier, seed, work, limit(tier, 120, 600), only="inference_keeps_data_apportion", tag="r")
    exe = vf.build("io.cc", "san", None)
    run_harness(res, exe, prop, tier, seed, work, limit(tier, 150, 900), tag="io")


plan(["C11"], MODEL_RULE, inference)

plan(["C24"], "each case draws two strings, k and a step cost from the seed; distinct by strings, k and cost",
     simple("util.cc", ["emissions/string_alignment.cc", "util_math.cc"]))
plan(["C25"], "each case draws weights (or grid ends, lists, arguments) from the seed; distinct by these values",
     simple("util.cc", ["emissions/string_alignment.cc", "util_math.cc"]))

plan(["C21"], "each case draws a class schema, query and emission options from the seed; distinct by these", simple("gendb.cc", None))


def gendb(res, prop, tier, seed, work, run_harness):
    simple("gendb.cc", None)(res, prop, tier, seed, work, run_harness)
    exe = vf.build("gendb.cc", "rel", None)
    run_harness(res, exe, prop, tier, seed, work, limit(tier, 200, 900), tag="r",
                only={"C22": "integrity_drifting", "C23": "cells_drifting"}[prop])
    real_scores(res, 100, 0.01)


plan(["C22", "C23"], "each case draws a class schema, query, rows and a history of insertions, entity moves and inference from the "
     "seed; distinct by schema and history", gendb)

plan(["C27", "C28"], "each case draws a schema, observations, a partition of relations into views and of entities into clusters from the "
     "seed, and repeats one move from that state; distinct by schema, data, partition and what is moved", simple("moves.cc", None))

plan(["C29"], "each case draws a class schema, query, rows, earlier moves and one reference from the seed, and repeats its move from that "
     "state; distinct by schema, rows and reference", simple("gendb.cc", None, "fast"))

plan(["C16"], "each case draws a schema (or a mutated one) and a formatting of it from the seed; distinct by its tokens", simple("io.cc", None))
plan(["C17"], "each case draws a schema and a data file from the seed; distinct by schema and rows", simple("io.cc", None))
plan(["C18"], "each case draws a schema, data, and a number of inference steps from the seed; distinct by schema and data", simple("io.cc", None))


def programs(res, prop, tier, seed, work, run_harness):
    import os
    for variant, scale in (("san", 1.0), ("sanrel", 0.5)):
        os.environ["VF_HIRM"] = vf.build(None, variant, None, main="hirm_main.cc")
        os.environ["VF_PCLEAN"] = vf.build(None, variant, None, main="pclean/pclean.cc")
        exe = vf.build("cli.cc", variant, None)
        run_harness(res, exe, prop, tier, seed + (variant == "sanrel") * 7919, work, limit(tier, 250, 1500), tag=variant, scale=scale)


plan(["C19"], "each case draws valid files and mutates the bytes of one from the seed; distinct by the mutated bytes", programs)
plan(["C20"], "each case draws valid files and options from the seed; distinct by files and options", programs)


def python_tools(res, prop, tier, seed, work, run_harness):
    import os
    os.environ["VF_HIRM"] = vf.build(None, "rel", None, main="hirm_main.cc")
    os.environ["VF_REPO"] = os.path.dirname(vf.CXX)
    run_harness(res, os.path.join(vf.VERIF, "harness", "tools_py.py"), prop, tier, seed, work, limit(tier, 200, 1200))


plan(["C26"], "each case draws schema, observation or cluster files (or whole data sets clustered by the native program) from the seed; "
     "distinct by the files' text", python_tools)

NOTE = ("Says: no violation in the executions generated on this run (counts in the evidence file). Trusts: the oracles and "
        "reference models in /verif/harness, the sanitizer runtimes, and that behaviour outside the generated ranges is alike.")
