#!/usr/bin/python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["hook_needed"] = None
    P.append(d)

D = "cxx/distributions/"
EM = "cxx/emissions/"
ALLDIST = [D + f for f in ("beta_bernoulli.cc", "bigram.cc", "dirichlet_categorical.cc", "normal.cc",
           "skellam.cc", "stringcat.cc", "string_nat.hh", "zero_mean_normal.cc", "adapter.hh", "nonconjugate.hh", "get_distribution.cc")]
ALLEM = [EM + f for f in ("bigram_string.cc", "bitflip.hh", "categorical.hh", "gaussian.hh", "identity.hh",
           "simple_string.hh", "sometimes.hh", "get_emission.cc")]

prop("C01", "Predictive probability equals the change in marginal score",
  "For every value distribution with a conjugate prior and any multiset of incorporated values, the log probability it reports for a next value equals the increase of its log marginal score when that value is incorporated, and querying a probability leaves the distribution unchanged. The score of a multiset does not depend on the order in which its values were incorporated, and is zero when nothing is incorporated. Noise models under which a noisy value never has more than one explanation obey the same rule; latent-parameter models score data as the sum of per-value log probabilities.",
  ["inputs", "histories"], "all reachable hyperparameter settings, all value multisets (including empty strings, repeats, extreme magnitudes) and all incorporation orders",
  "The unit tests compare a handful of fixed numbers; the identity is over all data sets, hyperparameters and orders.",
  ALLDIST + [EM + "gaussian.hh", EM + "categorical.hh", EM + "sometimes.hh", EM + "simple_string.hh", EM + "bigram_string.cc"],
  [("conjugate predictive and marginal formulas", D + "*.cc logp / logp_score")],
  ["logp(x), logp_score() around incorporate()"])

prop("C02", "Removing a value restores the distribution exactly",
  "For every value distribution and noise model, removing previously incorporated values, in any order and interleaving, leaves the same state as if only the surviving values had ever been incorporated: same count, same marginal score and same predictive probabilities up to rounding. Removing everything gives back the prior. For noise models that apportion a value between several explanations, removing a value undoes exactly what adding it did.",
  ["histories", "inputs"], "all sequences of incorporate and remove calls in which every removed value is present",
  "Tests remove one or two values right after adding them; inference performs millions of interleaved removals, where drift or mis-accounting accumulates.",
  ALLDIST + ALLEM, [("incorporate(x, -1)", D + "base.hh unincorporate"), ("streaming mean/variance update", D + "normal.cc incorporate")],
  ["N, logp_score(), logp(x) after a history versus a freshly built twin"])

prop("C03", "Reported probabilities form a normalised distribution",
  "For every value distribution, after any history of data and hyperparameter updates, the reported probabilities of all possible next values are non-negative and sum (or integrate) to one (for string models with a maximum length, to at most one over the strings within it); a discrete probability never exceeds one and a value outside the support never receives positive probability. For every noise model whose noisy outcomes can be enumerated, the probabilities of all noisy outcomes given a clean value likewise sum to one.",
  ["inputs", "histories"], "all reachable distribution states and clean values",
  "Tests check single log probabilities; normalisation is a statement about the whole value space in every state.",
  ALLDIST + [EM + "bitflip.hh", EM + "categorical.hh", EM + "gaussian.hh", EM + "sometimes.hh", EM + "simple_string.hh"],
  [("normalising constants", D + "*.cc logp")], ["sum/quadrature of exp(logp(x))"])

prop("C04", "Sampled values follow the reported probabilities",
  "Repeated draws from any value distribution in any state occur with the frequencies given by the exponentiated log probability that the distribution reports, and drawing does not change the distribution. Drawing a corrupted version of a clean value only ever produces values the noise model can score; for noise models over bits, categories and numbers it follows the reported probability of the noisy value, and for string noise it errs at the learnt rates.",
  ["inputs", "histories", "schedules"], "all states, all seeds; decided statistically with a negligible false-alarm probability",
  "Tests draw a few samples and check ranges; agreement of the sampler with the density needs many draws in many states.",
  ALLDIST + ALLEM + ["cxx/util_math.cc"], [("sample / sample_corrupted", D + "*.cc, " + EM + "*.hh")], ["histogram of sample() versus exp(logp)"])

prop("C05", "Hyperparameter updates draw in proportion to the marginal score",
  "Every hyperparameter update picks one of a fixed finite set of settings with probability proportional to the exponentiated score of the incorporated data under that setting, for distributions, noise models and the concentration of the clustering prior. The update never changes the incorporated data: count and the score as a function of the hyperparameters stay the same. Updates of latent parameters either keep the old parameters or move to new ones according to the change in data score.",
  ["inputs", "histories", "schedules"], "all data sets incorporated before the update and all seeds",
  "Tests only check that the transition runs; the sampling law over the grid is not observable in one run.",
  ALLDIST + [EM + "sometimes.hh", EM + "categorical.hh", EM + "gaussian.hh", D + "crp.cc", "cxx/util_math.cc"],
  [("grid Gibbs step", D + "*.cc transition_hyperparameters"), ("Metropolis-Hastings step", D + "nonconjugate.hh transition_theta")],
  ["empirical frequencies of chosen settings"])

prop("C06", "Repaired and proposed clean values are always representable",
  "For every value distribution, the nearest representable value to any input has positive probability and can be incorporated, equals the input whenever the input is itself representable, and, for finite string sets, minimises edit distance. For every noise model, the clean value proposed from a non-empty list of noisy values is a value of the same kind that depends only on that list and the learnt model, and equals the common value when all noisy values agree and the model regards agreement as likeliest.",
  ["inputs", "histories"], "all inputs, including values far outside the support, and all learnt states",
  "Tests use two or three hand-picked strings; data cleaning applies the operation to every observed typo.",
  [D + "dirichlet_categorical.cc", D + "stringcat.cc", D + "string_nat.hh", D + "bigram.hh"] + ALLEM,
  [("nearest", D + "stringcat.cc nearest"), ("propose_clean", EM + "*.hh")])

prop("C07", "Clustering prior keeps an exact partition and exchangeable score",
  "After any sequence of additions, removals and sampled seatings, the clustering prior holds an exact partition: every added item sits in exactly one non-empty cluster and the count equals the number of items. The score of a partition depends only on cluster sizes and concentration, equals the sum of sequential seating log probabilities in any order, predictive seating probabilities (including a fresh cluster) sum to one, and the weights used to reseat an item equal the predictive weights after removing that item. Sampled seatings follow the predictive probabilities.",
  ["histories", "inputs", "schedules"], "all add/remove/sample histories, cluster ids and concentrations",
  "Tests walk one or two short histories; exchangeability and bookkeeping are claims about all histories.",
  [D + "crp.hh", D + "crp.cc", "cxx/domain.hh"], [("tables and assignments maps", D + "crp.cc"), ("entity set mirrored by the seating", "cxx/domain.hh")])

prop("C08", "A relation's indexes and clusters always mirror its observations",
  "After any sequence of adding, removing, updating and re-clustering observations of clean or noisy relations, exactly the observations that were added and not removed are stored with their current values; lookups by entity return exactly the observations that mention the entity; and each cluster holds exactly the observations whose entities are in it, with no empty cluster left. The model score equals that of a relation rebuilt from scratch with the same observations and entity clusters; every noisy observation is scored against the current value of the clean observation it refers to.",
  ["histories", "inputs"], "all operation histories over relations of arity 1-4, including relations that use the same domain twice and stacked noisy relations",
  "Tests run a few fixed operations; the indexes are redundant copies that inference mutates through several different code paths.",
  ["cxx/clean_relation.hh", "cxx/noisy_relation.hh", "cxx/relation.hh", "cxx/util_hash.hh"],
  [("data, reverse index and cluster maps", "cxx/clean_relation.hh"), ("base-to-noisy index and emission relation", "cxx/noisy_relation.hh")],
  ["get_data, get_data_r, clusters, logp_score after each operation"])

prop("C09", "Entity move probabilities equal the exact change in model score",
  "For any model state, any entity and any candidate cluster (existing or fresh), the relative log probabilities used to resample the entity's cluster equal the differences of the full model's score between the states in which the entity is placed in those clusters. This holds for entities that appear several times in the same observation. Computing the probabilities leaves the model unchanged.",
  ["inputs", "histories", "configurations"], "all schemas (conjugate distributions), data sets, partitions, entities and candidate clusters",
  "Tests compare a few hand-built cases, all with each entity appearing once per observation.",
  ["cxx/clean_relation.hh", "cxx/noisy_relation.hh", "cxx/irm.cc"],
  [("exact Gibbs data probabilities", "cxx/clean_relation.hh logp_gibbs_exact"), ("seating weights", D + "crp.cc tables_weights_gibbs")])

prop("C10", "Models stay structurally consistent through any inference history",
  "After any sequence of inference steps, additions and removals, the relations are partitioned into views with each relation in exactly one view, each view's entity domains are partitioned into non-empty clusters covering exactly the entities mentioned by the view's observations, and every noisy relation refers to the live copy of its clean relation. Entities whose last observation in a view is removed disappear from that view.",
  ["histories", "configurations", "schedules"], "all schemas with clean and (stacked) noisy relations, all interleavings of entity, relation, latent-value and hyperparameter updates, additions and removals",
  "Tests run one or two transitions on fixed toy models and check little of the resulting structure.",
  ["cxx/irm.cc", "cxx/hirm.cc", "cxx/inference.cc", "cxx/domain.hh"],
  [("view bookkeeping", "cxx/hirm.cc transition_cluster_assignment_relation"), ("base pointer refresh", "cxx/hirm.cc update_base_relation"), ("entity removal", "cxx/irm.cc unincorporate")])

prop("C11", "Inference never alters observed data and keeps latents complete",
  "No inference step changes, drops or duplicates an observed value: after any history, each observed relation holds exactly the observations given as input, whatever views the relations were moved between. Every noisy observation always has exactly one clean value at the corresponding entities, and an unobserved clean relation holds values for exactly the entity tuples its noisy observations need; latent values stay within the support of their distribution.",
  ["histories", "schedules", "configurations"], "all schemas with observed and latent relations, data sets, seeds and inference histories",
  "Tests check cluster counts after one transition; preservation over arbitrary histories of moves between views is never checked.",
  ["cxx/hirm.cc", "cxx/irm.cc", "cxx/transition_latent_value.hh", "cxx/util_io.cc", "cxx/noisy_relation.hh"],
  [("copy of observations into the new view", "cxx/hirm.cc"), ("latent value kernel", "cxx/transition_latent_value.hh")])

prop("C12", "Entity reassignment samples from the exact conditional distribution",
  "Resampling an entity's cluster chooses each existing cluster or a fresh one with probability proportional to the exponentiated full model score of the resulting state. Consequently repeated sweeps over a small model visit each partition of the entities with its exact posterior probability.",
  ["schedules", "inputs", "configurations"], "all seeds, small data sets with enumerable partitions and conjugate value models; decided statistically with negligible false-alarm probability",
  "Tests run a sampler and look at one end state; the law of the sampler is not observable there.",
  ["cxx/irm.cc", "cxx/clean_relation.hh", D + "crp.cc", "cxx/util_math.cc"],
  [("collapsed Gibbs kernel", "cxx/irm.cc transition_cluster_assignment_item")])

prop("C13", "Held-out log probability is the exact cluster-weighted mixture",
  "The log probability reported for held-out observations equals the mixture over the cluster seatings of previously unseen entities, weighted by their seating probabilities, of the product of the values' predictive probabilities in the resulting clusters; entities already seen use their current cluster. For a single observation it therefore sums to one over all values; a model of several views reports the sum over views; and the query does not change the model.",
  ["inputs", "histories", "configurations"], "all trained models over clean relations and all sets of distinct held-out observations (seen, unseen and mixed entities)",
  "Tests compare a few numbers on fixed toy data.",
  ["cxx/irm.cc", "cxx/hirm.cc", "cxx/clean_relation.hh", "cxx/util_io.cc", "cxx/util_math.cc"],
  [("product over seatings", "cxx/irm.cc logp")])

prop("C14", "The model score decomposes and is independent of history",
  "At any time the total score equals the clustering-prior scores of relations and of entities in each view plus the marginal score of the values in each cluster of each relation, as recomputed from the visible partitions, hyperparameters and data alone. In particular it does not depend on the order in which data was added or on moves made and undone.",
  ["histories", "configurations", "schedules"], "all schemas, data sets and inference histories",
  "Tests check the score of freshly built toy models only.",
  ["cxx/irm.cc", "cxx/hirm.cc", "cxx/clean_relation.hh", "cxx/noisy_relation.hh", D + "crp.cc", "cxx/gendb.cc"],
  [("additive score", "cxx/irm.cc logp_score, cxx/hirm.cc logp_score")])

prop("C15", "Forward sampling extends the model with consistent fresh observations",
  "Asking a model for n samples adds exactly n new, pairwise distinct observations to every relation that no other relation observes, plus exactly the clean values those need, and returns precisely what was added. Existing observations stay untouched, all structural invariants keep holding, and sampled values lie in the support of their distribution.",
  ["inputs", "histories", "configurations", "schedules"], "all schemas including stacked noisy relations, prior data, n and seeds",
  "Tests sample once from a two-relation schema.",
  ["cxx/hirm.cc", "cxx/clean_relation.hh", "cxx/noisy_relation.hh", "cxx/util_io.cc"],
  [("recursive sampling of base relations", "cxx/hirm.cc sample_and_incorporate_relation")])

prop("C16", "Schema files mean what they say, however they are formatted",
  "Parsing a well-formed schema file yields exactly the declared relations: name, clean or noisy kind, distribution with its parameters, base relation and ordered domains, independent of whitespace, comments and blank lines; nothing is added, dropped or reordered. The same holds for the data-cleaning schema language (classes, typed variables with parameters, class references, query paths and the record class). A malformed line is rejected instead of yielding a different schema.",
  ["inputs", "programs"], "all schemas expressible in the two grammars and all formattings of them",
  "Tests parse a few fixed files.",
  ["cxx/util_parse.cc", "cxx/util_io.cc", "cxx/pclean/io.cc", D + "get_distribution.cc", EM + "get_emission.cc", "cxx/pclean/get_joint_relations.cc"],
  [("tokenizer", "cxx/util_parse.cc"), ("recursive readers", "cxx/util_io.cc load_schema, cxx/pclean/io.cc")])

prop("C17", "Loading data is lossless and each cell is used exactly once",
  "Reading an observation or table file gives back exactly its rows and fields in order; translating entity names to internal codes and back is the identity and is injective per domain. Loading then incorporates each observation (each non-missing table cell) exactly once with its exact value at its own entities, skips missing cells, and writing a table or sampled observations and reading them back yields the same content.",
  ["inputs"], "all well-formed observation and table files over any schema",
  "Tests load a few fixed assets and spot-check sizes.",
  ["cxx/util_io.cc", "cxx/pclean/csv.cc", "cxx/pclean/pclean_lib.cc", "cxx/relation.hh"],
  [("encoding maps", "cxx/util_io.cc calculate_encoding"), ("row incorporation", "cxx/pclean/pclean_lib.cc incorporate_observations")])

prop("C18", "Saved models load back to the same clustering",
  "Writing a trained model to its text form and loading it again with the same schema and observations reproduces the same views, the same partition of relations into views and of entities into clusters, and the same observations; saving the loaded model again produces an equivalent file. The written file lists every relation and, per view and domain, every entity exactly once.",
  ["inputs", "histories", "configurations"], "all schemas with clean and noisy relations, data sets, and states reached by inference, for single-view and multi-view models",
  "Tests round-trip one or two assets with clean relations.",
  ["cxx/util_io.cc", "cxx/hirm.cc", "cxx/irm.cc"], [("text writer and reader", "cxx/util_io.cc to_txt / from_txt")])

prop("C19", "No input file can corrupt memory",
  "Whatever bytes are given as schema, observation, table, cluster or data-cleaning schema file, the programs either load them or stop with an ordinary error report (message and non-zero or diagnosed exit, failed check, or language exception); they never read or write out of bounds, use uninitialised or freed memory, or loop forever.",
  ["inputs"], "all byte strings for each of the five file formats, in particular truncated and mutated valid files",
  "Tests only feed well-formed files and cannot observe silent memory errors.",
  ["cxx/util_parse.cc", "cxx/util_io.cc", "cxx/pclean/io.cc", "cxx/pclean/csv.cc", "cxx/pclean/pclean_lib.cc"],
  [("token and field bounds checks", "cxx/util_io.cc, cxx/pclean/io.cc, cxx/pclean/csv.cc")])

prop("C20", "Command-line runs are safe, finite and reproducible from the seed",
  "On every well-formed schema and data set and every combination of options, both programs finish without memory errors, failed internal checks or undefined behaviour, report finite scores, and write their results where documented. Two runs with the same inputs, options and seed produce identical results, a run never modifies its inputs, and the saved clustering is an exact partition of the relations and of the entities in the data.",
  ["inputs", "configurations", "schedules"], "all valid schemas, data sets, seeds and option combinations (modes, iterations, load, samples, held-out data, entity transitions, emission layouts)",
  "The integration tests run a few fixed command lines in optimised builds and only check the exit status.",
  ["cxx/hirm_main.cc", "cxx/pclean/pclean.cc", "cxx/inference.cc", "cxx/util_io.cc", "cxx/pclean/pclean_lib.cc", "cxx/gendb.cc"],
  [("seeded generator threaded through all steps", "cxx/hirm_main.cc, cxx/pclean/pclean.cc")])

prop("C21", "Class schemas compile to the right relations over the right entities",
  "Compiling a data-cleaning schema yields one clean relation per class attribute over the class's ancestor domains ending with the class itself, and per query field a chain of noisy relations following the query path whose last member is observed under the field's name; a clean record attribute becomes the observed relation itself. Every non-primary domain of a relation is reached from the class by exactly the chain of reference fields that leads to it, so that entity tuples can be rebuilt from the primary entity alone.",
  ["programs", "configurations"], "all acyclic class schemas and queries (diamonds, repeated classes, shared ancestors) and both emission options",
  "Tests cover three hand-written schemas.",
  ["cxx/gendb.cc", "cxx/pclean/get_joint_relations.cc"],
  [("domain and reference caches", "cxx/gendb.cc compute_domains_for / compute_reference_indices_for"), ("query relations", "cxx/gendb.cc make_relations_for_queryfield")])

prop("C22", "The inferred database keeps referential integrity",
  "After any history of row insertions and entity updates, every reference of every live entity points to a live entity of the referenced class, an entity is live exactly if a row or another live entity refers to it, and the entity clustering prior counts each reference exactly once. Every stored observation's entity tuple is exactly the one obtained by following the current references from its primary entity.",
  ["histories", "configurations", "schedules"], "all class schemas, row sets (with missing cells, shared or unique entities), seeds and sequences of entity updates",
  "Tests check counts after a single transition in one schema.",
  ["cxx/gendb.cc"], [("reference table and entity clustering", "cxx/gendb.cc transition_reference"), ("reinsertion of moved rows", "cxx/gendb.cc reincorporate_new_refval")])

prop("C23", "Entity updates preserve every observed cell and the model's consistency",
  "However entities are merged, split or moved by inference, each input row keeps exactly its observed cells with their original values, cells that were missing stay unobserved, and every observed cell remains connected to a clean attribute value of the entity it currently refers to. Relations, views and clusters remain consistent with the stored observations, and the total score equals a recomputation from the visible state.",
  ["histories", "configurations", "schedules"], "all class schemas, tables and inference histories",
  "Tests compare a few totals before and after one update.",
  ["cxx/gendb.cc", "cxx/inference.cc", "cxx/hirm.cc", "cxx/pclean/pclean_lib.cc"],
  [("stored values moved between entity tuples", "cxx/gendb.cc update_reference_items / incorporate_reference")])

prop("C24", "String alignment returns the k cheapest valid alignments",
  "For any two strings, any k and any non-negative cost of single steps (each determined by the step and the place where it is taken), the aligner returns distinct alignments whose pieces spell out exactly the two strings, labels matches and substitutions correctly, reports each alignment's true accumulated cost, orders them by cost, and returns the k cheapest (all of them if there are fewer than k). With unit costs the best cost is the edit distance.",
  ["inputs"], "all string pairs including empty and repetitive ones, all k >= 1, all non-negative cost functions",
  "Tests use three short pairs.",
  [EM + "string_alignment.cc", EM + "string_alignment.hh", EM + "bigram_string.cc"],
  [("best-first search with per-position visit bound", EM + "string_alignment.cc topk_alignments")])

prop("C25", "Numeric helpers are exact and stable over the whole float range",
  "Summation in log space, normalisation, grid construction, the log beta function, cartesian products and discrete choice agree with their mathematical definitions for all finite inputs and for inputs containing negative infinities, without overflow or loss when weights are hugely different or shifted by a constant. Choosing by log weights follows the normalised weights and never returns an index of zero weight.",
  ["inputs", "schedules"], "all weight vectors (sizes 1 to many, magnitudes up to 1e5 in log space, with -inf entries) and seeds",
  "Tests check a few small vectors.",
  ["cxx/util_math.cc", "cxx/util_math.hh"], [("max-shifted log-sum-exp", "cxx/util_math.cc")])

prop("C26", "Python tools read the same files and draw the same partitions",
  "The Python companion parses schema, observation and cluster files to exactly the declared content, in agreement with the native programs, and its reordered matrix for plotting is a permutation of the observed data: each cell shows the (numeric) value of the observation at those entities or missing, rows and columns group entities by cluster, and no entity or observation is lost or invented.",
  ["inputs", "configurations"], "all well-formed schema, observation and cluster files over unary and binary relations with numeric values",
  "The Python tests read one or two fixtures.",
  ["py/hirm_io.py", "py/visualize.py", "py/make_plots.py"], [("line readers", "py/hirm_io.py"), ("matrix assembly", "py/visualize.py")])

prop("C27", "Relations move between views in proportion to the model score",
  "Resampling a relation's view chooses each existing view, or one of its own, with probability proportional to the number of other relations there (or the concentration) times the exponentiated score of the relation's data under that view's entity clusters; entities the view does not know yet are seated there by its clustering priors before the data is scored. The move carries all of the relation's data and changes nothing about the other relations.",
  ["inputs", "histories", "schedules"], "all schemas, data sets, partitions of relations and entities, concentrations and seeds",
  "The law of a move cannot be seen in one run; tests only check that the counts stay consistent.",
  ["cxx/hirm.cc", "cxx/irm.cc", "cxx/distributions/crp.cc", "cxx/domain.hh", "cxx/clean_relation.hh", "cxx/noisy_relation.hh"],
  [("auxiliary views scored side by side", "cxx/hirm.cc transition_cluster_assignment_relation"), ("seating of unknown entities", "cxx/domain.hh incorporate")])

prop("C28", "Latent values are redrawn among their proposals by the noisy data's probability",
  "Resampling a latent clean value looks at the clean values that the noise clusters propose for its noisy observations (made representable), one per cluster, and takes each with probability proportional to the exponentiated score of the noisy relations when it is in place, with all other values unchanged. A clean value that nothing observes stays as it is.",
  ["inputs", "histories", "schedules"], "all latent values, noisy observations, kinds of noise and entity clusters, and all seeds",
  "Tests check that one value changed and lies in the range of its observations; the law over the proposals is not observable in one run.",
  ["cxx/transition_latent_value.hh", "cxx/hirm.cc", "cxx/noisy_relation.hh", "cxx/clean_relation.hh", "cxx/emissions/sometimes.hh", "cxx/emissions/gaussian.hh", "cxx/emissions/simple_string.hh"],
  [("proposals scored one after another", "cxx/transition_latent_value.hh")])

prop("C29", "Entity moves choose among live entities in proportion to the database's score",
  "Updating which entity a row or entity refers to chooses between the live candidates (the current one, even when nothing else refers to it, and all others) with probability proportional to the exponentiated total score of the database that results: the data of the moved tuples, the seating of entities and references, and everything that disappears with an entity nothing refers to any more. The database reached is exactly the old one with that reference changed.",
  ["histories", "configurations", "schedules"], "all class schemas, queries, rows, earlier histories, references and seeds for which all values and entity clusters the candidates need exist already",
  "Tests run the update and check counts; whether the many partial scores it adds up equal the change of the total score is not observable in a run.",
  ["cxx/gendb.cc", "cxx/hirm.cc", "cxx/irm.cc", "cxx/distributions/crp.cc", "cxx/util_math.cc"],
  [("incremental scores of removed and added tuples", "cxx/gendb.cc transition_reference / unincorporate_reference"), ("entities that vanish with their last reference", "cxx/gendb.cc unincorporate_singleton")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P))
