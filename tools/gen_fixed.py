#!/usr/bin/python3
"""Writes the "fixed" list of known_findings.json: one entry per fix: commit."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject prefix -> (property, what failed)
F = {
 "Bigram::sample corrupted": ("C04", "drawing a string of the maximum length removed a stop symbol that was never added, so drawing changed the model"),
 "DirichletCategorical::sample": ("C04", "fractional counts were truncated when sampling, so draws did not follow the reported probabilities"),
 "BetaBernoulli lost": ("C02", "fractional weights were truncated to integers, so apportioned values could not be removed exactly"),
 "Sometimes::unincorporate": ("C02", "removing an equal pair used probabilities of the later state, so it did not undo adding it"),
 "SimpleStringEmission could": ("C04", "corrupted strings could contain 0x7f, which the models cannot score"),
 "Normal::logp of an extreme": ("C01", "asking for the probability of an extreme value corrupted mean and variance"),
 "nearest() of string": ("C06", "nearest() of Bigram, StringNat and string adapters returned values that the distribution rejects"),
 "DistributionAdapter used": ("C06", "an empty or unparsable string left the parsed number uninitialised"),
 "Skellam probabilities": ("C03", "probabilities overflowed to inf/NaN for large rates and sampling could hang"),
 "BigramStringEmission priced": ("C03", "alignment costs used the wrong context character"),
 "BigramStringEmission weighted": ("C02", "alignments were weighted by the inverse of their probability"),
 "BigramStringEmission scored": ("C01", "the initial bias of the noise model was scored as data, so an empty model had a non-zero score"),
 "latent value updates": ("C08", "after a latent value changed, noisy observations were still scored against the old value"),
 "latent values without": ("C11", "latent values without noisy observations were proposed from an empty list"),
 "CRP weight of the first": ("C07", "the first table's weight was 1 instead of alpha, so probabilities of seatings did not sum to one"),
 "entity moves were": ("C09", "moves of an entity appearing twice in one observation were priced cluster by cluster and ignored the joint effect"),
 "removing a relation from an IRM": ("C10", "entities only the removed relation observed stayed in the domains, and stale noisy links made inference throw"),
 "HIRM::remove_relation": ("C10", "removing a noisy relation left it listed under its base relation, so later inference threw"),
 "HIRM::sample_and_incorporate_relation": ("C15", "returned numbers were rounded to 6 digits, differing from the values added"),
}
EXTRA = HERE + "/tools/fixed_extra.json"
if os.path.exists(EXTRA):
    F.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
out, seen = [], set()
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    m = [k for k in F if s[5:].startswith(k)]
    if not m:
        print("no entry for", s)
        continue
    p, w = F[m[0]]
    out.append("fixed: property=%s %s %s" % (p, h, w))
k = json.load(open(HERE + "/known_findings.json"))
k["fixed"] = out
json.dump(k, open(HERE + "/known_findings.json", "w"), indent=1)
print(len(out), "fixed")
