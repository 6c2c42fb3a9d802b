#!/usr/bin/python3
"""Writes /verif/MANIFEST.json from properties.jsonl and lib/plans.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE + "/lib")
import plans
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        pl = plans.PLANS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
                           technique=pl.get("technique", "runtime monitors over generated histories, ASan/UBSan build"),
                           level="exploration", level_note=pl.get("note", plans.NOTE)))
    else:
        na.append(dict(property=i, reason="no check built for it yet"))
json.dump(dict(version=1, setup_cmd="python3 -c \"import sys; sys.path.insert(0,'lib'); import vf; vf.headers_hash()\"",
               hooks=dict(guard="none", enable="no hooks were needed: the monitors use the public API of the code"),
               checks=checks, not_applicable=na), open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
