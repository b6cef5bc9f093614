#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/plans.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans

props = [json.loads(l)["id"] for l in open(os.path.join(plans.VERIF, "properties.jsonl"))]
NA = plans.NOT_APPLICABLE
checks = []
for p in props:
    if p not in plans.PLANS:
        continue
    pl = plans.PLANS[p]
    checks.append(dict(
        property=p, quick_cmd=f"python3 tools/check.py {p} quick", thorough_cmd=f"python3 tools/check.py {p} thorough",
        technique="TLA+ specification: TLC model checking, replay of specification steps on the code, trace validation"
        if pl.get("models") else "TLA+ specification: TLC trace validation of recorded behaviours",
        level="model_checking",
        level_note=pl["explain"] + ". Bounded: the specification is checked with small constants, the code on the replayed and recorded behaviours. "
        "Assumes: " + "; ".join(pl["assumptions"]) + "."))
m = dict(version=1, setup_cmd="python3 tools/check.py --setup", checks=checks,
         not_applicable=[dict(property=p, reason=NA.get(p, "check not built yet")) for p in props if p not in plans.PLANS],
         notes="Specification in spec/ (TLA+, TLC). No hooks in /repo: the public API exposes the abstract state.")
json.dump(m, open(os.path.join(plans.VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
