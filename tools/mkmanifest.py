#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans and the properties."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan, xk
props = [json.loads(l) for l in open(f"{xk.VERIF}/properties.jsonl")]
NOTE = ("Holds of the TLA+ specification within the stated bounds (TLC), and of the code on every replayed behaviour of the "
        "specification on every listed target; trusts TLC, the Java overrides (compared with the TLA+ definitions by C01/C02), "
        "the driver and the compilers. Not a proof for all inputs.")
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in plan.PLANS:
        meta = plan.META.get(pid, {})
        checks.append(dict(property=pid, quick_cmd=f"python3 tools/check.py {pid} quick",
                           thorough_cmd=f"python3 tools/check.py {pid} thorough", evidence_file=f"evidence/{pid}.json",
                           technique=meta.get("technique", "TLA+ specification: TLC exhaustive symbolic model + replay of TLC-generated behaviours on the real code"),
                           level="model_checking", level_note=meta.get("note", NOTE)))
    else:
        na.append(dict(property=pid, reason=plan.NA.get(pid, "Its specification is not written yet; no check is claimed at this commit.")))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="none", enable="The checks compile /repo's sources unchanged: no hooks are needed.", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Specification in TLA+ (spec/), TLC; driver/ replays behaviours on the library; tools/check.py runs a check.")
json.dump(m, open(f"{xk.VERIF}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
