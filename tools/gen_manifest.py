#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from checks.py and properties.jsonl.
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for pr in props:
    c = CHECKS.get(pr["id"])
    if not c: continue
    checks.append(dict(property=pr["id"], quick_cmd=f"python3 run.py {pr['id']} --tier quick",
                       thorough_cmd=f"python3 run.py {pr['id']} --tier thorough",
                       technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"]))
na = []
for pr in props:
    if pr["id"] not in CHECKS:
        na.append(dict(property=pr["id"], reason=NOT_APPLICABLE.get(pr["id"], "check not built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: delays are injected with compiler coverage callbacks (harness/chaos.cpp), faults and clocks with link-time symbol wrapping, all from /verif.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not claimed")
