#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/plan.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from plan import PLAN, NOTES
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in props:
    if p not in PLAN:
        continue
    d = PLAN[p]
    checks.append(dict(
        property=p, quick_cmd="python3 check.py %s --tier quick" % p,
        thorough_cmd="python3 check.py %s --tier thorough" % p,
        technique=d.get("technique", NOTES["technique"]),
        level=d.get("level", "exploration"),
        level_note=d.get("note", NOTES["note"])))
m = dict(version=1,
         setup_cmd="python3 tools/setup.py",
         checks=checks,
         not_applicable=[dict(property=p, reason="check not built yet")
                         for p in props if p not in PLAN])
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
