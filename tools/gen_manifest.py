#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from checks.py and properties.jsonl.
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS and not CHECKS[i].get("hidden"):
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick python3 hzv.py check {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 hzv.py check {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": c["technique"],
                       "level": c.get("level", "model_checking"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built for it yet; the family applies (see DESIGN.md)")})
m = {"version": 1, "setup_cmd": "python3 hzv.py build", "checks": checks, "not_applicable": na,
     "notes": "Harnesses run /repo's own code; nothing in /repo is instrumented by source changes, so there are no hooks. Known findings: known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
