#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from framework/checks.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from framework.checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p,
                   "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": c["technique"],
                   "level": c.get("level", "exploration"), "level_note": c["level_note"]})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")} for p in props if p not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
