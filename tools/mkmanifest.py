#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from properties.jsonl and tools/levels.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lv = json.load(open(V + "/tools/levels.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    c = lv.get(p)
    if c is None or "not_applicable" in c:
        na.append({"property": p, "reason": c["not_applicable"]})
        continue
    checks.append({"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "python3 tools/check.py %s --thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: contracts live in /verif/contracts and are applied to the SSA form of /repo's current source by /verif/govc; nothing in /repo is annotated."},
          open(V + "/MANIFEST.json", "w"), indent=1)
