#!/usr/bin/env python3
"""MANIFEST.json from CHECKS.json (per property: level, technique, note, deductive, asan, scale)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(os.path.join(H, "CHECKS.json")))
checks, na = [], []
for pid, c in sorted(conf.items()):
    if c.get("not_applicable"):
        na.append({"property": pid, "reason": c["not_applicable"]}); continue
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
                   "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
json.dump({"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks, "not_applicable": na},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
