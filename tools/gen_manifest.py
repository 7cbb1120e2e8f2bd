#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and the list of properties."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    e = registry.CHECKS.get(p["id"])
    if e is None:
        na.append({"property": p["id"], "reason": registry.NOT_APPLICABLE.get(p["id"], "no check has been built yet")})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 tools/check.py %s quick" % p["id"],
                   "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": e["technique"], "level": e["level"], "level_note": e["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+/TLC. No hooks are added to /repo; the harness uses exported API only. Exit 2 means the machinery failed."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
