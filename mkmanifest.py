#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry in lib/checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    pid = p["id"]
    if pid in checks.CHECKS:
        t, note = checks.META[pid]
        out["checks"].append({"property": pid, "quick_cmd": "python3 check.py %s quick" % pid,
                              "thorough_cmd": "python3 check.py %s thorough" % pid,
                              "technique": t, "level": "exploration", "level_note": note})
    else:
        out["not_applicable"].append({"property": pid, "reason": "check not built yet"})
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
