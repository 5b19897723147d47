#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import manifest_data as D
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = []
for i in ids:
    if i in D.CHECKS:
        tech, note = D.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "technique": tech, "level": "model_checking", "level_note": note})
na = [{"property": i, "reason": D.NA.get(i, "No check has been built for it yet.")} for i in ids if i not in D.CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: drivers use the public API, subclassing and MPI profiling. See DESIGN.md."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
