#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/tools")
import plan
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = []
for i in ids:
    if i in plan.PLAN:
        p = plan.PLAN[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
na = [{"property": i, "reason": plan.NOT_APPLICABLE.get(i, "its check is still being built")} for i in ids if i not in plan.PLAN]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors observe the library through its public API, instrumented readers/writers/HTTP clients, sanitizers and the files it writes."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
