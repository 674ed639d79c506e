#!/usr/bin/env python3
"""Writes MANIFEST.json from plans.py and properties.jsonl."""
import json, os
import plans
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    if p not in plans.PLANS:
        continue
    q = plans.PLANS[p]
    note = "Held on the executions observed, which the evidence file counts; not a proof. " + q["rule"]
    if q.get("assumptions"):
        note += " Assumes: " + "; ".join(q["assumptions"]) + "."
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p, "technique": q["technique"], "level": q["level"], "level_note": note})
m = {"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": plans.NOT_APPLICABLE[p]} for p in props if p not in plans.PLANS],
     "notes": "No hooks in /repo: every check compiles /repo's working tree as it is. Known findings are in known-findings.txt. A run that can decide nothing ends with exit code 2."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
