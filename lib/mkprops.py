#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
from plan import PLAN

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

exec(open(os.path.join(ROOT, "lib", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

checks = []
for p in P:
    i = p["id"]
    if i not in PLAN:
        continue
    pl = PLAN[i]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": pl["technique"], "level": pl["level"],
                   "level_note": pl["note"]})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": NOT_APPLICABLE,
     "notes": "No hooks in /repo: every check goes through the public API. Specification: TLA+ in spec/, checked with TLC."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
