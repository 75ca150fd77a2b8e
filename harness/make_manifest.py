#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks there are."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
NOTES = json.load(open(os.path.join(V, "harness", "notes.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if not os.path.exists(os.path.join(V, "checks", p.lower() + ".cpp")) or p not in NOTES:
        na.append({"property": p, "reason": "no check has been built yet"})
        continue
    tech, note = NOTES[p]
    checks.append({"property": p, "quick_cmd": "harness/run_check.py " + p, "thorough_cmd": "harness/run_check.py %s --thorough" % p,
                   "technique": tech, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "harness/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check drives the public headers. Each check builds its own binary from /repo/include in a temporary folder."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
