#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per checks/cNN.py, the rest under not_applicable."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(V, "tools", "manifest_notes.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in ids:
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")) and p in NOTES:
        t, n = NOTES[p]
        checks.append({"property": p,
                       "quick_cmd": "python3-vt check.py %s --tier quick" % p,
                       "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3-vt tools/setup_check.py", "checks": checks,
     "not_applicable": na,
     "notes": "No hooks: the checks compile the repository's sources unmodified. Repairs are the "
              "'fix:' commits listed in known_findings.txt. Every check builds what it needs from "
              "/repo's working tree in a scratch directory it removes."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
