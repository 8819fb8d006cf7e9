#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
T = json.load(open(os.path.join(V, "tools", "techniques.json")))


class Any(dict):
    def __missing__(self, k):
        return k


claimed = props.build(Any())
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in claimed:
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                       "technique": T[p][0], "level": "exploration", "level_note": T[p][1]})
    else:
        na.append({"property": p, "reason": T.get(p, ["", "its check is under construction"])[1]})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: every property is observed at the public interface. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
