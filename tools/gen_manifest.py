#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a module in harness/checks."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(V, "tools", "level_notes.py")).read())

props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "checks", i.lower() + ".py")):
        tech, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "model_checking",
                       "level_note": note})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: every observation is made through the public interface", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, judged by TLC; see DESIGN.md. known_findings.json lists repaired defects and known findings."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
