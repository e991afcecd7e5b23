#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist (lib/cNN.py)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "lib", i.lower() + ".py")) and i in NOTES:
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": NOTES[i][0], "level": "model_checking", "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: the public API exposes the abstract state; checks build /repo as it is", "source_commits": []}}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
