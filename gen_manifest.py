#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = {}
ps = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
exec(open(os.path.join(HERE, "notes.py")).read())
for p in ps:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")) and i in NOTE:
        checks.append({
            "property": i,
            "quick_cmd": f"python3-vt check.py {i} --tier quick",
            "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "contract-based deductive verification: contracts on the functions of gpcm, verification conditions generated from the current source by pyvc, discharged by its term algebra and z3; contracts replayed on the real code",
            "level": "proof",
            "level_note": NOTE[i],
        })
    else:
        na.append({"property": i, "reason": "no check registered yet"})
json.dump({"version": 1, "setup_cmd": "python3-vt -m compileall -q pyvc checks", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
