#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one entry per checks/<id>.py present, the rest under not_applicable with the reasons below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {"C30": "numeric accuracy against published formulas: no state, no histories, nothing a finite-state specification can decide (the guide names numeric accuracy as outside this family)"}
NOTE = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py" % i, "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification model-checked with TLC; behaviours replayed into the real code, recorded traces validated with TLC", "level": "model_checking", "level_note": NOTE[i]})
    else: na.append({"property": i, "reason": NA.get(i, "no check built yet (see DESIGN.md)")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks: every check observes the public API of the real sources. TLA+ with TLC; see DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
