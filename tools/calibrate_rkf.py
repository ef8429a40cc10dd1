#!/usr/bin/env python3
"""Measures error and work of the fixed RKF45 scenarios on the current tree and writes lib/rkf_cal.json (run by hand, never by a check)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, rkfgen as g
c = vf.Ctx("CAL"); sc = g.fixed(); cal = {}
for s, ev in zip(sc, c.run(g.build(c), sc)):
    v = [[e["q"] if e["hasx"] else 0, e["n"]] for e in ev if e["event"] == "Return"]
    if [e for e in ev if e["event"] in ("Odd", "Crash", "Hang")] or max(q for q, n in v) > 60 or [e for e in ev if e["event"] == "Return" and e["flag"] not in (2, 3)]: print(s, v, [e["flag"] for e in ev if e["event"] == "Return"])
    cal["|".join(s)] = v
json.dump(cal, open(g.CAL, "w"), indent=0)
print(len(cal), "scenarios; worst error", max(q for v in cal.values() for q, n in v), "evals", sum(n for v in cal.values() for q, n in v))
