#!/usr/bin/env python3
"""Measures error and work of the fixed SGOde scenarios on the current tree and writes lib/sgode_cal.json (run by hand, never by a check)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, sgodegen as g
c = vf.Ctx("CAL"); sc = g.fixed(); cal = {}
for name, exe in g.builds(c):
    for s, ev in zip(sc, c.run(exe, sc)):
        v = [[e["q"] if e["hasx"] else 0, e["n"]] for e in ev if e["event"] == "Return"]
        assert all(e["rc"] == 0 for e in ev if e["event"] == "Return"), (s, ev[-1])
        assert max(q for q, n in v) < 120, (s, v)
        k = "|".join(s); o = cal.get(k, v)
        cal[k] = [[max(a[0], b[0]), max(a[1], b[1])] for a, b in zip(v, o)]
json.dump(cal, open(g.CAL, "w"), indent=0)
print(len(cal), "scenarios; worst error", max(q for v in cal.values() for q, n in v), "events", sum(n for v in cal.values() for q, n in v))
