#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

def check(c):
    r = c.rng
    c.model_check("EopInterpMC", subst={"N": c.pick(3, 4)}, workers=8)
    beh = c.model_check("EopInterpMC", "EopInterpGen.cfg", subst={"N": 3}, workers=8)
    beh = [b for b in beh if b and b[0]["op"] == "Fill"]
    if len(beh) > c.pick(500, 6000): beh = r.sample(beh, c.pick(500, 6000))
    def fill(n, deg):
        cs = []
        for p in range(7): cs += [r.choice([0, r.randint(-999, 999)])] + [r.randint(-9, 9) if j <= deg else 0 for j in (1, 2, 3)]
        return "Fill %d %d %s" % (r.choice([51544, 51545, 51540, 57000, r.randint(50000, 60000)]), n, " ".join(map(str, cs)))
    def mindeg(ords): return min([min(3, o) for o in ords] or [3])
    sc = []
    for b in beh:
        deg = mindeg([h["a"][1] for h in b if h["op"] in ("Interp", "Lag")])
        sc.append([fill(h["a"][0], deg) if h["op"] == "Fill" else " ".join([h["op"]] + [str(x) for x in h["a"]]) for h in b])
    for _ in range(c.pick(200, 2500)):
        n = r.randint(2, 12); ords = r.choice([[5], [5], [3, 5], [1, 3, 5], [7, 5], [1]])
        s = [fill(n, mindeg(ords))]
        for _ in range(r.randint(4, 12)):
            k = r.random()
            if k < .12: s.append("Regularize")
            elif k < .16: n = r.randint(2, 12); s.append(fill(n, mindeg(ords)))
            else: s.append("%s %d %d" % (r.choice(["Interp", "Interp", "Lag"]), r.choice([r.randint(-2, 2 * n + 2), r.randint(0, 2 * n), 2 * r.randint(0, n)]), r.choice(ords)))
        sc.append(s)
    exe = c.build("eopi", [vf.VERIF + "/harness/eopintrp.cpp", "src/iers/eop_interpolate.cpp"], incs=[vf.VERIF + "/shim", vf.VERIF + "/lib", "src"])
    c.assumptions += ["the IERS library is replaced by a stand-in: genuine Lagrange interpolation, and tidal models that are recognisable linear functions of the epoch",
                      "orders are odd; columns are polynomials the interpolation reproduces exactly", "the rotation rate, which is not interpolated, is only followed through regularisation"]
    c.conform("EopInterpTrace", exe, sc, chunk_events=1500)
vf.main("C31", check)
