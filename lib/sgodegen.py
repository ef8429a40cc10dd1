"""Scenarios for the multistep integrator (C01, C02, C03), shared by the three checks."""
import json, os
import vf
SRC = ["src/integrators/sgode_de.cpp", "src/integrators/sgode_step.cpp", "src/integrators/sgode_intrp.cpp"]
CAL = os.path.join(vf.VERIF, "lib", "sgode_cal.json")
TOLS = ((1e-3, 1e-3), (1e-5, 1e-6), (1e-8, 1e-8), (1e-10, 1e-11), (1e-12, 1e-12), (1e-13, 1e-14))
SMOOTH = (0, 1, 2, 3, 4, 8, 10, 13)

def builds(c):
    inc = [vf.VERIF + "/lib"]
    h = [vf.VERIF + "/harness/sgode.cpp"]
    new = c.build("sg", h + SRC, incs=inc + [vf.VERIF + "/shim/ode", "src/integrators", "src"])
    old = c.build("sgv", h + [s.replace("src/integrators", "var/ode_solvers") for s in SRC], incs=inc + ["var/ode_solvers", "."], flags=("-O1", "-g1", "-DVARCOPY"))
    return (("src", new), ("var", old))

def fixed():
    """Deterministic scenarios, whose error and work are calibrated (sgode_cal.json holds what the integrator is known to reach)."""
    out = []
    def add(p, r, a, *calls): out.append(["P %d -1 %g %g" % (p, r, a)] + list(calls))
    for p in SMOOTH:
        for r, a in TOLS:
            add(p, r, a, "C 0 2 1", "C told 4 keep", "C told 1 keep", "C told 1.5 -2", "C told 3 keep", "C told 2.5 2")
            if p in (0, 2, 13): add(p, r, a, "C 0 0.5 -1", *["C told +0.0625 keep"] * 6, "C told +1 2", "C told +-0.5 2", "C told +-0.25 keep", "C told +0.5 -2", "C told u3 -2", "C told +0.25 keep", "C told +0.5 1")
        add(p, 1e-9, 1e-9, "C 0 0.125 1", *["C told +0.03125 keep"] * 14)            # dense: several outputs inside one step
        add(p, 1e-9, 1e-9, "C 0 -2 1", "C told -3 keep", "C told -1 keep")
        add(p, 0, 1e-9, "C 0 3 1", "C told 5 keep")
        add(p, 1e-14, 2e-14, "C 0 2 1", "C told 3 keep")
    for p in (9, 11):
        for r, a in TOLS[:4]: add(p, r, a, "C 0 1 1", "C told 2 keep", "C told 0.75 keep")
    for p in (1, 3): add(p, 1e-9, 0, "C 0 3 1", "C told 1 keep")
    return out

def calibrated(sc):
    cal = json.load(open(CAL))
    out = []
    for s in sc:
        k = "|".join(s)
        if k not in cal: raise vf.CheckError("not calibrated: " + k)
        n = [s[0]]
        for line, (q, w) in zip(s[1:], cal[k]):
            n.append("%s any %d %d" % (line, max(25, 5 * q + 5), int(1.3 * w) + 8))
        out.append(n)
    return out

OUTCOMES = [   # the outcome is part of the statement: what must be reported for such a problem
    ["P 2 -1 1e-15 1e-16", "C 0 2 1 tol", "C told 2 keep", "C told 3 keep"],
    ["P 8 -1 1e-15 1e-16", "C 0 2 1 tol", "C told 2 keep", "C told 3 keep"],
    ["P 13 -1 1e-15 0", "C 0 2 1 tol", "C told 2 keep", "C told -1 keep"],
    ["P 2 -1 0 1e-17", "C 0 2 -1 tol", "C told 2 keep"],
    ["P 5 -1 1e-1 1e-1", "C 0 40 1 stiff", "C told 40 keep stiff", "C told 30 keep"],
    ["P 5 -1 1e-2 1e-2", "C 0 40 1 stiff", "C told 40 keep stiff"],
    ["P 5 -1 1e-5 1e-5", "C 0 40 1 stiff", "C told 0.001 1"],
    ["P 11 -1 1e-10 1e-10", "C 0 30 1 many", "C told 30 keep many", "C told 30 keep", "C told 29 keep"],
    ["P 11 -1 1e-10 1e-10", "C 0 30 -1 many", "C told 30 keep many", "C told -30 keep many"],
    ["P 0 -1 1e-6 1e-6", "C 0 2 1 ok", "C told 3 keep ok"],
    ["P 10 -1 1e-6 1e-6", "C 0 1e3 1 ok", "C told -1e3 keep ok"],
]

def protocol(c, n):
    """Call histories from the specification, over random problems and tolerances, invalid calls interleaved."""
    r = c.rng
    beh = c.model_check("SgOdeMC", cfg="SgOdeGen.cfg", simulate=(n, 130), subst={"N": 7, "Times": "{0, 1, 2, 3}"})
    out = []
    for b in beh:
        p = r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13))
        tol = r.choice(TOLS[:5] if p not in (5, 6, 7, 9, 11, 12) else TOLS[:2])
        rel, ab = tol if r.random() < .7 else r.choice(((tol[0], tol[0]), (0, tol[1])))
        sc, off = r.choice((1, .5, .25)), r.choice((0, 0, .25, -1)) if p not in (7,) else 0
        lim = 400 if p in (0, 2, 4, 10, 13) else 100000000
        s = ["P %d -1 %g %g" % (p, rel, ab)]
        for x in b:
            w = sc * x["b"] + off
            if p == 7: w = min(w, 1.5)
            s.append("C %s %r %s any %d" % ("told" if x["a"] == "told" else repr(sc * x["t0"] + off), w, "keep" if x["keep"] else x["f"], lim))
            if r.random() < .1: s.append("C told %s %s" % (r.choice(("=", "u2", "u-2", "u5", "+1e-12", "+0.001")), r.choice(("keep", "keep", "2", "-2"))))
            if r.random() < .12: s.append(r.choice(("C told = keep", "C told = 1", "C told +1 0", "C told +1 6", "C told +1 -7", "C told +1 9", "C 77 78 2", "C 77 78 -3", "C told +1 -2147483647", "C told +1 2147483647")))
        out.append(s)
    for neq, rel, ab in ((0, 1e-6, 1e-6), (-1, -1e-6, 1e-6), (-1, 1e-6, -1e-6), (-1, 0, 0), (-1, -1e-9, 1e-3)):
        for f in (1, -1, 2, 3): out.append(["P 0 %d %g %g" % (neq, rel, ab), "C 0 1 %d" % f, "C told 1 keep", "C 0 1 1"])
    for p, n in ((0, 1), (2, 2), (13, 4), (9, 1), (12, 1)):
        for f in (1, -1): out.append(["P %d -1 1e-6 0" % p, "C 0 1 %d" % f, "C told 1 keep", "C 0.25 1 1", "C 0 -1 1", "C told 2 2"] if p != 12 else ["P 12 -1 1e-3 0", "C 0 0.4 %d" % f, "C 0.25 0.4 1", "C 0 1 1"])
    for p in (0, 2):
        for f in (2, -2, 3, -3, 4, -4, 5, -5, 0, 6, -6, 7): out.append(["P %d -1 1e-6 1e-6" % p, "C 0 1 %d" % f, "C 0 1 1", "C told 2 keep", "C told 1 0", "C told 3 2", "C told 3.5 %d" % f, "C told 4 1"])
    for p in (0, 1, 2, 13):      # direction, mode and restart changes around a point where the last step stopped at the output point
        for a in (1, -1):
            for b in (2, -2):
                for d in ("u1", "u2", "u3", "u4", "u-2", "u-3", "+1e-15"):
                    for e in (2, -2):
                        out.append(["P %d -1 1e-7 1e-7" % p, "C 0 1 %d any 400" % a, "C told %s %d any 400" % (d, b), "C told 2 %d any 400" % e, "C told 1.5 keep any 400", "C told 2.5 keep any 400"])
    return out

def steps(c, n):
    """Problems that make steps fail once, twice, many times."""
    r = c.rng; out = []
    for p in (6, 12, 9, 7, 11, 5):
        for r_, a in TOLS[:4]: out.append(["P %d -1 %g %g" % (p, r_, a), "C 0 %s %d" % (r.choice(("0.9", "1.7", "2")), r.choice((1, -1))), "C told 0.25 keep", "C told 3 keep"])
    for _ in range(n):
        p = r.choice((6, 6, 12, 9, 11)); t = r.choice(TOLS[:4])
        x = round(r.uniform(-1, .4), 3); s = ["P %d -1 %g %g" % (p, t[0], t[1]), "C %r %r %d" % (x, round(x + r.uniform(.2, 2), 3), r.choice((1, -1)))]
        for _ in range(r.randint(0, 3)): s.append("C told +%r keep" % round(r.choice((1, -1)) * r.uniform(.05, 1.5), 3))
        out.append(s)
    return out

def sampled(c, sc, k):
    return sc if c.thorough or len(sc) <= k else c.rng.sample(sc, k)

ASSUME = ["the right-hand side is deterministic and, unless it jumps on purpose, smooth",
          "error and work limits are five times the error and 1.3 times the evaluations the repaired integrator was measured to need"]
