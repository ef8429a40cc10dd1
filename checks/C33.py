#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
SRC = ["src/astrodynamics/%s.cpp" % s for s in ("kepler", "perifocal", "pos2ra", "propagate_state", "state2kepler", "state_partials")]
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "src/astrodynamics"]
def check(c):
    r = c.rng
    c.model_check("OrbitMC", subst={"EccSet": c.pick("{0, 1}", "{0, 1, 2, 3, 4, 5}"), "H": 1}, workers=8)
    beh = c.model_check("OrbitMC", "OrbitGen.cfg", workers=8)
    def ops(h):
        o = []
        for x in h:
            if x[0] == "S": o.append("S %d %d %d" % (x[1], r.choice([0, 0, 0, 1, -1, 3, 20]), r.randrange(6)))
            elif x[0] == "P": o.append("P %d %d %d" % (x[1], r.choice([0, 0, 1, -2]), r.choice([0, 0, 1])))
            else: o.append("K %d" % r.randrange(2))
        return o
    def new(e, i, O, w, E): return "New %d %d %d %d %d %s %s %d" % (e, i, O, w, E, r.choice(["7.7e6", "4.2e7", "1", "6.5e6"]), r.choice(["3.986004418e14", "4.9e12", "1"]), r.choice([0, 0, 1, -1]))
    sc = []
    for _ in range(c.pick(2500, 40000)):
        h = r.choice(beh); e = r.choice([0, 1, 1, 2, 3, 3, 4, 5, 5]); i = r.randrange(7)
        if e == 0 or i in (0, 6): h = [x for x in h if x[0] == "S"]
        s = [new(e, i, r.randrange(12), r.randrange(12), r.randrange(12))]
        for o in ops(h):
            s.append(o)
            if r.random() < .2: s.append("B %d" % r.randrange(2))
            if e and 0 < i < 6:
                if r.random() < .5: s.append("Z %d" % r.randrange(3))
                if r.random() < .12: s.append("D %d %d" % (r.randrange(12), r.choice([0, 0, 1])))
        sc.append(s)
    kep = ["Kep %d %d %d %d" % (e, E, n, w) for e in range(6) for E in range(12) for n in (0, 1, -1, -2, 7, 100) for w in (0, 1)]
    kep += ["Any %d %d %d" % (r.choice([0, r.randint(0, 950), r.randint(0, 950), r.randint(700, 990)]), r.choice([r.randint(-7000000, 7000000), r.randint(-500000, 500000), r.randint(-2000000000, 2000000000), r.choice([0, 1, -1, 3141592, 6283185])]), w) for w in (0, 1) for _ in range(c.pick(3000, 60000))]
    kep += ["Ad %d %d %s" % (a, d, r.choice(["1", "6.4e6", "1e7", "123456.789", "3", "4.2e7"])) for a in range(12) for d in (0, 1, 2, 3, 9, 10, 11) for _ in range(c.pick(4, 40))]
    sk = [kep[i:i + 50] for i in range(0, len(kep), 50)]
    exe = c.build("orbit", [vf.VERIF + "/harness/orbit.cpp"] + SRC, incs=INC)
    c.assumptions += ["orbits with rational sines and cosines of the angles; eccentricities 0, 5/13, 3/5, 4/5, 12/13, 7/25", "values compared to 1e-6"]
    c.conform("OrbitTrace", exe, sc, label="orbit", chunk_events=2500)
    c.conform("OrbitTrace", exe, sk, label="kepler", chunk_events=2500)
if __name__ == "__main__": vf.main("C33", check)
