#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, rkfgen as g

def check(c):
    r = c.rng
    c.model_check("Rkf45MC", workers=8, subst={"N": c.pick(3, 6), "MaxNfe": c.pick(12, 30)})
    c.model_check("Rkf45MC", cfg="Rkf45Live.cfg", workers=4)
    beh = c.model_check("Rkf45MC", cfg="Rkf45Gen.cfg", simulate=(c.pick(120, 3000), 120), subst={"N": 6})
    sc = g.OUT + g.calibrated(g.fixed())
    for b in beh:
        p = r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14))
        t = r.choice(g.TOLS[:3] if p in (5, 6, 7, 9, 11, 12) else g.TOLS); k = r.choice((.25, .5, 1))
        lim = 400 if p in (0, 2, 4, 10, 13, 14) else 100000000
        s = ["P %d -1 %g %g" % (p, r.choice((t[0], t[0], 0)), t[1])]
        if r.random() < .3 and p != 8: s.append("S %r" % r.choice((.25, .5, -.5)))
        for x in b:
            w = k * x["b"]
            s.append("C %s any %d" % ("u%d" % r.randint(1, 40) if x["near"] else repr(min(w, 1.5) if p == 7 else w), lim))
            if r.random() < .03: s.append("C =")
        sc.append(s)
    for _ in range(c.pick(60, 1500)):      # problems whose trials fail
        p = r.choice((6, 12, 9, 7, 11)); t = r.choice(g.TOLS[:4]); s = ["P %d -1 %g %g" % (p, t[0], t[1]), "S %r" % round(r.uniform(-1, .4), 3)]
        for _ in range(r.randint(1, 3)): s.append("C +%r" % round(r.choice((1, -1)) * r.uniform(.1, 1.2), 3))
        sc.append(s)
    c.assumptions += ["error and work limits are five times the error and 1.3 times the evaluations the repaired integrator was measured to need", "one-step mode cannot be reached through the public interface"]
    exe = g.build(c)
    c.conform("Rkf45Trace", exe, sc, chunk_events=3500, timeout=60)
    c.check_known("Rkf45Trace", exe)
vf.main("C04", check)
