#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

def check(c):
    r = c.rng
    tabs = [[(p["x"], p["y"]) for p in t] for t in c.model_check("IntrpMC", workers=8, subst={"MaxN": c.pick(4, 5)})]
    sc = []
    def add(t, all_queries):
        k, o, ys = r.choice((1, 1, .125, 1024, 5)), r.choice((0, 0, -64, 7, 1048576)), r.choice((1, 1, -2, .5))
        xo = r.choice((0, 0, -3, 11))
        t = [(x + xo, y) for x, y in t]
        qs = list(range(t[0][0] - 2, t[-1][0] + 3))
        if not all_queries and len(qs) > 12: qs = r.sample(qs, 12)
        ks = "NLQ" if len(t) >= 3 else "NL"
        asks = [(kk, q) for q in qs for kk in ks]
        if len(asks) > 40 and not all_queries: asks = r.sample(asks, 40)
        r.shuffle(asks)
        sc.append(["T %r %r %r " % (k, o, ys) + " ".join("%d %d" % p for p in t)] + ["A %s %d" % a for a in asks])
    for t in r.sample(tabs, min(len(tabs), c.pick(500, 5000))): add(t, True)
    for _ in range(c.pick(600, 8000)):
        n = r.choice((2, 3, 4, 5, 7, 12, 20)); x = 0; t = []
        for _ in range(n):
            t.append((x, r.randint(-15, 15))); x += r.choice((1, 2, 3, 4) if n > 7 else (1, 2, 3, 5, 8, 12))
        add(t, False)
    c.assumptions += ["abscissae strictly increasing; two or more points (three for the quadratic interpolator)"]
    exe = c.build("intrp", [vf.VERIF + "/harness/intrp.cpp"], incs=[vf.VERIF + "/lib", "."])
    c.conform("IntrpTrace", exe, sc, chunk_events=5000)
    c.check_known("IntrpTrace", exe)
vf.main("C10", check)
