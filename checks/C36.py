#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
NEW = ["src/gravity/%s.cpp" % s for s in ("gravity_acceleration", "lagrange_poly", "point_mass_acceleration", "harmonic_coeffs")]
OLD = ["var/icgem/src/%s.cpp" % s for s in ("gravity_acceleration", "lagrange_poly", "harmonic_coeffs")]
QUAD = [(1, 2, 2, 3), (2, 3, 6, 7), (1, 4, 8, 9), (0, 3, 4, 5), (0, 0, 2, 2), (0, 0, 1, 1), (2, 6, 9, 11), (4, 4, 7, 9)]
def check(c):
    r = c.rng
    c.model_check("GravityMC", subst={"C": c.pick("{0, 1, 3}", "{0, 1, 2, 3, 4}"), "H": 1}, workers=8)
    beh = c.model_check("GravityMC", "GravityGen.cfg", workers=8)
    keys = [(n, m, p) for n in range(5) for m in range(n + 1) for p in "cs" if m or p == "c"]
    def pt():
        while True:
            p = [r.randint(-2, 2) for _ in range(3)]
            if any(p): return "%d %d %d" % tuple(p)
    L = lambda: r.choice(["1", "7.1e6", "0.3", "1e3"])
    GM = lambda: r.choice(["1", "3.986004418e14", "7.5"])
    def sets(k): return ["Set %d %d %s %d" % (*r.choice(keys), r.choice([-2, -1, 1, 2])) for _ in range(k)]
    sc = []
    for _ in range(c.pick(900, 30000)):
        s = sets(r.choice([1, 1, 2, 3, 4])); n = len(s)
        for x in r.choice(beh):
            if x[0] == "C" and n < 5: s += sets(1); n += 1
            elif x[0] == "F":
                d = x[2] + r.choice([0, 0, 1, 2]); o = min(d, x[3] + r.choice([0, 0, 1, 2]))
                if r.random() < .04: o = d + r.randint(1, 3)
                s.append("Fill %d %s %d %d %d %d %s" % (x[1], pt(), r.choice([1, 1, 2]), d, o, r.choice([-1, 0, 0, 1, 4]), L()))
            elif x[0] == "U": s += ["Use %d %d %d %d %s" % (x[1], x[2], x[3], r.randrange(4), GM())]
        s = ["Deg %d" % r.choice([4, 4, 5, 7])] + s
        for _ in range(r.choice([1, 2])):
            d = r.choice([4, 4, 3, 2, 1, 0]); o = r.choice([d, d, 0, r.randint(0, d)])
            s.append("At %s %d %d %d %d %s %s" % (pt(), r.choice([1, 1, 2]), d, o, r.randrange(2), GM(), L()))
        sc.append(s)
    for n, m, p in keys:     # every term alone, in every window
        for _ in range(c.pick(2, 20)):
            s = ["Set %d %d %s %d" % (n, m, p, r.choice([1, -2]))]
            for d in range(5):
                for o in range(d + 1): s.append("At %s %d %d %d %d %s %s" % (pt(), r.choice([1, 2]), d, o, r.randrange(2), GM(), L()))
            sc.append(s)
    far = [["Fill 1 %s 1 0 0 -1 1" % pt(), "Fill 2 %s 1 1 0 -1 1" % pt(), "Fill 1 %s 1 0 1 -1 1" % pt()]]
    ns = list(range(0, 20)) + [21, 25, 30, 33, 40, 47, 60, 70]
    far += [["Axis %d %d %s" % (n, sg, L()) for sg in (1, -1)] for n in ns + [90, 120]]
    far += [["Equator %d %s %d %s" % (n, p, q, L()) for p in "cs" for q in range(4)] for n in ns if n > 0]
    for _ in range(c.pick(250, 4000)):
        td = r.choice([2, 3, 5, 8, 12, 20, 30, 45, 60]); d = r.choice([td, td, r.randint(0, td)]); o = r.choice([d, d, 0, 1, 2, r.randint(0, d)])
        far.append(["Rel %d %d %d %d" % (r.randint(1, 10**6), d, min(o, d), td)])
    def quad():
        q = list(r.choice(QUAD)); v = q[:3]; r.shuffle(v); return "%d %d %d %d" % (*[r.choice([1, -1]) * x for x in v], q[3])
    mass = [["Mass %s %s %s %s" % (quad(), quad(), GM(), L()) for _ in range(20)] for _ in range(c.pick(60, 1000))]
    inc = [vf.VERIF + "/shim", vf.VERIF + "/lib"]
    exe = c.build("gravity", [vf.VERIF + "/harness/gravity.cpp"] + NEW, incs=inc + ["src"])
    rel = c.build("gravity_release", [vf.VERIF + "/harness/gravity.cpp"] + NEW, incs=inc + ["src"], flags=("-O2", "-g1", "-DNDEBUG"))
    dbg = c.build("gravity_debug", [vf.VERIF + "/harness/gravity.cpp"] + NEW, incs=inc + ["src"], flags=("-O1", "-g1", "-DDEBUG"))
    old = c.build("gravity_old", [vf.VERIF + "/harness/gravity.cpp"] + OLD, incs=inc + ["var/icgem/src"], flags=("-O1", "-g1", "-DVAR"))
    c.assumptions += ["exact on lattice points with coordinates -2..2 up to degree 4, single terms to degree 120; larger expansions through relations between results", "point masses at distances of integer length"]
    k = len(sc)
    c.conform("GravityTrace", exe, sc + mass, label="new", chunk_events=1200)
    c.conform("GravityTrace", rel, sc[:k // 6] + far + mass[:10], label="release", chunk_events=1200)
    c.conform("GravityTrace", dbg, sc[k // 6:k // 3] + far[:60], label="debug", chunk_events=1200)
    c.conform("GravityTrace", old, sc[k // 2:] + far, label="old", chunk_events=1200)
if __name__ == "__main__": vf.main("C36", check)
