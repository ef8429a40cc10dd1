#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
SRC = ["src/variational_equations.cpp", "src/gravity/harmonic_coeffs.cpp"]
QUAD = [(1, 2, 2, 3), (2, 3, 6, 7), (1, 4, 8, 9), (0, 3, 4, 5), (0, 0, 1, 1), (2, 6, 9, 11)]
def check(c):
    r = c.rng
    c.model_check("VariationalMC", subst={"Angs": c.pick("{0, 1, 5}", "{0, 1, 3, 5, 8, 10}")}, workers=8)
    def n(k, m=3): return " ".join(str(r.choice([0, r.randint(-m, m), r.randint(-m, m)])) for _ in range(k))
    def sym(m=3):
        a = [r.randint(-m, m) for _ in range(6)]; return "%d %d %d %d %d %d %d %d %d" % (a[0], a[1], a[2], a[1], a[3], a[4], a[2], a[4], a[5])
    def quad():
        q = list(r.choice(QUAD)); v = q[:3]; r.shuffle(v); return "%d %d %d %d" % (*[r.choice([1, -1]) * x for x in v], q[3])
    def config():
        d = r.randint(1, 6); k = r.randint(0, 6)
        pl = " ".join("%d %s" % (r.randint(1, 9), r.choice(["1 0 0", "-1 0 0", "0 1 0", "0 -1 0", "0 0 1", "0 0 -1", "3 4 0", "-1 2 2"])) for _ in range(k))
        return "Config %d %d %d %d %d %s %s %s %s %s %s %s %s %s %s %d %s" % (d, r.randint(0, d), r.randint(1, 999), r.randint(1, 9), r.randint(0, 1000), n(3, 2), n(3, 9), sym(), n(3, 9), n(3, 9), sym(), n(3, 9), n(9), n(9), n(3), k, pl)
    def ev(noatt):
        day = r.choice([53737, 54833, 56110, 57205, 57755]) + r.randint(1, 300)
        ms = r.choice([0, 1, 5000, 36000, 36999, 37000, 37001, 38000, 43200000, 86399999, r.randrange(86400000), r.randrange(86400000)])
        while True:
            p = [r.randint(-90, 90) for _ in range(3)]
            if 4900 < sum(x * x for x in p) < 12000: break
        phi = " ".join("1" if i == j else "0" for j in range(7) for i in range(6)) if r.random() < .3 else n(42, 2)
        att = r.choice(["1 0 0 0", "2 1 0 0", "1 1 1 1", "1 0 2 0", "0 1 2 2", "3 1 0 0", "-1 2 -2 4", "1 -1 0 0"])
        return "Eval %d %d %d %d %d %d %d %d %d %d %d %d %s %s %d %s" % (day - r.randint(0, 5), day, ms, r.choice([0, 0, 10, 86400, 5000, -60]), r.randint(1, 3), r.randrange(12), r.randrange(12), r.randint(1, 3), r.randrange(12), *p, quad(), att, noatt, phi)
    sc = [[config()] + [x for _ in range(r.choice([1, 1, 2])) for x in [ev(0)] * r.choice([1, 1, 2]) + ([config()] if r.random() < .2 else [])] for _ in range(c.pick(900, 20000))]
    sr = [[config()] + [ev(int(r.random() < .3)) for _ in range(r.choice([1, 2, 3]))] for _ in range(c.pick(250, 5000))]
    src = [vf.VERIF + "/harness/variational.cpp"] + SRC
    inc = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "src/satellites", "/usr/include/eigen3"]
    exe = c.build("variational", src, incs=inc, flags=("-O1", "-g1", "-DNEW_EOP"))
    rel = c.build("variational_release", src, incs=inc, flags=("-O2", "-g1", "-DNEW_EOP", "-DNDEBUG"))
    c.assumptions += ["the models (gravity, Sun and Moon, drag, atmosphere, attitude, Earth rotation) are stand-ins that record what they are asked and return given values; their own properties are separate", "partials of the Sun's attraction are left out by design"]
    c.conform("VariationalTrace", exe, sc, label="variational", chunk_events=400)
    c.conform("VariationalTrace", rel, sr, label="release", chunk_events=400)
if __name__ == "__main__": vf.main("C38", check)
