#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
SRC = ["src/astrodynamics/drag.cpp", "src/astrodynamics/solar_radiation.cpp"]
QUAD = [(1, 2, 2, 3), (2, 3, 6, 7), (1, 4, 8, 9), (0, 3, 4, 5), (0, 0, 2, 2), (0, 0, 1, 1), (2, 6, 9, 11), (4, 4, 7, 9), (2, 10, 11, 15), (3, 4, 12, 13), (0, 5, 12, 13)]
def check(c):
    r = c.rng
    c.model_check("SurfaceMC", workers=8)
    sc = []
    def quad():
        q = list(r.choice(QUAD)); v = q[:3]; r.shuffle(v); return [r.choice([1, -1]) * x for x in v], q[3]
    for _ in range(c.pick(2500, 60000)):
        s = []
        for _ in range(r.choice([1, 1, 2])):
            p = [r.choice([0, r.randint(-9, 9), r.randint(-90, 90)]) for _ in range(3)]; u, n = quad()
            v = [u[0] - p[1], u[1] + p[0], u[2]]
            s.append("Start %d %d %d %d %d %d %s" % (*p, *v, r.choice(["1", "7e6", "130.5", "6.6e5"])))
            for _ in range(r.choice([1, 2, 4])):
                k = "%d %s %s %s %s" % (n, r.choice(["1", "9.7", "0.25"]), r.choice(["2", "1", "2.3", "-1"]), r.choice(["1", "480", "3.5"]), r.choice(["1", "1e-12", "4e-13"]))
                x = r.randrange(4)
                if x == 0: s.append("Drag " + k)
                elif x == 1: s.append("Date %s %d %d" % (k, r.randint(1, 3), r.randrange(12)))
                elif x == 2: s.append("Partials %s %d %d %d" % (k, *[r.choice([0, r.randint(-5, 5)]) for _ in range(3)]))
                else:
                    d, m = quad()
                    s.append("Light %d %d %d %d %s %s %s %d" % (*[a - b for a, b in zip(p, d)], m, r.choice(["1", "11.5"]), r.choice(["1", "510"]), r.choice(["1", "1.3", "2", "0", "-1"]), r.randrange(2)))
        sc.append(s)
    inc = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "src/astrodynamics"]
    exe = c.build("surface", [vf.VERIF + "/harness/surface.cpp"] + SRC, incs=inc)
    opt = c.build("surface_release", [vf.VERIF + "/harness/surface.cpp"] + SRC, incs=inc, flags=("-O2", "-g1", "-DNDEBUG"))
    c.assumptions += ["velocities through the air and distances of integer length; a satellite at rest in the air is not covered"]
    c.conform("SurfaceTrace", exe, sc, label="surface", chunk_events=2500)
    c.conform("SurfaceTrace", opt, sc[:len(sc) // 3], label="release", chunk_events=2500)
if __name__ == "__main__": vf.main("C37", check)
