#!/usr/bin/env python3
import itertools, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "/usr/include/eigen3"]
QUADS = [(0, 0, 1, 1), (1, 2, 2, 3), (2, 3, 6, 7), (1, 4, 8, 9), (4, 4, 7, 9), (2, 6, 9, 11), (6, 6, 7, 11), (0, 3, 4, 5), (3, 4, 12, 13), (2, 5, 14, 15), (2, 10, 11, 15), (0, 5, 12, 13), (1, 12, 12, 17), (8, 9, 12, 17), (1, 6, 18, 19)]
def check(c):
    r = c.rng
    c.model_check("ObsCorrMC", subst={"L": c.pick(2, 3), "G": c.pick(3, 4)}, workers=8)
    beh = c.model_check("ObsCorrMC", "ObsCorrGen.cfg", workers=8)
    def js(**k): return json.dumps(k, separators=(",", ":"))[1:-1]
    V = sorted({(tuple(x * y for x, y in zip(p, s)), q[3]) for q in QUADS for p in itertools.permutations(q[:3]) for s in itertools.product((1, -1), repeat=3)})
    def iono(g, k, unit): return "Iono %s %s %d %d" % (js(g=g, k=k), unit, g, k)
    def clock(p=None):
        p, n = p or r.choice(V); u = r.choice([1, 2, 10, 500, r.randint(1, 1000)]); j = r.choice([0, 2, 4, -2, r.randint(0, 10)]); v = [r.choice([0, r.randint(-30, 30)]) for _ in range(3)]
        if j % 2 and p[2] == 0 and n == 1: j += 1
        s = r.choice([6378137, 6400000, 7700000, r.randint(6370000, 42000000)]) / n; Re = r.choice([6378136.6, 6378136.3, r.randint(6000000, 7000000)])
        return "Clock %s %.17g %d %d %d %d %d %d %d %d %d %.17g" % (js(u=u, v=v, j=j, p=list(p), n=n), s, u, *v, j, *p, n, Re)
    sc = []
    for b in beh:
        m, n, unit = r.choice([1, 7, 1000]), r.choice([1, 3, 50]), r.choice(["1", "1e-3", "1e3", "0.25"])
        sc.append([iono(g * m, k * n, unit) for g, k in b])
    for _ in range(c.pick(400, 8000)): # passes: range and ionosphere change from one observation to the next
        g, k = r.randint(0, 20000), r.choice([0, r.randint(0, 300)]); s = []
        for _ in range(6):
            s.append(iono(g, k, r.choice(["1", "1e-2"]))); g += r.randint(-2000, 2000); k = max(0, k + r.choice([0, 0, r.randint(-40, 40)]))
        sc.append(s + ["Any %s %d %d" % (js(a=a, b=b), a, b) for a, b in [(r.randint(-3000, 3000), r.randint(-3000, 3000))]])
    for v in V: sc.append([clock(v)])
    for _ in range(c.pick(1500, 40000)): sc.append([clock()])
    exe = c.build("obscorr", [vf.VERIF + "/harness/obscorr.cpp", "src/relativity/relativistic_clock_correction.cpp"], incs=INC, flags=("-O1", "-g1"))
    c.assumptions += ["integer numbers of cycles and potentials; positions of integer length", "sine of latitude squared within 0.0034 (geocentric or ellipsoidal latitude) away from equator and poles"]
    c.conform("ObsCorrTrace", exe, sc, chunk_events=2000)
if __name__ == "__main__": vf.main("C41", check)
