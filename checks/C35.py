#!/usr/bin/env python3
import os, sys, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
SRC = ["src/astrodynamics/occultation.cpp"]
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "src/astrodynamics"]
def check(c):
    r = c.rng
    c.model_check("ShadowMC", subst={"Step": c.pick(100, 25)}, workers=8)
    sc = []
    def put(s, a, b): return "S %d %d %d %d" % (r.randrange(10), s, a, b)
    def ok(s, a, b): return s * s + a * a + b * b > 1010 ** 2 and a * a + b * b < 210000
    # sweeps outwards across the edges
    for _ in range(c.pick(500, 8000)):
        s = -r.choice([1100, 1200, 1250, 2000, 4000, 7000, r.randint(1100, 30000), r.randint(1100, 3000)]); k = r.randrange(10); o = []
        w0 = 1000 - 0.0046 * -s; w1 = 1000 + 0.0047 * -s
        for f in sorted([-300, -50, -3, -1, -.5, 0, .1, .3, .5, .7, .9, 1, 1.5, 2, 4, 50] + [r.uniform(-.2, 1.2) for _ in range(8)]):
            q = w0 + f * (w1 - w0) if -1 <= f <= 2 else w1 + f
            if q < 0 or q > 1450: continue
            ph = r.choice([0, .5, 1, 1.5, r.random() * 2]) * math.pi
            a, b = round(q * math.cos(ph)), round(q * math.sin(ph))
            o.append((a * a + b * b, "S %d %d %d %d" % (k, s, a, b)))
        sc.append([x[1] for x in sorted(o)])
    # around the edge of the flattened Earth
    for _ in range(c.pick(60, 1500)):
        o = []
        for _ in range(20):
            b = r.choice([-1, 1]) * r.randint(300, 996); q = 1e6 - 1.006717 * b * b + r.choice([-300, -150, 120, 300])
            if q > 0: o.append("S %d %d %d %d" % (r.randrange(4), -r.randint(1100, 3000), round(math.sqrt(q)) * r.choice([-1, 1]), b))
        sc.append(o)
    # on the axis, beside and before the Earth, anywhere
    for _ in range(c.pick(300, 6000)):
        o = []
        for _ in range(20):
            x = r.random()
            if x < .25: p = (r.choice([-1, -1, 1]) * r.randint(1050, 9000), 0, 0)
            elif x < .4: p = (r.randint(-30, 30), r.choice([-1, 1]) * r.randint(1012, 1400), r.randint(-300, 300))
            elif x < .6: p = (r.randint(0, 5000), r.randint(-1400, 1400), r.randint(-1400, 1400))
            else: p = (-r.randint(0, 5000), r.randint(-1400, 1400), r.randint(-1400, 1400))
            if sum(v * v for v in p) > 1010 ** 2 and p[1] ** 2 + p[2] ** 2 < 2100000 / 10 * 10: o.append(put(*p))
        sc.append(o)
    exe = c.build("shadow", [vf.VERIF + "/harness/shadow.cpp"] + SRC, incs=INC)
    c.assumptions += ["Sun at 1 AU; satellite above the ground and less than 30 Earth radii behind the Earth", "places within 3e-5 Earth radii of an edge are not judged"]
    c.conform("ShadowTrace", exe, sc, label="shadow", chunk_events=3000)
if __name__ == "__main__": vf.main("C35", check)
