#!/usr/bin/env python3
import datetime, itertools, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
SRC = ["src/sunmoon.cpp", "src/planets/sunpos.cpp", "src/planets/moonpos.cpp", "src/gravity/point_mass_acceleration.cpp"]
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "/usr/include/eigen3"]
QUADS = [(1, 2, 2, 3), (2, 3, 6, 7), (1, 4, 8, 9), (4, 4, 7, 9), (2, 6, 9, 11), (6, 6, 7, 11), (0, 3, 4, 5), (3, 4, 12, 13), (2, 5, 14, 15), (2, 10, 11, 15), (0, 5, 12, 13), (0, 0, 6, 6), (2, 4, 4, 6), (0, 6, 8, 10), (4, 6, 12, 14)]
# UTC instants: longitudes of the Sun (degrees); conjunctions and oppositions of an eclipse
SEASONS = [("2000-03-20 07:35", 0), ("2000-06-21 01:48", 90), ("2000-09-22 17:28", 180), ("2000-12-21 13:37", 270), ("2010-03-20 17:32", 0), ("2010-06-21 11:28", 90), ("2010-09-23 03:09", 180), ("2010-12-21 23:38", 270), ("2020-03-20 03:50", 0), ("2020-06-20 21:44", 90), ("2020-09-22 13:31", 180), ("2020-12-21 10:02", 270)]
ECLIPSES = [("1991-07-11 19:06", 0), ("1999-08-11 11:03", 0), ("2006-03-29 10:11", 0), ("2009-07-22 02:35", 0), ("2017-08-21 18:26", 0), ("2024-04-08 18:17", 0), ("2000-01-21 04:44", 180), ("2011-06-15 20:13", 180), ("2015-09-28 02:47", 180), ("2018-07-27 20:22", 180)]
def check(c):
    r = c.rng
    c.model_check("ThirdBodyMC", subst={"L": c.pick(3, 5)}, workers=8)
    beh = c.model_check("ThirdBodyMC", "ThirdBodyGen.cfg", subst={"L": 3, "Emit": "TRUE", "N": 3}, workers=8)
    V = []
    for a, b, d, n in QUADS:
        for p in set(itertools.permutations((a, b, d))):
            for s in itertools.product((1, -1), repeat=3): V.append((tuple(x * y for x, y in zip(p, s)), n))
    V = sorted(set(V))
    def query(r0=None):
        while True:
            s, S = r.choice(V); d, D = r.choice(V); rr = tuple(x - y for x, y in zip(s, d))
            m = [(v, n, w, N2) for v, n in r.sample(V, 120) for w, N2 in [(tuple(x - y for x, y in zip(v, rr)), 0)] if w in LEN]
            if m: break
        v, n, w, _ = r.choice(m); W = LEN[w]
        return dict(r=list(rr), sun=dict(s=list(s), S=S, d=list(d), D=D, g=r.choice([1, 1, 2, 3])), moon=dict(s=list(v), S=n, d=list(w), D=W, g=r.choice([1, 1, 2, 5])))
    LEN = dict(V)
    def third(q, t):
        sun, moon = q["sun"], q["moon"]
        js = json.dumps(dict(q, day=t[0], ms=t[1]), separators=(",", ":"))[1:-1]
        return "Third %s %d %d %d %d %d %d %d %d %d %d %d %d %d %d" % (js, t[0], t[1], *q["r"], sun["g"] * (sun["S"] * sun["D"]) ** 3, *sun["s"], moon["g"] * (moon["S"] * moon["D"]) ** 3, *moon["s"], moon["D"] ** 2)
    def epoch(): return (r.choice([51543, 51544, 51545, 57754, r.randint(48000, 62000), r.randint(55000, 62000)]), r.choice([0, 43200000 - 32184, 86400000 - 32184, 43200000, r.randrange(86400000), r.randrange(86400000), r.randrange(86400) * 1000]))
    def places(t, season=-1, eclipse=-1):
        days = (t[0] * 86400000 + t[1] - 51544 * 86400000 - 43200000) // 86400000
        js = json.dumps(dict(days=days, season=season, eclipse=eclipse), separators=(",", ":"))[1:-1]
        return "Places %s %d %d" % (js, t[0], t[1])
    def utc(s):
        x = datetime.datetime.strptime(s, "%Y-%m-%d %H:%M") - datetime.datetime(1858, 11, 17) + datetime.timedelta(seconds=65)
        return x.days, x.seconds * 1000
    sc = []
    for b in beh * c.pick(1, 6):
        E = [epoch() for _ in range(3)]; Q = [query() for _ in range(3)]
        sc.append([third(Q[q - 1], E[e - 1]) for e, q in b])
    for _ in range(c.pick(300, 6000)): sc.append([third(query(), epoch())])
    for s, deg in SEASONS: sc.append([places(utc(s), season=deg)])
    for s, deg in ECLIPSES: sc.append([places(utc(s), eclipse=deg)])
    for _ in range(c.pick(150, 3000)):
        d = r.randint(33300, 69800); k = r.choice([1, 1, 7, 30])
        sc.append([places((d + i * k, r.randrange(86400000))) for i in range(12)])
    exe = c.build("thirdbody", [vf.VERIF + "/harness/thirdbody.cpp"] + SRC, incs=INC, flags=("-O1", "-g1", "-DNEW_EOP"))
    c.assumptions += ["the ephemeris is a stand-in that tells what it was asked and answers with given vectors", "lengths of the vectors are integers, gravitational parameters make accelerations integers", "years 1950-2050 for the series; accuracies 60\" (Sun; 1200\" a century for the series that holds the perigee), 0.36 degrees (Moon)"]
    c.conform("ThirdBodyTrace", exe, sc, chunk_events=400)
if __name__ == "__main__": vf.main("C40", check)
