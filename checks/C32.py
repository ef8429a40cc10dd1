#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
SRC = ["src/atmosphere/nrlmsise00_%s.cpp" % n for n in "ccor ccor2 data densm densu dnet ghp7 glatf glob7s globe7 gtd7 gtd7d gts7 params splini splint".split()] + ["src/atmosphere/nrlmsise_spline.cpp"]
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "src/var", "src/atmosphere"]
MASS = [48, 0, 4, 16, 28, 32, 40, 1, 14, 17, 49]
LIM = [0, 32500, 62500, 72500, 110000, 120000, 160000, 200000, 240000, 250000, 300000, 320000, 450000, 117200, 116000]
ZONE = {1: (300000, 1500000), 2: (123500, 300000), 3: (72500, 116000), 4: (62501, 72499), 5: (32501, 62499), 6: (0, 32500)}
# sample results that come with the published model (all 17 cases)
KNOWN = [((172, 29000, 400), "6.665177E+05 1.138806E+08 1.998211E+07 4.022764E+05 3.557465E+03 4.074714E-15 3.475312E+04 4.095913E+06 2.667273E+04 1250.540 1241.416"),
 ((81, 29000, 400), "3.407293E+06 1.586333E+08 1.391117E+07 3.262560E+05 1.559618E+03 5.001846E-15 4.854208E+04 4.380967E+06 6.956682E+03 1166.754 1161.711"),
 ((172, 75000, 1000), "1.123767E+05 6.934130E+04 4.247105E+01 1.322750E-01 2.618848E-05 2.756772E-18 2.016750E+04 5.741256E+03 2.374394E+04 1239.892 1239.891"),
 ((172, 29000, 100), "5.411554E+07 1.918893E+11 6.115826E+12 1.225201E+12 6.023212E+10 3.584426E-10 1.059880E+07 2.615737E+05 2.818962E-42 1027.318 206.888"),
 ((172, 29000, 0), "1.375488E+14 0 2.049687E+19 5.498695E+18 2.451733E+17 1.261066E-03 0 0 0 1027.318 281.465"),
 ((172, 29000, 10), "4.427443E+13 0 6.597567E+18 1.769929E+18 7.891680E+16 4.059139E-04 0 0 0 1027.318 227.418"),
 ((172, 29000, 30), "2.127829E+12 0 3.170791E+17 8.506280E+16 3.792741E+15 1.950822E-05 0 0 0 1027.318 237.439"),
 ((172, 29000, 50), "1.412184E+11 0 2.104370E+16 5.645392E+15 2.517142E+14 1.294709E-06 0 0 0 1027.318 279.555"),
 ((172, 29000, 70), "1.254884E+10 0 1.874533E+15 4.923051E+14 2.239685E+13 1.147668E-07 0 0 0 1027.318 219.073"),
 ((172, 29000, 400, "lat", 0), "1.851122E+06 1.476555E+08 1.579356E+07 2.633795E+05 1.588781E+03 4.809630E-15 5.816167E+04 5.478984E+06 1.264446E+03 1212.396 1208.135"),
 ((172, 29000, 400, "lon", 0), "8.673095E+05 1.278862E+08 1.822577E+07 2.922214E+05 2.402962E+03 4.355866E-15 3.686389E+04 3.897276E+06 2.667273E+04 1220.146 1212.712"),
 ((172, 29000, 400, "lst", 4000), "5.776251E+05 6.979139E+07 1.236814E+07 2.492868E+05 1.405739E+03 2.470651E-15 5.291986E+04 1.069814E+06 2.667273E+04 1116.385 1112.999"),
 ((172, 29000, 400, "fa", 700), "3.740304E+05 4.782720E+07 5.240380E+06 1.759875E+05 5.501649E+02 1.571889E-15 8.896776E+04 1.979741E+06 9.121815E+03 1031.247 1024.848"),
 ((172, 29000, 400, "f", 1800), "6.748339E+05 1.245315E+08 2.369010E+07 4.911583E+05 4.578781E+03 4.564420E-15 3.244595E+04 5.370833E+06 2.667273E+04 1306.052 1293.374"),
 ((172, 29000, 400, "ap", 400), "5.528601E+05 1.198041E+08 3.495798E+07 9.339618E+05 1.096255E+04 4.974543E-15 2.686428E+04 4.889974E+06 2.805445E+04 1361.868 1347.389"),
 ((172, 29000, 400, "aparr", [1000] * 7), "5.196477E+05 1.274494E+08 4.850450E+07 1.720838E+06 2.354487E+04 5.881940E-15 2.500078E+04 6.279210E+06 2.667273E+04 1426.412 1408.608"),
 ((172, 29000, 100, "aparr", [1000] * 7), "4.260860E+07 1.241342E+11 4.929562E+12 1.048407E+12 4.993465E+10 2.914304E-10 8.831229E+06 2.252516E+05 2.415246E-42 1027.318 193.407")]
def me(s):
    m, e = ("%.7e" % float(s)).split("e")
    return "%d %d" % (int(m.replace(".", "")), int(e))
def check(c):
    r = c.rng
    c.model_check("MsisMC", subst={"H": 3, "Emit": "FALSE"} if c.tier == "thorough" else {"H": 2, "Emit": "FALSE"}, workers=8)
    beh = c.model_check("MsisMC", subst={"Inst": "{1, 2}"}, workers=8)
    def switches():
        x = r.random()
        if x < .4: s = [1] * 25
        elif x < .5: s = [0] * 25
        elif x < .9:
            s = [1] * 25
            for i in r.sample(range(25), r.choice([1, 2, 5, 12])): s[i] = r.choice([0, 0, 2])
            for g in r.sample([[0], [9], [11, 12], [6, 7, 13], [2, 3, 4, 5], [14], [1]], 2):
                if r.random() < .5:
                    for i in g: s[i] = 0
        else: s = [r.choice([0, 1, 2]) for _ in range(25)]
        return s
    def place(zone=None):
        a, b = ZONE[zone or r.randint(1, 6)]
        alt = r.choice([l for l in LIM if a <= l <= b] or [a]) if r.random() < .3 else r.randint(a, b)
        return dict(year=r.choice([1999, 2020]), doy=r.randint(1, 366), sec=r.randint(0, 863999), alt=alt, lat=r.choice([-9000, 9000, 0, r.randint(-9000, 9000), r.randint(-9000, 9000)]), lon=r.randint(-18000, 36000), lst=r.randint(0, 23999),
                    fa=r.randint(650, 2500), f=r.randint(650, 2500), ap=r.choice([0, 40, r.randint(0, 1500)]), aparr=[r.choice([0, 40, r.randint(0, 1500)]) for _ in range(7)], set=switches())
    def line(x, inst, how, kind, mass, meters, cmd="C"):
        return "%s %d %d %d %d %d " % (cmd, inst, how, kind, mass, meters) + " ".join(str(x[k]) for k in "year doy sec alt lat lon lst fa f ap".split()) + " " + " ".join(map(str, x["aparr"])) + " " + " ".join(map(str, x["set"]))
    def near(x):  # the same inputs, one or several of them changed
        y = dict(x)
        for k in r.sample(["year", "doy", "sec", "lat", "lon", "lst", "fa", "f", "ap", "aparr", "alt"], r.choice([1, 1, 2, 4])):
            if k == "alt": y["alt"] = place()["alt"]
            else: y[k] = place()[k]
        return y
    sc = []
    # histories of the model: two instances, zones and species; every call is repeated later by another instance and by a new one
    for b in r.sample(beh, c.pick(500, 6000)):
        base = place(); calls = []
        for inst, zone, mass, arr in b:
            x = dict(base) if r.random() < .5 else place(zone)
            x["alt"] = place(zone)["alt"]; x["set"] = list(x["set"]); x["set"][8] = -1 if arr else max(0, x["set"][8])
            calls.append((x, r.randrange(2), r.choice([1, 4, 14, 16, 32, 40]) if mass == 4 else mass, r.randrange(2)))
        s = ["New"] + [line(x, b[i][0], 1, *rest) for i, (x, *rest) in enumerate(calls)]
        for x, *rest in r.sample(calls, len(calls)): s += [line(x, r.choice([1, 2]), 1, *rest), line(x, 3, 0, *rest)]
        sc.append(s)
    # one place and time: every species, both totals, both units, and with inputs changed that may or may not be in use
    for _ in range(c.pick(120, 3000)):
        x = place()
        if r.random() < .35: x["set"][8] = -1
        s = ["New"]; todo = []
        for m in MASS if r.random() < .5 else [48, r.choice(MASS[1:])]: todo += [(x, r.randrange(2), m, 0)] + ([(x, r.randrange(2), m, 1)] if r.random() < .3 else [])
        for k in (0, 1): todo += [(x, k, 48, 0), (x, k, 48, 1)]
        for _ in range(8): todo.append((near(x), 0, 48, 0))
        r.shuffle(todo)
        for y, k, m, u in todo: s.append(line(y, r.choice([1, 2]), r.choice([0, 1, 1, 3]), k, m, u))
        sc.append(s)
    # one input changed at a time, with the switches that concern it off
    for _ in range(c.pick(150, 3000)):
        x = place(); x["set"] = [1] * 25
        k, off = r.choice([("year", []), ("doy", [2, 3, 4, 5]), ("sec", [11, 12]), ("sec", [9]), ("lon", [9]), ("lon", [10]), ("ap", [8, 10, 11]), ("f", [0]), ("lst", [6, 7, 13]), ("fa", [0]), ("f", [0]), ("ap", [8, 12]), ("ap", [8, 9]), ("aparr", []), ("lat", list(range(25))), ("aparr", [8])])
        for i in off: x["set"][i] = 0
        if k == "ap" and r.random() < .3: x["set"] = [1] * 25; x["set"][8] = -1
        s = ["New", line(x, 1, 0, 0, 48, 0)]
        for _ in range(3):
            y = dict(x); y[k] = place()[k]; s.append(line(y, r.choice([1, 2]), 1, 0, 48, 0))
        sc.append(s)
    kn = []
    for (doy, sec, alt, *chg), want in KNOWN:
        x = dict(year=0, doy=doy, sec=sec * 10, alt=alt * 1000, lat=6000, lon=-7000, lst=16000, fa=1500, f=1500, ap=40, aparr=[0] * 7, set=[1] * 25)
        if chg: x[chg[0]] = chg[1]
        if chg and chg[0] == "aparr": x["set"][8] = -1
        kn.append(line(x, 1, 1, 0, 48, 0, "K") + " " + " ".join(me(w) for w in want.split()))
    for _ in range(c.pick(3, 20)): sc.append(["New"] + r.sample(kn, len(kn)))
    exe = c.build("msis", [vf.VERIF + "/harness/msis.cpp"] + SRC, incs=INC, flags=["-include", "limits", "-fno-lifetime-dse"])
    c.assumptions += ["sample results of the published model compared to 3e-3 (densities) and 1e-4 (temperatures)"]
    c.conform("MsisTrace", exe, sc, label="calls", chunk_events=900)
if __name__ == "__main__": vf.main("C32", check)
