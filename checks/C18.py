#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

HEAD = ["C  mass and centre of gravity history", "/ 2457000.5 0.0 1.0 2.0 3.0 4.0", "C", "/", "C 2400000.5 0 1 2 3 4", "/" + " " * 60]
def check(c):
    r = c.rng
    c.model_check("SatMassMC", subst={"N": c.pick(3, 4)}, workers=8)
    beh = c.model_check("SatMassMC", "SatMassGen.cfg", subst={"N": 2}, workers=8)
    if len(beh) > c.pick(500, 8000): beh = r.sample(beh, c.pick(500, 8000))
    def sp(): return " " * r.choice([1, 1, 2, 5])
    def val(): return r.choice([0, r.randint(-99999, 99999), r.randint(-999999, 999999), r.randint(-99, 99)])
    def num(v):
        s = "%.4f" % (v / 1e4)
        if r.random() < .3 and s.rstrip("0") and "." in s: s = s.rstrip("0").rstrip(".") if r.random() < .5 else s.rstrip("0") + "0"
        if s in ("-0", "-0.0", ""): s = "0"
        return s if r.random() < .9 else "%.4e" % (v / 1e4) if abs(v) < 99999 else s
    def rec(L):
        sec = L["ms"] / 1000.0
        secs = r.choice(["%.3f" % sec, "%.6f" % sec, ("%d" % sec) if sec == int(sec) else "%.3f" % sec])
        jd = r.choice(["%d.5", "%d.50", "%d.500000"]) % (2400000 + L["d"])
        vs = [num(x) for x in L["v"]]
        if not L["dok"]:
            k = r.randrange(7)
            if k == 5: return jd + r.choice([".5", "-1", "+3"]) + " " + secs + " " + " ".join(vs)
            if k == 6: return jd + " " + secs + r.choice(["-1", ".5.5" if "." not in secs else ".5"]) + " " + " ".join(vs)
            if k == 0: return "x" + jd + " " + secs + " " + " ".join(vs)
            if k == 1: return jd + "x " + secs + " " + " ".join(vs)
            if k == 2: return jd
            if k == 3: return jd + " " + secs + "s " + " ".join(vs)
            return jd + " --- " + " ".join(vs)
        if not L["vok"]:
            k, i = r.randrange(3), r.randrange(4)
            if k == 0: vs = vs[:i]
            elif k == 1: vs[i] = r.choice(["x", "---", "*****"])
            else: vs[min(i, 2)] += "x"
            return r.choice(["", " "]) + jd + sp() + secs + sp() + sp().join(vs) + ("" if vs else " ")
        s = r.choice(["", " ", "   "]) + jd + sp() + secs
        for v in vs: s += sp() + v
        return s + r.choice(["", "", "", "  ", " remark"])
    def render(F, qs):
        for L in F: L["v"] = [val() for _ in range(4)] if L["k"] == "rec" else []
        txt = "".join((rec(L) if L["k"] == "rec" else r.choice(HEAD)) + "\n" for L in F)
        if txt and r.random() < .15: txt = txt[:-1]
        there = r.random() >= .02
        sc = [vf.wfile("m.txt", txt if there else None), vf.jline("File", lines=F)]
        for q in qs: sc.append("Query m.txt %d %s %d %d" % (there, r.choice(["j3", "c2"]), q["d"], q["ms"]))
        return sc
    sc = []
    for b in beh:
        day = r.choice([51544, 57754, r.randint(50000, 60000)]); step = r.choice([1, 500, 1000, 43199999, 28800000])
        t = lambda x: dict(x, d=day + x["d"], ms=x["ms"] * step)
        sc.append(render([t(L) for L in b["F"]], [t(b["q"])]))
    for _ in range(c.pick(500, 6000)):
        n = r.choice([0, 1, 3, 6, 12, 40, 120]); day, ms = r.randint(50000, 60000), r.choice([0, 0, r.randrange(86400000)])
        F, qs = [], []
        bad = r.random() < .25
        ordered = r.random() < .85
        for i in range(n):
            if r.random() < .15: F.append(dict(k="skip", d=0, ms=0, dok=True, vok=True)); continue
            k = r.random()
            if k < .4: day += r.choice([1, 2, 30, r.randint(1, 400)]); ms = r.choice([0, ms, r.randrange(86400000)])
            elif k < .9: ms += r.choice([1, 1000, r.randint(1, 3600000)])
            elif k < .95: pass
            if not ordered and r.random() < .3: day -= r.randint(1, 40)
            day, ms = day + ms // 86400000, ms % 86400000
            ok = not (bad and r.random() < .1)
            dok = ok or r.random() < .5
            F.append(dict(k="rec", d=day, ms=ms, dok=dok, vok=ok))
        R = [L for L in F if L["k"] == "rec"] or [dict(d=day, ms=ms)]
        for _ in range(r.choice([1, 4, 10])):
            L = r.choice([R[0], R[-1], r.choice(R), r.choice(R)]); x = L["d"] * 86400000 + L["ms"] + r.choice([0, 0, 1, -1, 500, -500, r.randint(-86400000, 86400000), r.randint(-4000, 4000) * 1000000])
            qs.append(dict(d=x // 86400000, ms=x % 86400000))
        sc.append(render(F, qs))
    exe = c.build("satmass", [vf.VERIF + "/harness/satmass.cpp", "src/satellites/satellite_corrections.cpp"], incs=[vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "src/satellites", "/usr/include/eigen3"])
    c.assumptions += ["lines are shorter than 255 characters and no line is empty; record dates are Julian dates at midnight plus seconds of day, as in the distributed files",
                      "an unreadable record after the epoch may or may not be noticed; files whose records are out of order are followed as the reader reads them (up to the first record after the epoch)"]
    c.conform("SatMassTrace", exe, sc, chunk_events=1500)
vf.main("C18", check)
