#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

def check(c):
    r = c.rng
    c.model_check("C04MC", subst={"N": c.pick(4, 5)}, workers=8)
    beh = c.model_check("C04MC", "C04Gen.cfg", subst={"N": 3}, workers=8)
    if len(beh) > c.pick(1200, 15000): beh = r.sample(beh, c.pick(1200, 15000))
    BASES = [57000, 57203, 57753, 56107, 49999, 59579]
    SKIP = ["", " ", "#", "# 2015   7   1  57204   0.1 0.1 0.1 0.1 0.1 0.1", "                     EARTH ORIENTATION PARAMETER (EOP) PRODUCT CENTER",
            "  Date      MJD      x          y        UT1-UTC       LOD         dX        dY        x Err", "     (0h UTC)", "                          57205 12 0.1 0.2"]
    def civil(mjd):
        import datetime
        return datetime.date(1858, 11, 17) + datetime.timedelta(days=mjd)
    def val(lim): return r.choice([0, r.randint(-lim, lim), r.randint(-999, 999)])
    def text(mjd, v):
        d = civil(mjd)
        sep = r.choice(["%11.6f%11.6f%12.7f%12.7f%11.6f%11.6f", "%11.6f%11.6f%12.7f%12.7f%11.6f%11.6f", " %.6f  %.6f   %.7f %.7f %.6f    %.6f"])
        nums = sep % tuple(x / 1e7 for x in v)
        tail = r.choice(["%11.6f%11.6f%11.7f%11.7f%12.6f%12.6f" % (0.03, 0.03, 0.002, 0.0014, 0.004774, 0.002), "", "   0.030000"])
        return "%4d%4d%4d%7d" % (d.year, d.month, d.day, mjd), nums, tail
    def line(L, base):
        """abstract line -> (abstract line with values, text)"""
        if L["k"] == "skip": return dict(k="skip", d=0, ok=True, v=[]), r.choice(SKIP)
        if L["k"] == "bad":
            d = civil(base + r.randint(0, 3))
            t = r.choice(["%4d%4d%4d" % (d.year, d.month, d.day), "%4d" % d.year, "%4d%4d%4d   " % (d.year, d.month, d.day), "%4d%4d%4d  mjd   0.1 0.1" % (d.year, d.month, d.day), "x", "2015   7   "])
            return dict(k="bad", d=0, ok=False, v=[]), t
        mjd = base + L["d"]
        # columns printed with six decimals hold multiples of 1e-6
        v = [val(9999999) * (10 if i in (0, 1, 4, 5) else 1) for i in range(6)]
        v = [x if abs(x) < 10**8 else x // 10 for x in v]
        v = [x - x % 10 if i in (0, 1, 4, 5) else x for i, x in enumerate(v)]
        head, nums, tail = text(mjd, v)
        if L["ok"]: return dict(k="day", d=mjd, ok=True, v=v), head + nums + tail
        k = r.choice(["cut", "cut", "word", "head"])
        if k == "head": t = head
        elif k == "cut": toks = nums.split(); t = head + " " + " ".join(toks[:r.randint(0, 5)])
        else: toks = nums.split(); toks[r.randrange(6)] = r.choice(["*****", "-", "x1.0", "--0.1", "."]); t = head + " " + " ".join(toks)
        return dict(k="day", d=mjd, ok=False, v=[]), t
    def scen(lines, base, asks):
        ls = [line(L, base) for L in lines]
        txt = "\n".join(t for _, t in ls)
        if ls and (r.random() < .8 or ls[-1][1] == ""): txt += "\n"
        s = [vf.wfile("eop.txt", txt), vf.jline("File", lines=[a for a, _ in ls])]
        for (a, b) in asks:
            s.append("Parse %d %d %d %d" % (base + a, base + b, 0 if r.random() < .02 else 1, r.choice([0, 0, 1, 2, 10, max(1, b - a), max(1, b - a) + 3])))
        return s
    sc = [scen(b["F"], r.choice(BASES), [(b["s"], b["e"])]) for b in beh]
    day = lambda d, ok=True: dict(k="day", d=d, ok=ok)
    for _ in range(c.pick(250, 3000)):
        base = r.choice(BASES); n = r.randint(1, c.pick(14, 30)); d0 = r.randint(0, 3)
        ls = [day(d0 + i) for i in range(n)]
        for _ in range(r.choice([0, 0, 1, 2])):
            i = r.randrange(len(ls)) if ls else 0
            k = r.choice(["skip", "skip", "skip", "drop", "dup", "notok", "bad", "swap"])
            if not ls: break
            if k == "skip": ls.insert(i, dict(k="skip"))
            elif k == "drop": del ls[i]
            elif k == "dup": ls.insert(i, dict(ls[i]))
            elif k == "notok" and ls[i]["k"] == "day": ls[i] = day(ls[i]["d"], False)
            elif k == "bad": ls.insert(i, dict(k="bad"))
            elif k == "swap" and i + 1 < len(ls): ls[i], ls[i + 1] = ls[i + 1], ls[i]
        if r.random() < .5: ls = [dict(k="skip")] * r.randint(1, 5) + ls
        asks = []
        for _ in range(3):
            a = r.randint(0, d0 + n + 1); asks.append((a, a + r.choice([0, 1, 2, 5, n, -1, -7, r.randint(0, n)])))
        asks.append((d0, d0 + n)); r.shuffle(asks)
        sc.append(scen(ls, base, asks))
    exe = c.build("c04", [vf.VERIF + "/harness/c04.cpp", "src/iers/parse_c04.cpp"], incs=[vf.VERIF + "/shim", vf.VERIF + "/lib", "src"])
    c.assumptions += ["lines have fewer than 256 characters; data lines start in the first column with the 12-character date, comment and header lines with a blank or '#'",
                      "whether a line that is no data line at all spoils a file that is otherwise complete is left open", "UTC-TAI from the calendar library's table (stand-in, 2005-2021)"]
    c.conform("C04Trace", exe, sc, chunk_events=2500)
vf.main("C16", check)
