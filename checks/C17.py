#!/usr/bin/env python3
import os, sys, math, datetime
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

LEAP = [56109, 57204, 57754]      # days that begin after a leap second
def stamp(mjd0, q):
    """UTC stamp, TAI time (quarter seconds) of q quarter seconds of the UTC clock after mjd0"""
    mjd, qs = mjd0 + q // 345600, q % 345600
    d = datetime.date(1858, 11, 17) + datetime.timedelta(mjd)
    tai = q + 4 * sum(1 for x in LEAP if mjd0 < x <= mjd)
    s, ms = qs // 4, qs % 4 * 250
    return "%04d-%02d-%02d %02d:%02d:%02d.%03d" % (d.year, d.month, d.day, s // 3600, s // 60 % 60, s % 60, ms), tai
def check(c):
    r = c.rng
    c.model_check("AttitudeMC", subst={"N": c.pick(5, 6), "Q": c.pick(2, 3)}, workers=8)
    c.model_check("AttitudeMC", subst={"N": 5, "W": c.pick(2, 4), "Q": c.pick(2, 3), "T": 3}, workers=8)
    beh = c.model_check("AttitudeMC", "AttitudeGen.cfg", subst={"N": c.pick(3, 4)}, workers=8)
    if len(beh) > c.pick(500, 6000): beh = r.sample(beh, c.pick(500, 6000))
    def line(st, a, axis):
        h = a * 1e-5 / 2
        v = [math.cos(h), 0.0, 0.0, 0.0]; v[1 + axis] = math.sin(h)
        if r.random() < .4: v = [-x for x in v]
        f = r.choice(["%.15f", "%.12f", "%+.15f" if False else "%.14f", "%.15e"])
        t = lambda n: "".join(r.choice("0123456789.- ") for _ in range(n))
        s = st + "\t" + t(10) + "\t" + f % v[0] + "\t"
        for x in v[1:]: s += t(4) + "\t" + t(10) + "\t" + f % x + "\t"
        return s
    def bad(st, axis):
        s = line(st, r.randint(-99999, 99999), axis); k = r.randrange(6)
        if k == 0: return ""
        if k == 1: return s[:r.randrange(1, len(s) - 1)].rstrip("0123456789")      # cut, never right behind a complete number
        if k == 2: return "x" + s
        if k == 3: return s[:35] + "x" + s[35:]
        if k == 4: return s[:5] + "13" + s[7:]
        f = s.split("\t"); f[r.choice([2, 5, 8, 11, 11])] = r.choice(["", "----", "nil"]); return "\t".join(f)
    COM = ["# comment", "#", "# 2020-01-01 00:00:00.000\t1\t2", "#" + "x" * 100]
    def render(mjd0, F, qs):
        axis = r.randrange(3); out, ev, stp = [], [], stamp(mjd0, 0)[0]
        for L in F:
            if L["k"] == "rec":
                stp, tai = stamp(mjd0, L["t"]); out.append(line(stp, L["a"], axis)); ev.append(dict(k="rec", t=tai, a=L["a"]))
            elif L["k"] == "skip": out.append(r.choice(COM) if r.random() < .5 else "#" + line(stp, r.randint(-99999, 99999), axis)[1:]); ev.append(dict(k="skip", t=0, a=0))
            else: out.append(bad(stamp(mjd0, L["t"])[0] if "t" in L else stp, axis)); ev.append(dict(k="bad", t=0, a=0))
        there = r.random() > .02
        txt = "\n".join(out) + ("\n" if out and (r.random() < .8 or not out[-1]) else "")
        sc = [vf.wfile("q.txt", txt if there else None), vf.jline("File", lines=ev), "Open q.txt %d %d" % (there, axis)]
        for q in qs:
            st, tai = stamp(mjd0, q); sc.append("Query %s %d" % (st, tai))
        return sc
    def step(a): return max(-300000, min(300000, a + r.choice([0, r.randint(-100, 100), r.randint(-100000, 100000), r.randint(-200000, 200000)])))
    sc = []
    for b in beh:
        k, m, a = r.choice([1, 2, 4, 40, 128, 400]), r.choice([56108, 57753, 57203, r.randint(50000, 60000)]), 0
        base = 345600 - 2 * k if r.random() < .4 else r.randrange(345600)
        F = []
        for L in b["F"]:
            if L["k"] == "rec":
                if not (F and F[-1].get("t") == base + L["t"] * k and r.random() < .7): a = step(a)
                F.append(dict(k="rec", t=base + L["t"] * k, a=a))
            else: F.append({"k": L["k"]})
        sc.append(render(m, F, [base + q * k + (r.randrange(k) if r.random() < .5 else 0) for q in b["q"]]))
    for _ in range(c.pick(400, 5000)):
        n, m, t, a = r.choice([1, 2, 3, 8, 20, 60, 200]), r.choice([57753, 56108, r.randint(50000, 60000)]), r.randrange(330000, 691200), 0
        F, T = [], []; pbad, pcom = r.choice([0, 0, 0, .02, .1, .3]), r.choice([0, .02, .2]); gap = r.choice([1, 4, 128, 500])
        for i in range(n):
            while r.random() < pcom: F.append(dict(k="skip"))
            if r.random() < pbad and (i > 1 or r.random() < .1): t += r.choice([0, gap]); F += [dict(k="skip")] * (r.random() < .5) + [dict(k="bad", t=t)]
            if i: t += r.choice([gap, gap, r.randint(1, gap), r.randint(1, 1990), 0 if r.random() < .3 else gap])
            if not (T and T[-1] == t and r.random() < .7): a = step(a)
            F.append(dict(k="rec", t=t, a=a)); T.append(t)
        while r.random() < pcom: F.append(dict(k="skip"))
        qs, cur = [], T[0] + r.choice([0, 0, 0, -1, -400, r.randint(0, T[-1] - T[0] + 1)])
        style = r.choice([0, 1, 2, 3, 4, 4])
        for _ in range(r.choice([2, 8, 30])):
            qs.append(cur)
            if style == 0: cur += r.choice([0, 1, gap // 2, gap, r.randint(0, 2 * gap)])
            elif style == 1: cur = r.choice([x for x in T if x >= cur] or [cur + 1]) if r.random() < .6 else cur + r.randint(0, 8 * gap)
            elif style == 2: cur += r.randint(0, max(1, (T[-1] - T[0]) // 2))
            elif style == 4: cur += r.choice([1, 2, gap // 4, gap // 2, gap]) if r.random() < .6 else r.randint(2, 5) * gap
            else: cur = max(T[0] - 4, cur + r.randint(-6 * gap, 6 * gap))
        if style != 3: qs.sort()
        sc.append(render(m, F, qs))
    exe = c.build("attitude", [vf.VERIF + "/harness/attitude.cpp", "src/satellites/jason3_quaternions.cpp"], incs=[vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "src/satellites", "/usr/include/eigen3"])
    c.assumptions += ["records are in time order (equal times allowed); consecutive attitudes are rotations about one body axis, less than half a turn apart, so that interpolation is linear in the angle",
                      "earlier times than one already asked for are answered correctly or refused; a query that has to read past an unreadable line, or falls exactly on the last record, may be refused"]
    c.conform("AttitudeTrace", exe, sc, chunk_events=1500)
vf.main("C17", check)
