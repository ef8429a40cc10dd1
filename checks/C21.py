#!/usr/bin/env python3
import datetime, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
SRC = ["src/beacon_tbl/beacon_tbl.cpp"]
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src"]
OPEN = [2973483, 86399, 0]                                                # 9999-12-31 23:59:59
def check(c):
    r = c.rng
    c.model_check("InServiceMC", subst={"T": 3, "N": c.pick(2, 3)}, workers=8)
    beh = c.model_check("InServiceMC", "InServiceGen.cfg", subst={"T": 3}, workers=8)
    def ds(t):
        d = datetime.date(1858, 11, 17) + datetime.timedelta(t[0])
        return "%04d-%02d-%02d %02d:%02d:%02d" % (d.year, d.month, d.day, t[1] // 3600, t[1] // 60 % 60, t[1] % 60)
    def row(id, a, b, h): return dict(k="row", id=id, h=h, **{"from": a}, to=b)
    def rtext(L):
        t = "%4s %s %s %9.6f" % (L["id"], ds(L["from"]), ds(L["to"]), L["h"] / 1e6)
        return t + r.choice(["", "", "", " ", "  comment 2020-01-01", "x" * (255 - len(t)) if r.random() < .2 else ""]).replace("x" * 10, " " * 10)
    def btext(ref):
        t = "%4s %s %s %9.6f" % ("XXXX", ds([57754, 0, 0]), ds(OPEN), 1.5)
        return r.choice([lambda: t[:5] + "2020-13" + t[12:], lambda: t[:5] + "2020-02-30" + t[15:], lambda: t[:5] + "20xx-01" + t[12:], lambda: t[:25] + "2020-01-01 24:00:00" + t[44:], lambda: t[:25] + "2020-01-01 00:xx:00" + t[44:],
                         lambda: t[:25] + " " * 19 + t[44:], lambda: t[:44], lambda: t[:45], lambda: t[:r.randint(0, 45)], lambda: "", lambda: t[:45] + "   height", lambda: t[:45] + "       -", lambda: t + " " * 300, lambda: "Site From                To                  Height"])()
    def scenario(lines, asks, there=1, eol=True):
        name = "t%d.tbl" % r.randrange(3)
        T = ["Site From                To                  Height   "[:r.choice([52, 60, 4, 0])]] if there != 2 else []
        for L in lines: T.append(rtext(L) if L["k"] == "row" else btext(None))
        txt = "\n".join(T) + ("\n" if eol and T else "")
        if not eol and lines and lines[-1]["k"] == "bad" and not T[-1]: txt += "\n"
        out = [vf.wfile(name, txt) if there else "W %s -" % name, vf.jline("Table", there=int(there > 0), lines=([dict(k="head")] if there != 2 else []) + lines), "Open " + name]
        for t in asks: out.append("Load %d %d %d %d" % (t[0], t[1], t[2], r.choice([0, 0, 22, 34])))
        return out
    ids = ["THUB", "KRVB", "DIOB", "DIOA", "D1  ", "MANB", "  AB"]
    def near(t):
        d = r.choice([-1, 0, 0, 0, 1]); n = (t[1] * 10 ** 9 + t[2]) + d * r.choice([1, 10 ** 9, 60 * 10 ** 9, 86400 * 10 ** 9]); q, n = divmod(n, 86400 * 10 ** 9)
        return [t[0] + q, n // 10 ** 9, n % 10 ** 9]
    sc = []
    for b in beh:
        pts = sorted(r.sample([[57754 + i // 3, [0, 1, 86399][i % 3], 0] for i in range(30)], 4))
        asks = pts + [near(p) for p in pts]; r.shuffle(asks)
        sc.append(scenario([row(r.choice(ids), pts[x[0]], pts[x[1]], r.randint(0, 3000000)) if x else dict(k="bad") for x in b], asks))
    for _ in range(c.pick(600, 8000)):
        n = r.choice([0, 1, 2, 5, 12, 20]) if r.random() < .98 else r.choice([70, 150, 300]); full = n > 50; pts = sorted([[r.choice([57754, r.randint(48000, 59000)]), r.choice([0, 0, r.randrange(86400)]), 0] for _ in range(r.randint(2, 6))])
        L = []
        for _ in range(n):
            a, b = r.choice(pts), r.choice(pts + [OPEN, OPEN])
            if r.random() < .8 and b < a: a, b = b, a
            if full and r.random() < .9: a, b = pts[0], OPEN
            L.append(row(r.choice(ids) if r.random() < .7 else "".join(r.choice("ABCDEFGHIJ") for _ in range(4)), a, b, r.choice([0, r.randint(-9999, 9999999), 510000])))
        if L and r.random() < .25: L[r.randrange(len(L))] = dict(k="bad")
        asks = [r.choice([lambda: r.choice(pts), lambda: near(r.choice(pts)), lambda: near(r.choice(pts)), lambda: [r.randint(48000, 59000), r.randrange(86400), r.randrange(10 ** 9)], lambda: near(OPEN)])() for _ in range(6)]
        sc.append(scenario(L, asks, r.choice([1] * 20 + [0]) if L else r.choice([0, 1, 2]), r.random() < .8))
    exe = c.build("beacontbl", [vf.VERIF + "/harness/beacontbl.cpp"] + SRC, incs=INC)
    c.assumptions += ["columns as written by script/ids_logs2station_info.py; whole seconds", "an empty line is malformed"]
    c.conform("InServiceTrace", exe, sc, chunk_events=900)
if __name__ == "__main__": vf.main("C21", check)
