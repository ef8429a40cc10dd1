"""Generation and rendering of DORIS RINEX files (abstract lines of spec/RinexHeader.tla and RinexData.tla)."""
import datetime
CODES = ["L1", "L2", "C1", "C2", "W1", "W2", "F0", "P0", "T0", "H0"]
def code(c): return c[0] if c[1] == "0" else c
class Gen:
    def __init__(self, r): self.r = r
    def lab(self, body, label):
        s = "%-60s%s" % (body[:60], label)
        return s if self.r.random() < .5 else "%-80s" % s
    # ---- header
    def stations(self, n):
        r = self.r; out = []
        base = r.sample(range(1, 100), n)
        for i in range(n):
            st = r.choice(["THU", "KRV", "YEM", "TLS", "TLT", "KRW", "DI", "ARE"])
            out.append(dict(c="D%02d" % base[i], id="%s%s" % (st[:3], r.choice("ABC")), name=r.choice(["THULE", "MOUNT STROMLO", "RIKITEA II", "A" * 29, "D02 THUB", ""]), domes=r.choice(["43001S005", "10503S015", "97401M01", "10202S0031"[:9]]), t=r.randint(1, 3), k=r.choice([0, 0, r.randint(-12, 12), r.randint(-99, 999)])))
        return out
    def time(self): return [self.r.choice([57754, 58849, self.r.randint(51544, 60000)]), self.r.randrange(86400), self.r.choice([0, self.r.randrange(10000000)]) * 100]
    def tstr(self, t):
        d = datetime.date(1858, 11, 17) + datetime.timedelta(t[0])
        return "%6d%6d%6d%6d%6d%13.7f" % (d.year, d.month, d.day, t[1] // 3600, t[1] // 60 % 60, t[1] % 60 + t[2] * 1e-9)
    def skip(self):
        r = self.r; L = self.lab
        return r.choice([
            lambda: L("comment END OF HEADER", "COMMENT"), lambda: L("me                  CNES", "OBSERVER / AGENCY"), lambda: L("CHAIN1              DGXX                1.00", "REC # / TYPE / VERS"),
            lambda: L("DORIS               STAREC", "ANT # / TYPE"), lambda: L("JASON-3", "SATELLITE NAME"), lambda: L("2016-002A", "COSPAR NUMBER"), lambda: L("SPACEBORNE", "MARKER TYPE"),
            lambda: L("%14.4f%14.4f%14.4f" % (2.4128, -.1325, .9235), "APPROX POSITION XYZ"), lambda: L("%14.4f%14.4f%14.4f" % (1.0023, 0, -.0021), "CENTER OF MASS: XYZ"),
            lambda: L("D   10  2 L1  C1", "SYS / SOMETHING ELSE"), lambda: "", lambda: "abc", lambda: "D   10   2 L1  L2", lambda: " " * 59, lambda: L("    55", "COMMENT # OF STATIONS"[:20]),
            lambda: " " * 40 + "END OF HEADER"])()
    def bad(self):
        r = self.r; L = self.lab
        return r.choice([
            lambda: L("", "SATELLITE NAME"), lambda: L("GEODETIC", "MARKER TYPE"), lambda: L("GPS                 STAREC", "ANT # / TYPE"), lambda: L("G   10 L1  L2", "SYS / # / OBS TYPES"), lambda: L("D    2 L1  Z1", "SYS / # / OBS TYPES"),
            lambda: L("D    2 L1  L3", "SYS / # / OBS TYPES"), lambda: L("D    2 L1  Lx", "SYS / # / OBS TYPES"), lambda: L("D   xx L1", "SYS / # / OBS TYPES"), lambda: L("D   13" + " L1 " * 13, "SYS / # / OBS TYPES"),
            lambda: L("G   10   1 L1", "SYS / SCALE FACTOR"), lambda: L("D   xx   1 L1", "SYS / SCALE FACTOR"), lambda: L("D   10   1 Z1", "SYS / SCALE FACTOR"), lambda: L("D   10  xx L1", "SYS / SCALE FACTOR"),
            lambda: L("G        2.000", "L2 / L1 DATE OFFSET"), lambda: L("D       x2.000", "L2 / L1 DATE OFFSET"), lambda: L("    xx", "# OF STATIONS"), lambda: L("D01  THUB THULE                         43001S005 x    0", "STATION REFERENCE"),
            lambda: L("D01  THUB THULE                         43001S005 3  xx", "STATION REFERENCE"), lambda: L("    xx", "# TIME REF STATIONS"), lambda: L("    xx", "RCV CLOCK OFFS APPL"), lambda: L("", "RCV CLOCK OFFS APPL"),
            lambda: L("%s     GPS" % self.tstr(self.time()), "TIME OF FIRST OBS"), lambda: L("  2020    13     1     0     0    0.0000000     DOR", "TIME OF FIRST OBS"), lambda: L("  2020    xx     1     0     0    0.0000000", "TIME REF STAT DATE"),
            lambda: L("D", "SYS / DCBS APPLIED"), lambda: L("            xx        0.1", "APPROX POSITION XYZ"), lambda: L("            xx        0.1", "CENTER OF MASS: XYZ"), lambda: "%-80s" % "%-60sCOMMENT" % "long" + "x" * r.randint(1, 40)])()
    def hline(self, L):
        r = self.r; k = L["k"]
        if "txt" in L: return L["txt"]
        if k == "obs": return self.lab("D %4d" % L["n"] + "".join(" %-3s" % code(c) for c in L["cs"]), "SYS / # / OBS TYPES")
        if k == "sf": return self.lab("D %4d" % L["f"] + ("" if L["all"] else "  %2d" % len(L["cs"]) + "".join(" %-3s" % code(c) for c in L["cs"])), "SYS / SCALE FACTOR")
        if k == "off": return self.lab("D  %14.3f" % (L["v"] / 1e3), "L2 / L1 DATE OFFSET")
        if k == "rcv": return self.lab("%6d" % L["v"], "RCV CLOCK OFFS APPL")
        if k == "nst": return self.lab("%6d" % L["n"], "# OF STATIONS")
        if k == "nref": return self.lab("%6d" % L["n"], "# TIME REF STATIONS")
        if k == "st": b = L["b"]; return self.lab("%-3s  %-4s %-29s %-9s %1d %3d" % (b["c"], b["id"], b["name"], b["domes"], b["t"], b["k"]), "STATION REFERENCE")
        if k == "ref": return self.lab("%-3s  %14.3f %14.3f" % (L["c"], r.uniform(-99, 99), r.uniform(-9, 9)), "TIME REF STATION")
        if k == "first": return self.lab(self.tstr(L["t"]) + "     DOR", "TIME OF FIRST OBS")
        if k == "refdate": return self.lab(self.tstr(L["t"]), "TIME REF STAT DATE")
        if k == "eoh": return self.lab("", "END OF HEADER")
        return self.skip() if k == "skip" else self.bad()
    def good_header(self, nobs=None, nst=None):
        """a complete header, its lines in a random admissible order"""
        r = self.r
        cs = r.sample(CODES, nobs or r.choice([1, 2, 4, 5, 6, 8, 10, 10])); st = self.stations(nst or r.choice([1, 2, 3, 5, 12]))
        refs = r.sample([b["c"] for b in st], r.randint(0, min(len(st) - 1, 3)))
        A = [dict(k="obs", n=len(cs), cs=cs)]
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if r.random() < .15: A.append(dict(k="sf", f=r.choice([10, 100, 1000, 7]), all=True, cs=[]))
            else: A.append(dict(k="sf", f=r.choice([1, 10, 100, 1000, 3]), all=False, cs=r.sample(cs, r.randint(1, len(cs)))))
        B = [dict(k="st", b=b) for b in st] + [dict(k="ref", c=c) for c in refs]
        one = [dict(k="nst", n=len(st))] + ([dict(k="nref", n=len(refs))] if refs else [])
        if r.random() < .7: one.append(dict(k="off", v=r.choice([0, r.randint(-999999, 999999), r.randint(-9999999, 9999999)])))
        if r.random() < .6: one.append(dict(k="rcv", v=r.randint(0, 1)))
        if r.random() < .8: one.append(dict(k="first", t=self.time()))
        if r.random() < .8: one.append(dict(k="refdate", t=self.time()))
        one += [dict(k="skip") for _ in range(r.choice([0, 1, 4, 8]))]
        L = []
        if r.random() < .3: L = one + A + B
        else:
            qs = [A, B] + [[x] for x in one]; qs = [list(q) for q in qs]
            while qs:
                q = r.choice(qs); L.append(q.pop(0))
                if not q: qs.remove(q)
        return L + [dict(k="eoh")]
    def spoil(self, L, k=None):
        r = self.r; L = [dict(x) for x in L]; k = r.randrange(10) if k is None else k
        i = r.randrange(len(L))
        if k == 9:      # a line damaged in its place: nothing else is wrong
            js = [j for j, x in enumerate(L) if x["k"] in ("st", "nst", "first", "off")]
            if js:
                j = r.choice(js); x = L[j]
                if x["k"] == "st" or r.random() < .4:
                    j = r.choice([q for q in js if L[q]["k"] == "st"] or js); x = L[j]
                t = self.hline(x)
                if x["k"] == "st":
                    t = r.choice([lambda: t[:50] + "x" + t[51:], lambda: t[:50] + " " + r.choice(["   x", " xx5", "  --", " -  "]) + t[55:], lambda: t[:51] + r.choice([" xx ", "   x", "  --", "  + ", " .5 "]) + t[55:], lambda: "", lambda: t[:40]])()
                    if t[:60].strip() == "" or len(t) < 60: t = L.pop(j) and None
                elif x["k"] == "nst": t = "%-6s" % r.choice(["    x", "", " --"]) + t[6:]
                elif x["k"] == "first": t = t[:6] + "    xx" + t[12:]
                else: t = t[:3] + "%14s" % "x.000" + t[17:]
                if t: L[j] = dict(k="bad", txt=t)
        elif k == 0: L.insert(i, dict(k="bad"))
        elif k == 1: L.pop(i)
        elif k == 2 and L[i]["k"] not in ("obs", "sf"): L.insert(i, dict(L[i]))
        elif k == 3: L = L[:i]
        elif k == 4:
            for x in L:
                if x["k"] in ("nst", "nref") and r.random() < .6: x["n"] = r.choice([0, x["n"] + 1, x["n"] - 1, -1, 99])
        elif k == 5:
            for x in L:
                if x["k"] == "obs": x["n"] += r.choice([1, -1, 2, -x["n"], 10])
        elif k == 6 and len(L) > 1: j = r.randrange(len(L) - 1); L[j], L[j + 1] = L[j + 1], L[j]
        elif k == 7: L.insert(i, dict(k="sf", f=r.choice([0, 10]), all=False, cs=r.sample(CODES, r.randint(0, 2))))
        else: L.insert(i, r.choice([dict(k="ref", c="D00"), dict(k="rcv", v=r.choice([2, -1, 7])), dict(k="nref", n=r.randint(0, 3))]))
        return L
    def top(self, ok):
        r = self.r; a = "%9.2f%11s%-20s%-20s" % (r.choice([3, 3.01]), "", r.choice(["O", "OBSERVATION DATA"]), r.choice(["D", "DORIS"])); b = "pgm                 me                  20200101"
        A, Bl = "RINEX VERSION / TYPE", "PGM / RUN BY / DATE"
        if ok: return [self.lab(a, A), self.lab(b, Bl)]
        k = r.randrange(6)
        if k == 0: a = a[:20] + "N" + a[21:]
        elif k == 1: a = a[:40] + "G" + a[41:]
        elif k == 2: a = "     x.xx" + a[9:]
        elif k == 3: return [self.lab(b, Bl), self.lab(a, A)]
        elif k == 4: return [self.lab(a, A)]
        else: return [self.lab(a, "COMMENT"), self.lab(b, Bl)]
        return [self.lab(a, A), self.lab(b, Bl)]
    # ---- data
    def field(self):
        r = self.r; k = r.random()
        a, b = r.choice("  0123456789"), r.choice("  0123456789")
        if k < .12: return dict(s="m", h=0, l=0, a=a, b=b)
        h = r.choice([0, r.randint(1, 9), r.randint(0, 9999), r.randint(0, 999999999), 999999999]); l = r.choice([0, r.randrange(1000), 999, 1])
        if h == 0 and l == 0: return dict(s="m", h=0, l=0, a=a, b=b)
        return dict(s=r.choice("+-"), h=h, l=l, a=a, b=b)
    def ftext(self, f):
        r = self.r
        if f["s"] == "m": v = r.choice([" " * 14, " " * 14, "%14s" % "0.000", "%14s" % "-0.000", "%14s" % ".000"])
        else:
            t = ("-" if f["s"] == "-" else "") + "%d.%03d" % (f["h"], f["l"])
            v = "%14s" % t if r.random() < .9 else "%-14s" % t
        return v + f["a"] + f["b"]
    def epoch(self, n, last=None):
        r = self.r; t = self.time(); t[2] = r.choice([0, r.randrange(10 ** 9), 999999999, t[2]])
        L = dict(k="ep", ok=True, n=n, d=t[0], sec=t[1], ns=t[2], flag=r.choice([0, 0, 0, 1]), offp=r.choice([0, 1, 1, 1]), off=0, cf=0)
        if L["offp"]: L["off"] = r.choice([r.randint(-1899999999, 1899999999), r.randint(-99999, 99999), 1, -1, 1899999999, 500000000]); L["cf"] = r.randint(0, 1)
        elif r.random() < .5: L["cf"] = r.randint(0, 1)
        return L
    def etext(self, L):
        r = self.r
        d = datetime.date(1858, 11, 17) + datetime.timedelta(L["d"])
        dt = "%04d %02d %02d %02d %02d" % (d.year, d.month, d.day, L["sec"] // 3600, L["sec"] // 60 % 60); s = "%3d.%09d" % (L["sec"] % 60, L["ns"]); fl = "  %d" % L["flag"]; n = "%3d" % L["n"]
        off = "%s%d.%09d" % ("-" if L["off"] < 0 else "", abs(L["off"]) // 10 ** 9, abs(L["off"]) % 10 ** 9) if L["offp"] else ""
        off, cf = "%13s" % off, " %d " % L["cf"]
        if not L["ok"]:
            k = r.randrange(6)
            if k == 0: dt = dt[:5] + "13" + dt[7:]
            elif k == 1: dt = dt[:11] + "xx" + dt[13:]
            elif k == 2: n = r.choice(["   ", " xx"])
            elif k == 3: fl = r.choice(["   ", "  x"])
            elif k == 4: off = r.choice(["            x", "     x.123456", "  -----------"])
            else: return r.choice(["> 2020", ">", "> 2020 01 01 01 41 53.279947800"])
        t = "> " + dt + s + fl + n + " " * 6 + off + cf
        if L["ok"] and not L["offp"] and L["cf"] == 0 and r.random() < .6: return t[:r.choice([37, 37, 43, 50, 56])]
        return t.rstrip() if r.random() < .3 else t
    def dtext(self, L):
        r = self.r
        fs = [self.ftext(f) for f in L["fs"]]
        if not L["ok"]:
            i = r.randrange(max(1, len(fs))); fs = fs or [" " * 16]
            fs[i] = r.choice(["%14s" % "x.123", "%14s" % "12.34x", "%14s" % "--", "%14s" % "1 2.345"]) + fs[i][14:]
        t = ("%-3s" % L["id"] if L["k"] == "b" else "   ") + "".join(fs)
        return t.rstrip() if r.random() < .4 else t + " " * r.choice([0, 0, 5])
    def junk(self): return self.r.choice(["", "comment", "d01       1.000", "E01" + " " * 10 + "1.000", "   ", "#"]) if self.r.random() < .9 else "D01" + "x" * 130
    def data(self, m, codes, nblocks, spoil):
        r = self.r; D = []
        for _ in range(nblocks):
            n = r.choice([0, 1, 1, 2, 3, 4, 6])
            D.append(self.epoch(n))
            for _ in range(n):
                fs = [self.field() for _ in range(m)]
                for j in range(0, m, 5):
                    L = dict(k="c" if j else "b", ok=True, fs=fs[j:j + 5])
                    if not j: L["id"] = r.choice(codes)
                    D.append(L)
        if spoil and D:
            for _ in range(r.choice([1, 1, 2])):
                i = r.randrange(len(D)); k = r.randrange(6)
                if k == 0: D[i] = dict(k="junk")
                elif k == 1: D.insert(i, dict(k="junk"))
                elif k == 2: D.pop(i)
                elif k == 3: D = D[:i] or D
                elif k == 4: D[i] = dict(D[i], ok=False) if D[i]["k"] != "junk" else D[i]
                else: D.insert(i, dict(D[i]))
                if not D: break
        return D
    def line(self, L): return self.etext(L) if L["k"] == "ep" else self.junk() if L["k"] == "junk" else self.dtext(L)
    def render(self, topok, head, data, name="f.rnx"):
        """file text and the File event; lines the text turns into something else are adjusted"""
        r = self.r
        out = self.top(topok)
        hd, dat = [], []
        for L in head:
            out.append(self.hline(L))
            if any(x["k"] == "eoh" for x in hd): dat.append(dict(k="junk"))
            else: hd.append({k: v for k, v in L.items() if k != "txt"})
        for L in data:
            if L["k"] == "junk":
                t = self.junk()
                while t.strip() == "" and t[:1] != "#": t = self.junk()
            else: t = self.line(L)
            if L["k"] == "c" and t[:3].strip() == "" and len(t) < 3: t = "   "
            out.append(t); dat.append(L)
        return "\n".join(out) + ("\n" if dat == [] or dat[-1]["k"] == "junk" or r.random() < .9 else ""), dict(event="File", top=bool(topok), head=hd, data=dat)
