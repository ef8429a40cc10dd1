#!/usr/bin/env python3
import datetime, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
SRC = ["src/ids/get_pdop_crd.cpp", "src/doris/doris_system_info.cpp"]
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "/usr/include/eigen3"]
def check(c):
    r = c.rng
    c.model_check("SiteCoordsMC", subst={"Ids": c.pick('{"AAAA", "AAAB", "BAAA"}', '{"AAAA", "AAAB", "BAAA", "BAAB"}')}, workers=8)
    beh = c.model_check("SiteCoordsMC", "SiteCoordsGen.cfg", workers=8)
    if len(beh) > c.pick(700, 7000): beh = r.sample(beh, c.pick(700, 7000))
    P = ["STAX", "STAY", "STAZ", "VELX", "VELY", "VELZ"]
    def epoch(): return [r.choice([51544, 53371, 55197, r.randint(48000, 60000)]), r.choice([0, 0, 43200, r.randrange(86400)])]
    def code(t):
        d = datetime.date(1858, 11, 17) + datetime.timedelta(t[0])
        return "%02d:%03d:%05d" % (d.year % 100, d.timetuple().tm_yday, t[1])
    def est(s, p, u, t):
        v = p.startswith("VEL")
        e = dict(s=s, p=p, u=u, t=t, h=r.randint(-1000, 1000) if v else r.randint(-6400000, 6400000), l=0 if v else r.randrange(100000))
        return e
    def line(i, e):
        if e["p"].startswith("VEL"): x = "%.14E" % (e["h"] / 1e4)
        else: x = "%.14E" % (e["h"] + e["l"] / 1e5)
        return " %5d %-6s %4s %2s %4s %12s %-4s %1s %21s %11s" % (i, e["p"], e["s"], "A", "1", code(e["t"]), e["u"], "2", x, ".12345E-02")
    def text(sites, E):
        o = ["%=SNX 2.02 IDS 20:001:00000 IDS 93:003:00000 17:001:00000 D 00012 2 S V"]
        blocks = [["+SITE/ID", "*CODE PT __DOMES__ T _STATION DESCRIPTION__ APPROX_LON_ APPROX_LAT_ _APP_H_"] + [" %4s %2s %9s D %-22s" % (s, "A", "10002S018", "SOMEWHERE") for s in sites] + ["-SITE/ID"],
                  ["+SOLUTION/ESTIMATE", "*INDEX TYPE__ CODE PT SOLN _REF_EPOCH__ UNIT S __ESTIMATED VALUE____ _STD_DEV___"] + [line(i + 1, e) for i, e in enumerate(E)] + ["-SOLUTION/ESTIMATE"],
                  ["+FILE/COMMENT", " STAX", "-FILE/COMMENT"]]
        r.shuffle(blocks)
        for b in blocks: o += b
        return "\n".join(o + ["%ENDSNX", ""])
    def describe(s, kind, t):
        E = [est(s, p, "m/y" if p[0] == "V" else "m", t) for p in P]
        if kind == "lacks": E.pop(r.randrange(6))
        elif kind == "unit": k = r.randrange(6); E[k]["u"] = r.choice(["mm", "cm", "rad", "m/s"] + (["m"] if k > 2 else ["m/y"]))
        return E
    def scenario(sites, kinds, asks):
        one = epoch(); E = []
        for s, k in zip(sites, kinds):
            if k == "none": continue
            E.append(describe(s, k, one if r.random() < .7 else epoch()))
        style = r.randrange(4)
        if style == 0: E = [e for b in E for e in b]
        elif style == 1:
            E = [e for b in E for e in b]; r.shuffle(E)
        elif style == 2: r.shuffle(E); E = [e for b in E for e in b]
        else: E = sorted([e for b in E for e in b], key=lambda e: (e["p"][:3], r.random()))
        for e in E[:]:
            if r.random() < .05: E.insert(r.randrange(len(E)), est(e["s"], r.choice(["XPO", "STAH", "STA", "VELO", "TROTOT"]), "m", one))
        L = [vf.wfile("s.snx", text(sites, E)), vf.jline("File", sites=sites, est=E)]
        for req, strict in asks:
            t = epoch() if r.random() < .8 else one
            L.append("Ask s.snx %d %d %d %d %s" % (r.randrange(3), strict, t[0], t[1], " ".join(req)))
        return L
    names = {"AAAA": ["DIOA", "THUA", "ARFB"], "AAAB": ["DIOB", "THUB", "ARFA"], "BAAA": ["EIOA", "YHUA", "RRFB"]}
    sc = []
    for b in beh:
        k = r.randrange(3); m = {x: names[x][k] for x in names}
        sc.append(scenario([m[s] for s in b["sites"]], b["kind"], [([m[s] for s in b["req"]], int(b["strict"]))]))
    pool = sorted({"".join(r.choice("ABC") for _ in range(4)) for _ in range(60)})
    for _ in range(c.pick(300, 5000)):
        n = r.choice([1, 2, 4, 8, 15]); S = r.sample(pool, n); p = r.choice([0, 0, .1, .4])
        K = [r.choice(["none", "lacks", "unit"]) if r.random() < p else "full" for _ in S]
        sites = [s for s, k in zip(S, K) if k != "none"]; kinds = [k for k in K if k != "none"]
        asks = []
        for _ in range(4):
            q = r.sample(S, r.randint(0, n)); 
            if r.random() < .3: q = q + r.sample([x for x in pool if x not in S], r.choice([1, 2]))
            r.shuffle(q); asks.append((q, r.randint(0, 1)))
        sc.append(scenario(sites, kinds, asks))
    exe = c.build("sitecoords", [vf.VERIF + "/harness/sitecoords.cpp"] + SRC, incs=INC)
    c.assumptions += ["the sinex library is replaced by a small reader of the two blocks (shim/sinex)", "one solution per site, distinct requested codes", "results compared to 3e-5 m"]
    c.conform("SiteCoordsTrace", exe, sc, chunk_events=250)
if __name__ == "__main__": vf.main("C26", check)
