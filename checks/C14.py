#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, rinexgen, string
SRC = ["src/rinex/read_rnx_header.cpp", "src/rinex/doris_rinex.cpp", "src/rinex/rnx_datablock_iterator.cpp", "src/doris/doris_system_info.cpp"]
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "/usr/include/eigen3"]

def near(r, s, alphabet="ABCDTHUKRV0123456789"):
    """an identifier that differs in one character"""
    i = r.randrange(len(s)); return s[:i] + r.choice([x for x in alphabet if x != s[i]]) + s[i + 1:]
def check(c):
    r = c.rng; g = rinexgen.Gen(r)
    c.model_check("BeaconTableMC", subst={"N": c.pick(3, 4)}, workers=8)
    sc = []
    for _ in range(c.pick(500, 5000)):
        head = g.good_header(nst=r.choice([1, 2, 5, 12, 40, 60]))
        if r.random() < .15: head = g.spoil(head)
        elif r.random() < .15: head = g.spoil(head, 9)
        st = [L["b"] for L in head if L["k"] == "st"]; obs = [x for L in head if L["k"] == "obs" for x in L["cs"]]
        m = max([L["n"] for L in head if L["k"] == "obs"] + [1]); m = m if 1 <= m <= 12 else 1
        txt, ev = g.render(True, head, g.data(m, [b["c"] for b in st] or ["D01"], 2, False)); ev.pop("event")
        S = [vf.wfile("f.rnx", txt), vf.jline("File", **ev), "Open f.rnx 0"]
        cs = [b["c"] for b in st] or ["D01"]; ids = [b["id"] for b in st] or ["THUB"]
        for _ in range(r.choice([3, 8, 20])):
            k = r.randrange(6); cq = r.choice(cs + ["D00", "D99"]); iq = r.choice(ids)
            if r.random() < .35: cq = near(r, cq)
            if r.random() < .35: iq = near(r, iq)
            if k < 3: S.append(r.choice(["ByCode ", "Station ", "Shift "]) + cq)
            elif k == 3: S.append("ById " + iq)
            elif k == 4: S.append("Code " + r.choice(obs + rinexgen.CODES))
            else: S += ["Next"] if r.random() < .4 else ["InBlock " + cq]
        sc.append(S)
    sc.append(["Type " + x for x in string.ascii_letters + string.digits + "-_.*"])
    ks = range(-2000, 2001) if c.tier != "quick" else sorted(set(list(range(-160, 161)) + r.sample(range(-2000, 2001), 300)))
    sc.append(["Freq %d" % k for k in ks])
    exe = c.build("rinex", [vf.VERIF + "/harness/rinex.cpp"] + SRC, incs=INC)
    c.assumptions += ["beacon numbers are unique in a file; identifiers (re-used stations) need not be", "frequencies to 2^-17 Hz"]
    c.conform("RinexTrace", exe, sc, chunk_events=1500)
if __name__ == "__main__": vf.main("C14", check)
