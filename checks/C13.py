#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, rinexgen
SRC = ["src/rinex/read_rnx_header.cpp", "src/rinex/doris_rinex.cpp", "src/rinex/rnx_datablock_iterator.cpp", "src/doris/doris_system_info.cpp"]
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "/usr/include/eigen3"]

def check(c):
    r = c.rng; g = rinexgen.Gen(r)
    c.model_check("RinexDataMC", subst={"N": c.pick(4, 5)}, workers=8)
    beh = c.model_check("RinexDataMC", "RinexDataGen.cfg", subst={"N": 4}, workers=8)
    if len(beh) > c.pick(1200, 12000): beh = r.sample(beh, c.pick(1200, 12000))
    codes = lambda head: [L["b"]["c"] for L in head if L["k"] == "st"] + ["D01", "D99"]
    def scenario(head, data, n):
        txt, ev = g.render(True, head, data); ev.pop("event")
        sc = [vf.wfile("f.rnx", txt), vf.jline("File", **ev), "Open f.rnx 0"]
        for _ in range(n):
            sc.append("Next")
            if r.random() < .6: sc.append("Corr")
        return sc
    sc = []
    # behaviours of the model, the abstract lines filled with values of their own
    for b in beh:
        head = g.good_header(nobs=b["m"] if b["m"] <= 10 else 10)
        cs = codes(head); m = [L["n"] for L in head if L["k"] == "obs"][0]
        if m != b["m"]: m = b["m"]; head = [dict(L, n=m, cs=L["cs"] + r.sample(L["cs"], m - len(L["cs"]))) if L["k"] == "obs" else L for L in head]
        D = []; left = 0
        for L in b["D"]:
            L = dict(L)
            if L["k"] == "ep": ok = L["ok"]; L = g.epoch(L["n"]); L["ok"] = ok
            elif L["k"] in "bc":
                # as many fields as there are left, had the file been in order; a full line otherwise
                w = min(5, m) if L["k"] == "b" else (left if 0 < left < 5 else 5); left = m - w if L["k"] == "b" else max(left - 5, 0)
                L["fs"] = [g.field() for _ in range(w)]
                if L["k"] == "b": L["id"] = r.choice(cs)
            D.append(L)
        sc.append(scenario(head, D, len([1 for L in D if L["k"] == "ep"]) + 2))
    for _ in range(c.pick(700, 7000)):
        head = g.good_header(); m = [L["n"] for L in head if L["k"] == "obs"][0]; nb = r.choice([1, 2, 4, 8])
        sc.append(scenario(head, g.data(m, codes(head), nb, r.random() < .5), nb + 1))
    exe = c.build("rinex", [vf.VERIF + "/harness/rinex.cpp"] + SRC, incs=INC)
    c.assumptions += ["data lines follow the columns of the format; a line of only blanks is not used as an unrelated line", "clock offsets below 1.9 s (32-bit integers of TLC)"]
    c.conform("RinexTrace", exe, sc, chunk_events=1500)
if __name__ == "__main__": vf.main("C13", check)
