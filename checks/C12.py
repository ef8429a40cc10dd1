#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, rinexgen
SRC = ["src/rinex/read_rnx_header.cpp", "src/rinex/doris_rinex.cpp", "src/rinex/rnx_datablock_iterator.cpp", "src/doris/doris_system_info.cpp"]
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "/usr/include/eigen3"]

def check(c):
    r = c.rng; g = rinexgen.Gen(r)
    c.model_check("RinexHeaderMC", subst={"N": c.pick(4, 5)}, workers=8)
    beh = c.model_check("RinexHeaderMC", "RinexHeaderGen.cfg", subst={"N": 4}, workers=8)
    if len(beh) > c.pick(700, 8000): beh = r.sample(beh, c.pick(700, 8000))
    def scenario(top, head):
        m = max([L["n"] for L in head if L["k"] == "obs"] + [1])
        data = g.data(m if 1 <= m <= 12 else 1, ["D01", "D02"], 1, False)
        txt, ev = g.render(top, head, data)
        ev.pop("event")
        return [vf.wfile("f.rnx", txt), vf.jline("File", **ev), "Open f.rnx %d" % r.choice([0, 0, 34, 2]), "Next", "Corr"]
    sc = []
    for b in beh:
        for L in b:
            if L["k"] == "st": L["b"].update(id=r.choice(["THUB", "KRVC"]), name=r.choice(["", "X"]), k=r.randint(-9, 9))
        sc.append(scenario(True, b))
    for _ in range(c.pick(900, 9000)):
        h = g.good_header()
        if r.random() < .5: h = g.spoil(h)
        sc.append(scenario(r.random() > .04, h))
    exe = c.build("rinex", [vf.VERIF + "/harness/rinex.cpp"] + SRC, incs=INC)
    c.assumptions += ["header lines follow the columns of the format; the line of observation types is not repeated; numeric fields are numbers or text, not blank; names fit their field",
                      "scale factors are judged by the values they give; only the number and membership of reference beacons is observable"]
    c.conform("RinexTrace", exe, sc, chunk_events=1500)
if __name__ == "__main__": vf.main("C12", check)
