#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
SRC = ["src/atmosphere/exponential_atmospheric_model.cpp"]
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "src/var", "src/atmosphere"]
def check(c):
    r = c.rng
    c.model_check("ExpAtmMC", subst={"Step": c.pick(500, 50)})
    c.model_check("SwitchesMC", subst={"H": c.pick(3, 4)}, workers=8)
    beh = c.model_check("SwitchesMC", "SwitchesGen.cfg", workers=8)
    def op(o): return "Set %d %d %d" % (o[1], o[2], r.randrange(2)) if o[0] == "set" else "%s %d %d" % (o[0].capitalize(), o[1], r.randrange(2))
    sc = []
    for b in r.sample(beh, c.pick(3000, len(beh))): sc.append(["New"] + [op(o) for o in b])
    for _ in range(c.pick(150, 3000)):
        s = ["New"]
        for _ in range(r.choice([10, 40])):
            x = r.random()
            s.append(op(["set", r.randrange(25), r.choice([-2, -1, 0, 1, 2, 3, 5, 8, -7])]) if x < .7 else op([r.choice(["null", "on"]), r.choice([-1, r.randrange(25), r.randrange(25)])]) if x < .9 else r.choice(["UseAp", "Meters", "Copy"]))
        sc.append(s)
    lim = [25, 30, 40, 50, 60, 70, 80, 90, 100, 110, 120, 130, 140, 150, 180, 200, 250, 300, 350, 400, 450, 500, 600, 700, 800, 900, 1000]
    alt = [(1000 * k, s) for k in lim for s in (-1, 0, 1)] + [(1000 * k + e, 0) for k in lim for e in (-1, 1, -999, 999)] + [(h, 0) for h in range(1000, 1500000, c.pick(1000, 37))] + [(h, s) for h in (1, 10, 999, 1000, 10000000, 99999999) for s in (-1, 0, 1)]
    alt += [(r.randint(1, 2000000), r.choice([-1, 0, 1])) for _ in range(c.pick(2000, 60000))]
    sd = [["D %d %d" % a for a in alt[i:i + 50]] for i in range(0, len(alt), 50)]
    exe = c.build("expatm", [vf.VERIF + "/harness/expatm.cpp"] + SRC, incs=INC)
    c.assumptions += ["densities compared to 3e-5 (relative)", "reference table: Vallado, table 8-4"]
    c.conform("ExpAtmTrace", exe, sd, label="density")
    c.conform("SwitchesTrace", exe, sc, label="switches", chunk_events=2500)
if __name__ == "__main__": vf.main("C29", check)
