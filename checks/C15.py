#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, heapgen

def check(c):
    r = c.rng
    c.model_check("EopTableMC", subst={"N": c.pick(5, 6)}, workers=8)
    beh = c.model_check("EopTableMC", "EopTableGen.cfg", subst={"N": c.pick(3, 4)}, workers=4)
    if len(beh) > c.pick(400, 4000): beh = r.sample(beh, c.pick(400, 4000))
    sim = c.model_check("EopTableMC", "EopTableGen.cfg", simulate=(c.pick(80, 800), 19), subst={"N": 16, "Slots": "{1, 2, 3}", "MaxLen": 3, "Vals": "{1, 2, 3}"})
    if len(sim) > c.pick(150, 1500): sim = r.sample(sim, c.pick(150, 1500))
    def render(b):
        out = []
        for h in b:
            a = h["a"]
            if h["op"] == "Write":
                if r.random() < .4: out.append("Fill %d %d" % (a[0], r.randint(1, 9999)))
                out.append("Write %d %d %d %d" % (a[0], a[1] - 1, r.randint(1, 8), a[2]))
            else: out.append(" ".join([h["op"]] + [str(z) for z in a]))
        return out
    def make(x):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 10, 12])
        return ["Make %d %d" % (x, n)] + (["Fill %d %d" % (x, r.randint(1, 99999))] if r.random() < .7 else []), (n, n)
    # info: (size, capacity known) or "h"
    def ops(x, info):
        n = 0 if info == "h" else info[0]
        if info == "h" or r.random() < .5:
            m = r.choice([1, 2, 3, 5, 6, 8, 11, n, max(1, n - 1), n + 1, n + 2, 0 if info != "h" else 1])
            out = ["Resize %d %d" % (x, m)]
            if m and r.random() < .4: out.append("Fill %d %d" % (x, r.randint(1, 99999)))
            return out, (m, m)
        if n == 0: return None
        if r.random() < .3: return ["Fill %d %d" % (x, r.randint(1, 99999))], info
        return ["Write %d %d %d %d" % (x, r.randrange(n), r.randint(1, 8), r.randint(1, 99999))], info
    sc = [render(b) for b in beh + sim] + [heapgen.seeded(r, r.randint(6, 24), make, ops) for _ in range(c.pick(250, 3000))]
    exe = c.build("eop", [vf.VERIF + "/harness/eop.cpp"], incs=[vf.VERIF + "/shim", vf.VERIF + "/lib", "src"])
    c.assumptions += ["a moved-from table is only resized, assigned to, moved or destroyed", "sizes are non-negative"]
    c.conform("EopTableTrace", exe, sc, chunk_events=1500)
vf.main("C15", check)
