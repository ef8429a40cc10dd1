#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, heapgen

def check(c):
    r = c.rng
    c.model_check("EopTableMC", subst={"N": c.pick(5, 6)}, workers=8)
    beh = c.model_check("EopTableMC", "EopTableGen.cfg", subst={"N": c.pick(3, 4)}, workers=4)
    if len(beh) > c.pick(300, 3000): beh = r.sample(beh, c.pick(300, 3000))
    sim = c.model_check("EopTableMC", "EopTableGen.cfg", simulate=(c.pick(80, 800), 19), subst={"N": 16, "Slots": "{1, 2, 3}", "MaxLen": 3, "Vals": "{1, 2, 3}"})
    if len(sim) > c.pick(150, 1500): sim = r.sample(sim, c.pick(150, 1500))
    def ref(): return r.choice([0, 1, -1, r.randint(-9, 9), 172799, 172800, -172800, r.randint(-10**6, 10**6)])
    def fill(x, n, z=None):
        z = ref() if z is None else z
        return "Fill %d %d %s" % (x, z, " ".join(str(r.randint(-9, 9)) for _ in range(n + 1))), z
    def query(x, n, z):
        """Arguments near the reference point, so that the sums stay small integers."""
        lim = {0: 10**6, 1: 10**6, 2: 4000}.get(n, 24)
        d = r.choice([0, 1, -1, 2, r.randint(-lim, lim), r.randint(-min(lim, 9), min(lim, 9))])
        return "Value %d %d" % (x, z + d)
    def render(b):
        """TLC speaks of one-based lengths: order = length - 1; values are queried whenever everything is known."""
        out = []; known = {}
        for h in b:
            op, a = h["op"], h["a"]; x = a[0]
            if op in ("Make", "Resize"):
                out.append("%s %d %d" % (op, x, a[1] - 1))
                if op == "Make" or (known.get(x) or (None,))[0] != a[1] - 1: known[x] = (a[1] - 1, None)
            elif op == "Write":
                n, z = known[x]
                if z is None or r.random() < .2: l, z = fill(x, n); out.append(l); known[x] = (n, z)
                out.append("Write %d %d %d" % (x, a[1] - 1, a[2]))
            else:
                out.append(" ".join([op] + [str(q) for q in a]))
                if op in ("CopyCtor", "CopyAssign"): known[x] = known.get(a[1])
                elif op in ("MoveCtor", "MoveAssign") and x != a[1]: known[x] = known.pop(a[1], None)
                elif op == "Destroy": known.pop(x, None)
            for y, k in known.items():
                if k and k[1] is not None and r.random() < .5: out.append(query(y, *k))
        return out
    def make(x):
        n = r.randint(0, 5); out = ["Make %d %d" % (x, n)]
        if r.random() < .8: l, z = fill(x, n); return out + [l], (n, z)
        return out, (n, None)
    def ops(x, info):
        if info == "h" or r.random() < .25:
            m = r.randint(0, 5)
            return ["Resize %d %d" % (x, m)], (info if info != "h" and info[0] == m else (m, None))
        n, z = info
        if z is None or r.random() < .2: l, z = fill(x, n); return [l], (n, z)
        if r.random() < .2: return ["Write %d %d %d" % (x, r.randint(0, n), r.randint(-9, 9))], info
        if r.random() < .2: z = ref(); return ["SetRef %d %d" % (x, z)], (n, z)
        return [query(x, n, z)], info
    sc = [render(b) for b in beh + sim] + [heapgen.seeded(r, r.randint(6, 24), make, ops) for _ in range(c.pick(250, 3000))]
    sc.append(["Line %d %d %d %d" % tuple(r.randint(-2000, 2000) for _ in range(4)) for _ in range(200)])
    c.assumptions += ["a moved-from model is only resized, assigned to, moved or destroyed", "orders 0 to 5; coefficients, reference points and arguments exactly representable"]
    for cal in (0, 1):
        exe = c.build("poly%d" % cal, [vf.VERIF + "/harness/poly.cpp"], incs=[vf.VERIF + "/shim", vf.VERIF + "/lib", "src"], flags=["-O1", "-g1"] + ["-DCAL"] * cal)
        c.conform("PolyTrace", exe, sc, chunk_events=2500, label="cal" if cal else "num")
vf.main("C23", check)
