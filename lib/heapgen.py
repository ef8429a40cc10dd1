"""Histories for the buffer-owning value classes: TLC's (over lengths) and seeded ones."""
def gen(c, sims=120, depth=14, sample=600):
    beh = c.model_check("OwnHeapMC", "OwnHeapGen.cfg", subst={"N": c.pick(3, 4)}, workers=4)
    if len(beh) > sample: beh = c.rng.sample(beh, sample)
    sim = c.model_check("OwnHeapMC", "OwnHeapGen.cfg", simulate=(sims, depth + 3), subst={"N": depth, "Slots": "{1, 2, 3}", "MaxLen": 3, "Vals": "{1, 2, 3, 4}"})
    if len(sim) > sims * 2: sim = c.rng.sample(sim, sims * 2)
    return beh + sim
def seeded(r, n, make, ops):
    """A random enabled history over three objects. make(x) -> (line, info); ops(x, info) -> (line, info) for class-specific operations."""
    st = {1: None, 2: None, 3: None}; s = []
    for _ in range(n):
        x = r.randint(1, 3); ys = [y for y in st if st[y]]
        live = [y for y in ys if st[y] != "h"]
        if st[x] is None:
            k = r.choice(["Make", "Make", "Copy", "Copy", "Move"])
            if k == "Make" or not ys or (k == "Copy" and not live):
                ls, info = make(x); s += ls; st[x] = info
            elif k == "Copy": y = r.choice(live); s.append("CopyCtor %d %d" % (x, y)); st[x] = st[y]
            else: y = r.choice(ys); s.append("MoveCtor %d %d" % (x, y)); st[x], st[y] = st[y], "h"
            continue
        k = r.choice(["D", "CA", "CA", "MA", "MA", "op", "op", "op", "op"])
        if k == "D": s.append("Destroy %d" % x); st[x] = None
        elif k == "CA":
            y = r.choice(live + [x]); s.append("CopyAssign %d %d" % (x, y)); st[x] = st[y]
        elif k == "MA":
            y = r.choice(ys); s.append("MoveAssign %d %d" % (x, y))
            if x != y: st[x], st[y] = st[y], "h"
        else:
            res = ops(x, st[x])
            if res: s += res[0]; st[x] = res[1]
    return s
