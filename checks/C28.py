#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
IDX = dict(t1=1, t2=2, t3=3, s1=4, s2=5, p1=6, m1=7)
KIND = ["text", "text", "text", "spk", "spk", "pck", "meta"]
GM = [0, 5, 7, 0, 0, 0, 0]
KIDS = [[], [], [], [], [], [], [1, 4]]
def names(r, n):
    """n different names that resemble each other: prefixes, suffixes, letter case, directories, long paths"""
    out = []
    while len(out) < n:
        k = r.randrange(8)
        if not out or k == 0: s = r.choice(["naif0012.tls", "de421.bsp", "/data/kernels/gm_de431.tpc", "k", "earth_latest_high_prec.bpc"])
        else:
            b = r.choice(out)
            if k == 1: s = b[:-1] if len(b) > 1 else b + "x"
            elif k == 2: s = b + r.choice([".pc", "~", "2", "_v1"])
            elif k == 3: s = b.swapcase()
            elif k == 4: s = r.choice(["./", "data/", "../", "/"]) + b
            elif k == 5: s = b[1:] if len(b) > 1 else b + "y"
            elif k == 6: s = "/" + "d" * r.randint(100, 140) + "/" + b
            else: s = b[:len(b) // 2] + r.choice("XYZ") + b[len(b) // 2 + 1:]
        if len(s) <= 200 and s not in out: out.append(s)
    return out
def head(r, kind, gm, kids):
    ns = names(r, len(kind))
    return ["File %s %s %d %s" % (ns[i], kind[i], gm[i], " ".join(ns[k - 1] for k in kids[i])) for i in range(len(kind))] + \
           [vf.jline("Files", files=[dict(kind=kind[i], gm=gm[i], kids=kids[i]) for i in range(len(kind))])]
def check(c):
    r = c.rng
    c.model_check("KernelsMC", subst={"N": c.pick(4, 5)}, workers=8)
    beh = c.model_check("KernelsMC", "KernelsGen.cfg", subst={"N": c.pick(3, 4)}, workers=8)
    if len(beh) > c.pick(1500, 12000): beh = r.sample(beh, c.pick(1500, 12000))
    sc = [head(r, KIND, GM, KIDS) + ["%s %d" % (o["op"], IDX[o["f"]]) for o in b] for b in beh]
    for _ in range(c.pick(500, 4000)):
        n = r.randint(1, 12); kind = [r.choice(["text", "text", "spk", "spk", "pck"]) for _ in range(n)]; gm = [r.randint(1, 99) if k == "text" and r.random() < .6 else 0 for k in kind]; kids = [[] for _ in range(n)]
        for _ in range(r.choice([0, 0, 1])): kids.append(r.sample(range(1, n + 1), r.randint(1, min(n, 3)))); kind.append("meta"); gm.append(0)
        pool = []; L = head(r, kind, gm, kids)
        for _ in range(r.randint(1, 25)):
            f = r.randint(1, len(kind)); k = kind[f - 1]; x = r.random()
            if x < .03: L.append("clear"); pool = []
            elif x < .1: L.append("unload %d" % f); [pool.remove(g) for g in ([f] + kids[f - 1] if f in pool else []) if g in pool]
            elif x < .25 or k == "meta": L.append("load %d" % f); pool += [f] + kids[f - 1]
            elif x < .3 and any(gm[g - 1] for g in pool): L.append("gm 0")
            elif x < .35: L.append("pos %s %d" % (r.choice(["sun", "moon"]), r.randint(-90000, 90000)))
            else:
                ops = dict(text=["lsk", "lsk", "pck", "gm"], spk=["spk"], pck=["pck", "gm"])[k]; op = r.choice(ops)
                if op == "gm" and not gm[f - 1] and not any(gm[g - 1] for g in pool): op = "pck"
                L.append("%s %d" % (op, f)); pool += [f] if f not in pool else []
        sc.append(L)
    exe = c.build("kernels", [vf.VERIF + "/harness/kernels.cpp", "src/planets/cspice_utils.cpp"], incs=[vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "/usr/include/eigen3"])
    c.conform("KernelsTrace", exe, sc, label="kernels", chunk_events=2500)
    c.assumptions += ["the SPICE toolkit is not installed: a stand-in of its kernel pool with the documented behaviour (entries per load, kinds, names cut to the caller's buffer)", "names of at most 200 characters"]
if __name__ == "__main__": vf.main("C28", check)
