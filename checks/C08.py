#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, heapgen
import concurrent.futures as cf

def check(c):
    r = c.rng
    c.model_check("OwnHeapMC", subst={"N": c.pick(5, 6)}, workers=8)
    c.model_check("Mat2DMC", subst={"MaxDim": c.pick(7, 10)})
    beh = heapgen.gen(c, sample=c.pick(250, 3000), sims=c.pick(60, 600))
    SH = [[(1, 1)], [(2, 1), (1, 2)], [(3, 1), (2, 2), (1, 3), (2, 2)]]     # shapes with n-ish cells per storage order
    def render(b, kind):
        """TLC's histories speak of lengths and cell numbers; give each length a shape and each number a cell."""
        pick = {}; shp = {}; out = []
        for h in b:
            a = h["a"]; x = a[0]; op = h["op"]
            if op == "Make":
                n = a[1]
                if n not in pick: pick[n] = r.choice({"R": [(1, n), (n, 1), (n, 2)], "C": [(1, n), (n, 1), (2, n)], "T": [(n, n), (n, 1), (n, n + 1), (n + 1, n)]}[kind])
                shp[x] = pick[n]; out.append("Make %d %d %d" % (x, shp[x][0], shp[x][1])); continue
            if op == "Write":
                i = a[1] - 1; R, C = shp[x]
                cells = [(p, q) for p in range(R) for q in range(C) if kind != "T" or q <= p]
                p, q = cells[i % len(cells)]; out.append("Write %d %d %d %d" % (x, p, q, a[2])); continue
            if op in ("CopyCtor", "CopyAssign"): shp[x] = shp.get(a[1])
            if op in ("MoveCtor", "MoveAssign"): shp[x] = shp.get(a[1])
            out.append(" ".join([op] + [str(z) for z in a]))
        return out
    def seeded(kind):
        val = [0]
        def fillall(x, sh):
            s = []
            for p in range(sh[0]):
                for q in range(sh[1]):
                    if kind != "T" or q <= p: val[0] += 1; s.append("Write %d %d %d %d" % (x, p, q, val[0]))
            return s
        def make(x):
            sh = (r.randint(1, 5), r.randint(1, 5))
            return ["Make %d %d %d" % (x, *sh)] + (fillall(x, sh) if r.random() < .6 else []), sh
        def ops(x, sh):
            if sh == "h": return None
            if r.random() < .3: return ["Fill %d %d" % (x, r.randint(1, 99))], sh
            p = r.randrange(sh[0]); q = r.randrange(sh[1])
            if kind == "T" and q > p: return None
            val[0] += 1
            return ["Write %d %d %d %d" % (x, p, q, val[0])], sh
        return heapgen.seeded(r, r.randint(6, 22), make, ops)
    c.assumptions += ["matrices have at least one row and one column", "a moved-from matrix is only assigned to, moved or destroyed"]
    jobs = [(k, old) for old in (False, True) for k in "RCT"]
    def bld(j):
        k, old = j
        return c.build("mat%s%d" % (k, old), [vf.VERIF + "/harness/mat2d.cpp"], incs=[vf.VERIF + "/lib", "var/icgem/src" if old else "src"],
                       flags=["-O1", "-g1", "-DKIND='%s'" % k] + (["-DOLDCOPY"] if old else []))
    with cf.ThreadPoolExecutor(6) as ex: exes = list(ex.map(bld, jobs))
    D = c.pick(8, 14)
    for (k, old), exe in zip(jobs, exes):
        sc = [render(b, k) for b in beh] + [seeded(k) for _ in range(c.pick(60, 800))]
        sc.append(["Layout %d %d" % (i, j) for i in range(1, D + 1) for j in range(1, D + 1)])
        sc.append(["Layout %d %d" % p for p in ((20, 20), (23, 7), (7, 23), (40, 3))])
        c.conform("Mat2DTrace", exe, sc, label="%s%s" % ("var" if old else "src", k), chunk_events=1000)
vf.main("C08", check)
