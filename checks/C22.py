#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
LIM = 10 ** 9
class Sim:
    """integer bookkeeping of the filter, only to keep the numbers within TLC's range and to know the denominator"""
    def __init__(s, np, lin, ns):
        s.np, s.lin, s.ns = np, lin, ns; s.n = 6 + np + ns * (3 if lin else 2); s.d = 1
        s.P = [[int(i == j) for j in range(s.n)] for i in range(s.n)]; s.x = [0] * s.n
    def big(s): return max(max(abs(v) for r in s.P for v in r), max(map(abs, s.x + [0])), s.d)
def gen(r, np, lin, ns, ops):
    """ops: operations of a model behaviour, or a number of random ones"""
    s = Sim(np, lin, ns); out = ["New %d %d %d" % (np, lin, ns)]; n = s.n; w = 3 if lin else 2
    trop = lambda b: 6 + np + (b - 1) * w
    def setx(S, v):
        for i in S: s.x[i] = v * s.d
    def setp(S, v):
        for i in S: s.P[i][i] = v * s.d
    bs = lambda b: range(1, ns + 1) if b == 0 else [b]
    if isinstance(ops, int): ops = [dict(op=r.choice(["SetTropo", "SetTropoSigma", "SetRf", "SetRfSigma", "SetDrag", "SetDragSigma", "Time", "Obs", "Obs", "Get", r.choice(["Obs", "Start"])])) for _ in range(ops)]
    for o in ops:
        k = o["op"]; b = o.get("b", r.randint(0, ns)); v = o.get("v", r.randint(1, 9)); u = o.get("w", r.randint(1, 9))
        keep = (s.d, [x[:] for x in s.P], s.x[:])
        if k == "SetTropo":
            setx([trop(c) for c in bs(b)], v); c = "TropoRef" if b and r.random() < .3 else k; L = "%s %%d %d %d" % (c, b, v)
        elif k == "SetTropoSigma": setp([trop(c) for c in bs(b)], v); L = "%s %%d %d %d" % (k, b, v)
        elif k == "SetRf":
            setx([trop(c) + 1 for c in bs(b)], v)
            if lin: setx([trop(c) + 2 for c in bs(b)], u)
            L = "%s %%d %d %d %d" % ("RfRef" if b and not lin and r.random() < .3 else k, b, v, u)
        elif k == "SetRfSigma":
            setp([trop(c) + 1 for c in bs(b)], v)
            if lin: setp([trop(c) + 2 for c in bs(b)], u)
            L = "%s %%d %d %d %d" % (k, b, v, u)
        elif k in ("SetDrag", "SetDragSigma"):
            if np == 0: continue
            (setx if k == "SetDrag" else setp)([6], v); L = "%s %%d %d" % ("DragRef" if k == "SetDrag" and r.random() < .3 else k, v)
        elif k == "Time":
            ij = [(o["i"] - 1, o["j"] - 1, 2)] if "i" in o else [(r.randrange(n), r.randrange(n), r.choice([-1, 1, 2])) for _ in range(r.choice([0, 1, 1, 2]))]
            ij = list({(a, c): (a, c, e) for a, c, e in ij}.values())
            phi = [[int(a == c) for c in range(n)] for a in range(n)]
            for a, c, e in ij: phi[a][c] = e
            A = [[sum(phi[i][m] * s.P[m][j] for m in range(n) if phi[i][m]) for j in range(n)] for i in range(n)]
            s.P = [[sum(A[i][m] * phi[j][m] for m in range(n) if phi[j][m]) for j in range(n)] for i in range(n)]
            q = [] if "i" in o or r.random() < .6 else [(a, r.randint(1, 5)) for a in r.sample(range(n), 2)]
            for a, e in q: s.P[a][a] += e * s.d
            xk = [m + 1 for m in range(n)] if "i" in o else [r.randint(-9, 9) for _ in range(n)]
            s.x = [q * s.d for q in xk]
            L = "Time %%d %d %d %s %s %s" % (r.randint(0, 86400 * 20), n, " ".join(map(str, xk)), " ".join("%d %d %d" % (a + 1, c + 1, e) for a, c, e in ij), "".join((" Q %d %d" if not i else " %d %d") % (a + 1, e) for i, (a, e) in enumerate(q)))
        elif k == "Start":
            s.x = [r.randint(-9, 9) for _ in range(n)]; pd = [r.randint(1, 9) for _ in range(n)]; s.P = [[pd[i] if i == j else 0 for j in range(n)] for i in range(n)]; s.d = 1
            L = "Start %%d %d %d %s %s" % (r.randint(0, 86400 * 20), n, " ".join(map(str, s.x)), " ".join(map(str, pd)))
        elif k == "Obs":
            if "i" in o: H = {o["i"] - 1: 1, o["j"] - 1: 1}; z, g, sg = 3, 1, 2
            else: H = {r.randrange(n): r.choice([-2, -1, 1, 1]) for _ in range(r.choice([1, 1, 2, 3]))}; z, g, sg = r.randint(-5, 5), r.randint(-5, 5), r.choice([1, 1, 2, 3])
            h = [sum(s.P[i][j] * e for j, e in H.items()) for i in range(n)]; S = sg * sg * s.d + sum(h[j] * e for j, e in H.items())
            s.x = [s.x[i] * S + h[i] * (z - g) * s.d for i in range(n)]; s.P = [[s.P[i][j] * S - h[i] * h[j] for j in range(n)] for i in range(n)]; s.d *= S
            if S <= 0: s.d, s.P, s.x = keep; continue
            L = "Obs %%d %d %d %d %d %s" % (z, g, sg, n, " ".join("%d %d" % (j + 1, e) for j, e in sorted(H.items())))
        else:
            if not ns: continue
            L = "Get %%d %d %d" % (r.randint(1, ns), r.randint(-50, 50))
            if s.big() * 60 > LIM: continue
        if s.big() * 20 > LIM: s.d, s.P, s.x = keep; continue
        out.append(L % s.d)
    return out
def check(c):
    r = c.rng
    c.model_check("FilterMC", subst={"N": 2, "Nss": c.pick("{0, 1, 2}", "{0, 1, 2, 3}")}, workers=8)
    beh = c.model_check("FilterMC", "FilterGen.cfg", subst={"N": c.pick(2, 3)}, workers=8)
    if len(beh) > c.pick(600, 8000): beh = r.sample(beh, c.pick(600, 8000))
    sc = [gen(r, b[0]["np"], b[0]["lin"], b[0]["ns"], b[1:]) for b in beh]
    for _ in range(c.pick(300, 3000)):
        sc.append(gen(r, r.randint(0, 2), r.randint(0, 1), r.choice([0, 1, 2, 3, 4, 6]), r.choice([4, 10, 20])))
    inc = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "/usr/include/eigen3"]
    for name, flags in (("filter", []), ("filter-debug", ["-DDEBUG"])):
        exe = c.build(name, [vf.VERIF + "/harness/filter.cpp"], incs=inc, flags=flags)
        c.conform("FilterTrace", exe, sc if name == "filter" else sc[-60:], label=name, chunk_events=600)
    c.assumptions += ["force-model parameters 0-2 (compile-time), up to 6 beacons", "integer-valued entries; after measurements rationals over a common denominator (to 1e-8 relative)"]
if __name__ == "__main__": vf.main("C22", check)
