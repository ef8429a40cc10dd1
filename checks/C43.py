#!/usr/bin/env python3
import datetime, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
def mjd(y, m, d): return (datetime.date(y, m, d) - datetime.date(1858, 11, 17)).days
def check(c):
    r = c.rng
    c.model_check("BulletinMC", subst={"K": c.pick(3, 4)}, workers=8)
    beh = c.model_check("BulletinMC", "BulletinGen.cfg", workers=8)
    S = sorted({tuple(b) for b in beh})
    def bulletins(shift, first): # number -> days; a month's bulletin begins on day `first` and ends before the next begins
        o = {}
        for k in range(-6, 200):
            a = 2008 * 12 + 11 + k; b = a + 1
            o[252 + shift + k] = (mjd(a // 12, a % 12 + 1, first), mjd(b // 12, b % 12 + 1, first) - 1)
        return o
    START = mjd(2008, 12, 12)
    def pos(b, d): return "first" if d == b[0] else "last" if d == b[1] else "mid"
    def world(B, lo, hi, cut=0):
        g = 252 + (lo - START) // 31
        need = [k for k, b in B.items() if b[0] <= hi and lo <= b[1]]
        a, z = min(need + [g]) - 1, max(need + [g]) + 1
        if cut: z = max(need) - cut # not published yet
        return {k: b for k, b in B.items() if a <= k <= z}
    def run(B, t, n, cut=0):
        W = world(B, t - n, t + n, cut); seed = r.randint(0, 5000)
        return ["World " + json.dumps(dict(b=[[k, *b] for k, b in sorted(W.items())], seed=seed)), "Fetch " + json.dumps(dict(t=t, n=n, out=r.choice([0, 1, 1, 2])))]
    sc = []; got = set()
    for _ in range(c.pick(2, 25)):
        for p, q, span, off in S:
            for _ in range(400): # an interval in that situation
                B = bulletins(r.choice([0, 0, -1, 1, 3]), r.choice([1, 2, 2, 12])); k = r.choice(sorted(B)[8:-8]); n0, n1 = B[k]
                lo = {"first": n0, "last": n1, "mid": r.randint(n0 + 1, n1 - 1)}[p]; e = B[k + span]
                hi = {"first": e[0], "last": e[1], "mid": r.randint(e[0] + 1, e[1] - 1)}[q]
                if hi < lo or (hi - lo) % 2 or START > lo: continue
                sc.append(run(B, (lo + hi) // 2, (hi - lo) // 2)); got.add((p, q, span)); break
    for _ in range(c.pick(150, 2500)):
        B = bulletins(r.choice([0, 0, -1, 1, 2]), r.choice([1, 2, 2, 12]))
        t, n = r.randint(mjd(2009, 3, 1), mjd(2024, 1, 1)), r.choice([0, 1, 3, 3, 3, 7, 15, 20, 31, 45, 80])
        sc.append(run(B, t, n, cut=r.choice([0] * 9 + [1])))
    c.extra_cov = getattr(c, "extra_cov", {})
    c.log("situations rendered: %d" % len(got))
    os.environ["VF_SCRIPT"] = os.path.join(vf.REPO, "script/fetch_iers_c04.py"); os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    c.assumptions += ["the network is a stand-in that serves monthly bulletins one after the other without gap or overlap", "bulletins in the layout the script documents; final, preliminary and other sections hold different values"]
    c.conform("BulletinTrace", vf.VERIF + "/harness/bulletin.py", sc, chunk_events=60)
if __name__ == "__main__": vf.main("C43", check)
