#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from icgemgen import *

def check(c):
    r = c.rng
    beh = c.model_check("IcgemDataMC", workers=8)
    if not c.thorough: beh = r.sample(beh, min(len(beh), 2500))
    if c.thorough: c.model_check("IcgemDataMC", subst={"N": 5, "Emit": "FALSE"}, workers=8)
    sim = c.model_check("IcgemDataMC", simulate=(c.pick(600, 6000), 24), subst={"N": 11, "MaxL": 2, "Top": 2})
    cases = [(b["rq"]["l"], b["rq"]["m"], b["rq"]["l"] + r.choice([0, 0, 1]), b["rq"]["deg"], b["rs"]) for b in beh + sim]
    for _ in range(c.pick(700, 8000)):      # near-complete files of larger models, at most a few things wrong
        deg = r.randint(0, 5)
        rs = []
        for n in range(deg + 1):
            for m in range(n + 1):
                rs.append({"n": n, "m": m, "c": r.randint(-12, 12), "s": r.randint(-12, 12) if m else 0, "q": "ok"})
        x = r.random()
        if x < .3: rs = [R for R in rs if R["n"] != 1]
        elif x < .4: rs = [R for R in rs if not (R["n"] == 1 and R["m"] == r.randint(0, 1))]
        elif x < .55 and rs: rs.pop(r.randrange(len(rs)))
        if r.random() < .25 and rs: rs.insert(r.randrange(len(rs) + 1), dict(r.choice(rs)))     # repeated record
        if r.random() < .2 and rs: rs[r.randrange(len(rs))] = dict(r.choice(rs))                # repeated in place of another
        if r.random() < .15: rs.insert(r.randrange(len(rs) + 1), {"n": r.randint(0, 2), "m": 0, "c": 0, "s": 0, "q": "bad"})
        if r.random() < .4: rs.insert(r.randrange(len(rs) + 1), {"n": r.randint(0, 2), "m": 0, "c": 0, "s": 0, "q": "text"})
        k = r.random()
        if k < .5: r.shuffle(rs)
        elif k < .7: rs.sort(key=lambda R: (R["m"], R["n"]))
        l = r.choice([deg, r.randint(0, deg), deg + 1]); m = r.choice([l, r.randint(0, l), l, l + 1])
        cd = r.choice([l, l, l + 1, l + 2, max(0, l - 1)])
        cases.append((l, m, cd, deg, rs))
    # a bad record's degree and order must lie inside the window to be looked at
    sc = []; scold = []
    for k, (l, m, cd, deg, rs) in enumerate(cases):
        gm, re_, norm = r.randint(1, 9999), r.randint(1, 9999), r.choice([1, 1, 0])
        rs = [dict(R, n=min(R["n"], l), m=0) if R["q"] == "bad" else R for R in rs]
        txt = model_text(r, deg, rs, gm, re_, norm, r.random() < .8)
        if deg == 0 : txt = txt.replace("max_degree 0", "max_degree 1"); deg = 1
        meta = {"l": l, "m": m, "cd0": cd, "deg": deg, "rs": rs, "mgm": gm, "mre": re_, "mnorm": norm}
        den = r.choice([0, 1])
        sc.append(["# " + json.dumps(dict(meta, den=den)), "F " + hexs(txt), "D %d %d %d" % (l, m, cd), "G %d %d %d %d" % (l, m, r.randint(0, 4), den)])
        if k % 3 == 0: scold.append(sc[-1][:3])
    def post(s, evs):
        meta = json.loads(s[0][2:])
        for e in evs:
            if e["event"] in ("Data", "Model"):
                e.update({k: v for k, v in meta.items() if k != "cd0"})
                if e["event"] == "Data": e["cd"] = meta["cd0"]
        return evs
    inc = [vf.VERIF + "/lib"]
    c.assumptions += ["repeated records carry equal values", "a malformed record lies inside the requested window (the reader need not look at values outside it)"]
    new = c.build("icgem", [vf.VERIF + "/harness/icgem.cpp", "src/gravity/icgemio_rdhead.cpp", "src/gravity/icgemio_rddata.cpp", "src/gravity/harmonic_coeffs.cpp", "src/gravity/parse_coefficients.cpp"], incs=inc + [vf.VERIF + "/shim", "src"])
    c.conform("IcgemDataTrace", new, sc, post=post, label="src", chunk_events=1500)
    old = c.build("icgemold", [vf.VERIF + "/harness/icgem.cpp", "var/icgem/src/icgemio_rdhead.cpp", "var/icgem/src/icgemio_rddata.cpp", "var/icgem/src/harmonic_coeffs.cpp"], incs=inc + ["var/icgem/src"], flags=("-O1", "-g1", "-DOLDCOPY"))
    c.conform("IcgemDataTrace", old, scold, post=post, label="var", chunk_events=1500)
vf.main("C06", check)
