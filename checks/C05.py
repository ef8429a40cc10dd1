#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
from icgemgen import *

def check(c):
    r = c.rng
    beh = c.model_check("IcgemHeaderMC", subst={"N": c.pick(3, 4)}, workers=6)
    if c.thorough: beh = r.sample(beh, min(len(beh), 40000))
    beh += c.model_check("IcgemHeaderMC", simulate=(c.pick(400, 6000), 12), subst={"N": 10})
    def L(k, v=0, q="ok"): return {"k": k, "v": v, "q": q}
    end = L("end")
    good = [L("gm", 3986), L("re", 6378), L("deg", 4), L("str"), L("norm", 1)]
    for _ in range(c.pick(1200, 12000)):       # mostly complete headers, one thing wrong at most, any order
        ls = [dict(x) for x in good]
        if r.random() < 0.3: ls.append(L("norm", r.randint(0, 1)))
        if r.random() < 0.3: ls.append(L(r.choice(["gm", "re"]), r.randint(1, 99999)))
        if r.random() < 0.3: ls.append(L("deg", r.randint(1, 2000)))
        if r.random() < 0.2: ls = [x for x in ls if x["k"] != "norm"]
        for _ in range(r.randint(0, 6)): ls.append(L(r.choice(["text", "text", "str"])))
        r.shuffle(ls)
        x = r.random()
        if x < 0.15: ls.pop(r.randrange(len(ls)))
        elif x < 0.4: ls.insert(r.randrange(len(ls) + 1), r.choice([L("gm", 0, "bad"), L("re", 0, "bad"), L("deg", 0, "bad"), L("gm", 0, "empty"), L("re", 0, "empty"), L("deg", 0, "empty"), L("str", 0, "empty"), L("norm", 0, "empty")]))
        if r.random() < 0.92: ls.append(end)
        beh.append(ls)
    beh.append(good + [L("text")] * 950 + [end])
    sc = []
    for b in beh:
        lines = [header_line(r, x) for x in b]
        ends = [i for i, x in enumerate(b) if x["k"] == "end"]
        body = "\n".join(lines) + r.choice(["\n", "\n", "" if not ends else "\n"])
        first = r.randint(1, 9999)
        if ends and ends[0] == len(b) - 1:
            body = body.rstrip("\n") + "\n" + "gfc 0 0 %d 0.0\ngfc 0 0 1 0\ngfc 1 0 5 0\n" % first
        # a header whose end line is not its last abstract line: the lines after it are data-section text
        elif ends:
            body = "\n".join(lines[:ends[0] + 1] + ["gfc 0 0 %d 0.0" % first] + lines[ends[0] + 1:]) + "\n"
        sc.append(["# " + json.dumps({"lines": b, "first": first}), "F " + hexs(body), "H"])
    sc.append(["# {}", "X"])
    def post(s, evs):
        meta = json.loads(s[0][2:])
        for e in evs:
            if e["event"] == "Header": e.update(meta)   # the abstract lines, as rendered
        return evs
    inc = [vf.VERIF + "/lib"]
    c.assumptions += ["header lines are shorter than 255 characters and at most 1000 (documented limits of the reader)"]
    new = c.build("icgem", [vf.VERIF + "/harness/icgem.cpp", "src/gravity/icgemio_rdhead.cpp", "src/gravity/icgemio_rddata.cpp", "src/gravity/harmonic_coeffs.cpp", "src/gravity/parse_coefficients.cpp"], incs=inc + [vf.VERIF + "/shim", "src"], flags=("-O1", "-g1", "-DDEBUG"))
    c.conform("IcgemHeaderTrace", new, sc, post=post, label="src")
    old = c.build("icgemold", [vf.VERIF + "/harness/icgem.cpp", "var/icgem/src/icgemio_rdhead.cpp", "var/icgem/src/icgemio_rddata.cpp", "var/icgem/src/harmonic_coeffs.cpp"], incs=inc + ["var/icgem/src"], flags=("-O1", "-g1", "-DOLDCOPY", "-DDEBUG"))
    c.conform("IcgemHeaderTrace", old, sc if c.thorough else sc[::3] + sc[-1:], post=post, label="var")
vf.main("C05", check)
