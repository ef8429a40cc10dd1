#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

def rand_history(r, n, maxdeg, full):
    """A random enabled history over three containers (tracks only what is enabled)."""
    st = {1: None, 2: None, 3: None}    # None dead | 'h' | degree
    deno = {}                           # may be denormalised again without leaving integers
    s = []
    for _ in range(n):
        x = r.randint(1, 3); cur = st[x]
        if cur is None:
            k = r.choice(["Make", "Make", "Make", "MakeC", "Default", "MoveCtor"])
            if k == "MoveCtor":
                ys = [y for y in st if st[y] is not None]
                if not ys: continue
                y = r.choice(ys); s.append("MoveCtor %d %d" % (x, y)); st[x], st[y] = st[y], "h"; deno[x] = deno.get(y)
            elif k == "Default": s.append("Default %d" % x); st[x] = "h"
            else:
                d = r.randint(0, maxdeg); st[x] = d; deno[x] = False
                s.append("Make %d %d" % (x, d) if k == "Make" or not full else "MakeC %d %d %d %d" % (x, d, r.randint(1, 99), r.randint(1, 99)))
            continue
        if cur != "h" and r.random() < 0.3:      # fill every cell with its own value
            for n_ in range(cur + 1):
                for m in range(n_ + 1):
                    s.append("WriteC %d %d %d %d" % (x, n_, m, r.choice([-1, 1]) * r.randint(1, 12)))
                    if m: s.append("WriteS %d %d %d %d" % (x, n_, m, r.choice([-1, 1]) * r.randint(1, 12)))
            deno[x] = False
            continue
        k = r.choice(["Destroy", "MoveAssign", "MoveAssign"] + (["Resize", "Resize", "Resize"] if full else []) + ([] if cur == "h" else ["W", "W", "Denorm", "Denorm"] + (["SetNorm", "SetConst"] if full else [])))
        if k == "Destroy": s.append("Destroy %d" % x); st[x] = None
        elif k == "MoveAssign":
            y = r.choice([y for y in st if st[y] is not None]); s.append("MoveAssign %d %d" % (x, y))
            if x != y: st[x], st[y] = st[y], "h"; deno[x] = deno.get(y)
        elif k == "Resize":
            d = r.randint(0, maxdeg); s.append("Resize %d %d" % (x, d))
            if cur == "h": s.append("SetNorm %d 1" % x); s.append("SetConst %d 1 2" % x)
            if cur != d: deno[x] = False
            st[x] = d
        elif k == "W":
            n_ = r.randint(0, cur); m = r.randint(0, n_); c = "WriteS" if m and r.random() < .5 else "WriteC"
            s.append("%s %d %d %d %d" % (c, x, n_, m, r.randint(1, 12)))
        elif k == "SetNorm":
            b = r.randint(0, 1) if not deno.get(x) else 0
            s.append("SetNorm %d %d" % (x, b))
        elif k == "SetConst": s.append("SetConst %d %d %d" % (x, r.randint(1, 99), r.randint(1, 99)))
        elif k == "Denorm":
            if deno.get(x) and not full: continue
            e = r.choice([-1, -1, cur, cur + 1, cur + 3, r.randint(0, cur)])
            s.append("Denorm %d %d" % (x, e))
            if e <= cur: deno[x] = True
    return s

def check(c):
    c.model_check("HarmonicsMC", subst={"N": c.pick(4, 5)}, workers=8)
    r = c.rng
    beh = c.model_check("HarmonicsMC", "HarmonicsGen.cfg", subst={"N": 2}, workers=4)
    simn = c.pick(150, 1500)
    beh += c.model_check("HarmonicsMC", "HarmonicsGen.cfg", simulate=(simn, 30), subst={"N": 24, "MaxDeg": 2, "Slots": "{1, 2, 3}", "Vals": "{1, 2, 3}"})
    sc = [vf.beh_to_lines(b) for b in beh] + [rand_history(r, r.randint(10, 30), c.pick(4, 5), True) for _ in range(c.pick(150, 2000))]
    sc.append(["Big"])
    c.assumptions += ["a moved-from or default-constructed container is only assigned to, resized or destroyed", "cells are read at degree <= 5 in histories, factors up to degree 120"]
    new = c.build("harm", [vf.VERIF + "/harness/harmonics.cpp", "src/gravity/harmonic_coeffs.cpp"], incs=[vf.VERIF + "/lib", "src"])
    c.conform("HarmonicsTrace", new, sc, label="src")
    beh = c.model_check("HarmonicsMC", "HarmonicsGen.cfg", simulate=(c.pick(60, 500), 30), subst={"N": 18, "MaxDeg": 2, "Slots": "{1, 2, 3}", "Vals": "{1, 2, 3}", "HasNorm": "FALSE"})
    sc = [vf.beh_to_lines(b) for b in beh] + [rand_history(r, r.randint(10, 25), 4, False) for _ in range(c.pick(60, 500))]
    sc.append(["Big"])
    old = c.build("harmold", [vf.VERIF + "/harness/harmonics.cpp", "var/icgem/src/harmonic_coeffs.cpp"], incs=[vf.VERIF + "/lib", "var/icgem/src"], flags=("-O1", "-g1", "-DOLDCOPY"))
    c.conform("HarmonicsTrace", old, sc, label="var", tsubst={"HasNorm": "FALSE"})
vf.main("C07", check)
