#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
SRC = ["src/itrs2gcrs.cpp"]
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "src/var"]
def check(c):
    r = c.rng
    c.model_check("FramesMC", subst={"Angs": c.pick("{0, 1, 9}", "{0, 1, 3, 5, 9, 11}")}, workers=8)
    sc = []
    for _ in range(c.pick(2500, 60000)):
        s = ["New %d %d %d %d %d %d %d %d %s %s" % (r.randint(1, 3), r.randrange(12), r.randrange(12), r.randint(1, 3), r.randrange(12), r.choice([2, 2, 1, 3]), r.randrange(2), r.choice([0, 0, 1, -1]),
             r.choice(["1", "7e6", "123.25"]), " ".join(str(r.choice([0, r.randint(-9, 9), r.randint(-99, 99)])) for _ in range(6)))]
        for _ in range(r.choice([1, 2, 3, 6])): s += ["R"] * r.randrange(2) + ["T"]
        sc.append(s)
    so = []
    for _ in range(c.pick(300, 6000)):
        o = []
        for _ in range(5):
            day = r.choice([57754, 57204, 56109, 53736]) + r.choice([1, 2, 3, 100, 200, r.randint(2, 300)])
            ms = r.choice([0, 1, 36999, 37000, 37001, 43200000, 86399999, 86367816, 86367815, r.randrange(86400000)])
            if day % 7 == 0: ms = ms // 2
            o.append("Orient %d %d %d %d %d %d %d %d %d %d %d %d %d %d" % (day, ms, r.choice([0, r.randint(-899, 899)]), r.randint(-3000, 3000), r.randint(-9, 9), r.randint(-9, 9), r.randint(-9, 9), r.randint(-9, 9), r.choice([0] * 9 + [1, -1]),
                     r.randint(-999, 999), r.randint(-999, 999), r.randint(-999, 999), r.randint(-999, 999), day - r.randint(0, 5)))
        so.append(o)
    exe = c.build("frames", [vf.VERIF + "/harness/frames.cpp"] + SRC, incs=INC, flags=("-O1", "-g1", "-DNEW_EOP"))
    c.assumptions += ["rotations by angles with rational sines and cosines; Earth rotation at 1/2, 1 and 3/2 of the nominal rate (through the length of day)", "the models of the IERS library and the interpolation of the Earth orientation parameters are stand-ins that record their arguments"]
    c.conform("FramesTrace", exe, sc, label="frames", chunk_events=3000)
    c.conform("FramesTrace", exe, so, label="orient", chunk_events=3000)
if __name__ == "__main__": vf.main("C34", check)
