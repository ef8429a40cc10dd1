"""Scenarios for the Runge-Kutta-Fehlberg integrator (C04)."""
import json, os
import vf
SRC = ["var/ode_solvers/rkf45_rkfs.cpp", "var/ode_solvers/rkf45_fehl.cpp"]
CAL = os.path.join(vf.VERIF, "lib", "rkf_cal.json")
TOLS = ((1e-3, 1e-3), (1e-5, 1e-7), (1e-7, 1e-7), (1e-9, 1e-10), (1e-11, 1e-12))
def build(c):
    return c.build("rkf", [vf.VERIF + "/harness/rkf45.cpp"] + SRC, incs=[vf.VERIF + "/lib", "var/ode_solvers", "."])
def fixed():
    out = []
    def add(p, r, a, *calls): out.append(["P %d -1 %g %g" % (p, r, a)] + list(calls))
    for p in (0, 1, 2, 3, 4, 8, 10, 13, 14):
        for r, a in TOLS:
            add(p, r, a, "C 1", "C 2", "C 1.5", "C 0.25")
            if p in (0, 2, 13, 14): add(p, r, a, *["C +0.0625"] * 6, "C u3", "C u-4", "C +1e-13", "C +-0.5", "C +0.75")
        add(p, 1e-8, 1e-8, "C -1", "C -2", "C 1")
        add(p, 0, 1e-9, "C 1", "C 1", "C 2")
    for p in (1, 3, 14): add(p, 1e-9, 0, "C 2", "C 1")
    for r, a in TOLS[:4]: add(9, r, a, "C 1", "C 0.2"); add(11, r, a, "C 1", "C 0.5")
    return out
def calibrated(sc):
    cal = json.load(open(CAL)); out = []
    for s in sc:
        k = "|".join(s)
        if k not in cal: raise vf.CheckError("not calibrated: " + k)
        out.append([s[0]] + ["%s any %d %d" % (l, max(25, 5 * q + 5), int(1.3 * n) + 8) for l, (q, n) in zip(s[1:], cal[k])])
    return out
OUT = [["P 2 -1 0 1e-6", "C 1 floor", "C 1 ok", "C 2 ok"], ["P 2 -1 1e-14 0", "C 1 floor", "C = any", "C 1"], ["P 0 -1 1e-12 1", "C 1 floor", "C 2 ok"],
       ["P 11 -1 1e-11 1e-13", "C 60 work", "C 60 work", "C 60"], ["P 5 -1 1e-6 1e-6", "C 30 work", "C 30 work", "C 30"], ["P 11 -1 1e-11 1e-13", "C -60 work", "C -60 work", "C 60"],
       ["P 7 -1 1e-6 1e-6", "C 1.5", "C 1.5", "C 2"], ["P 10 -1 1e-6 0", "C 1 ok", "C 5 ok"],
       ["P 10 -1 1e-6 0", "S 0 0", "C 1 zero", "C 1", "C 2", "C ="], ["P 13 -1 1e-6 1e-6", "C 3 ok", "C = any", "C 4", "C 4"],
       ["P 4 0 1e-6 1e-6", "C 1", "C 1", "C ="], ["P 4 -1 -1e-6 1e-6", "C 1", "C 1"], ["P 4 -1 1e-6 -1e-6", "C 1", "C 2"], ["P 4 -1 0 -1", "C 1", "C 2"], ["P 4 -1 1e-6 1e-6", "C =", "C 1", "C ="],
       ["P 12 -1 1e-9 1e-9", "S 0.5", "C 1", "C 2"], ["P 12 -1 1e-12 1e-300", "S 0.4", "C 1", "C 2"]]
