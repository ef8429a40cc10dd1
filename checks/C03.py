#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, sgodegen as g

def check(c):
    c.model_check("SgOdeMC", workers=8, subst={"N": c.pick(2, 4)})
    sc = g.steps(c, c.pick(60, 1500)) + g.calibrated(g.fixed())
    c.assumptions += g.ASSUME
    for name, exe in g.builds(c):
        c.conform("SgOdeTrace", exe, sc, label=name, tsubst={"Enforce": '{"C03"}'}, chunk_events=4500, timeout=60)
        c.check_known("SgOdeTrace", exe, tsubst={"Enforce": '{"C03"}'})
vf.main("C03", check)
