#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
def check(c):
    r = c.rng
    beh = c.model_check("AntennaPcvMC", subst={"Step": c.pick(250, 25)}, workers=8)
    T = ["Alcatel", "Starec_B", "Starec_C"]
    q = ["Pcv %s %d %d 0" % (b["a"], b["f"], b["z"]) for b in beh]
    q += ["Pcv %s %d %d 0" % (a, f, z) for a in T for f in (1, 2) for z in [r.randint(0, 90000) for _ in range(c.pick(800, 8000))] + [r.choice([-1, 1]) * r.randint(90001, 2000000) for _ in range(60)]]
    q += ["Pcv %s %d %s" % (a, f, e) for a in T for f in (1, 2) for e in ("0 -1", "90000 1")]
    q += ["Pco %s %d" % (a, f) for a in T for f in (1, 2)] + ["Ion " + a for a in T]
    r.shuffle(q)
    inc = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "/usr/include/eigen3"]
    S = [q[i:i + 50] for i in range(0, len(q), 50)]
    for name, flags in (("antenna", []), ("antenna-debug", ["-DDEBUG", "-O0"])):
        c.conform("AntennaTrace", c.build(name, [vf.VERIF + "/harness/antenna.cpp", "src/doris/doris_system_info.cpp"], incs=inc, flags=flags), S, label=name)
    c.conform("AntennaTrace", c.build("antenna-prototype", [vf.VERIF + "/harness/antenna.cpp"], incs=[vf.VERIF + "/shim", vf.VERIF + "/lib", "."], flags=("-O1", "-g1", "-DPROTO")),
              [[x for x in s if x[:3] != "Ion"] for s in S], label="antenna-prototype")
    c.assumptions += ["zenith angles are finite numbers", "the tables and eccentricities of the DORIS ground segment models as written in the specification"]
if __name__ == "__main__": vf.main("C27", check)
