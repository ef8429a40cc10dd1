#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

def check(c):
    c.model_check("FlagSetsMC")
    beh = c.model_check("FlagSetsMC", "FlagSetsGen.cfg", subst={"N": c.pick(2, 3)})
    beh += c.model_check("FlagSetsMC", "FlagSetsGen.cfg", simulate=(c.pick(150, 1500), 32), subst={"N": 29, "EF": vf.tset(range(8)), "SF": vf.tset(range(12)), "PV": "{0, 1, 127, 128, 255, 170}"})
    sc = [vf.beh_to_lines(b) for b in beh]
    r = c.rng
    for _ in range(c.pick(60, 600)):      # long random histories over the full alphabets
        s = []
        for _ in range(60):
            k = r.choice(["EsSet", "EsSet", "EsClear", "EsReset", "EsCopy", "EsMake", "SpSet", "SpSet", "SpClear", "SpReset", "SpAssign", "PkSet", "PkSet", "PkSet"])
            if k in ("EsSet", "EsClear"): a = [r.randint(1, 2), r.randrange(8)]
            elif k in ("EsReset", "EsCopy"): a = [r.randint(1, 2)]
            elif k == "EsMake": a = [r.randint(1, 2)] + [r.randrange(8) for _ in range(r.randint(1, 3))]
            elif k in ("SpSet", "SpClear"): a = [r.randrange(12)]
            elif k == "SpAssign": a = [r.randrange(12) for _ in range(r.randint(2, 4))]
            elif k == "PkSet": a = [r.randint(1, 3), r.randrange(256)]
            else: a = []
            s.append(" ".join([k] + [str(x) for x in a]))
        sc.append(s)
    exe = c.build("flags", [vf.VERIF + "/harness/flags.cpp"], incs=[vf.VERIF + "/lib", "src", "."])
    c.conform("FlagSetsTrace", exe, sc)
    c.assumptions += ["flag enumerators are distinct powers of two (enum set) or bit positions 0..11 (orbit flag), as the types declare"]
vf.main("C09", check)
