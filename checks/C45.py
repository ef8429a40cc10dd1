#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
HEAD = ["product_type gravity_field", "modelname EIGEN-5C", "earth_gravity_constant 0.3986004415D+15", "radius 6378136.46D0", "max_degree 2", "errors formal", "norm fully_normalized", "key L M C S", "the model has coefficients with exponents D", "1.0d5"]
def check(c):
    r = c.rng
    c.model_check("GfcConvMC", subst={"L": c.pick(4, 5)}, workers=8)
    beh = c.model_check("GfcConvMC", "GfcConvGen.cfg", workers=8)
    def num(x=None): return dict(s=r.choice(["", "-", "+"]), i=r.choice(["0", "", "1", "12", "398600", str(r.randint(0, 99))]), f="".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 8, 12, 16]))), x=x if x else r.choice("DDDdde"), e=r.choice(["-10", "+00", "-03", "5", "00", "+15", "-104"]))
    def word(t): return t if "w" in t else dict(t, i=t["i"] or ("" if r.random() < .5 else "0"))
    def text(t): return t["w"] if "w" in t else t["s"] + t["i"] + "." + t["f"] + t["x"] + t["e"]
    def W(s): return [dict(w=x) for x in s.split()]
    def scen(lines):
        t = "\n".join(r.choice(["", "", " ", "\t"]) + r.choice([" ", "   "]).join(text(x) for x in l) + r.choice(["", "", " "]) for l in lines)
        if r.random() < .8 or not lines or not lines[-1]: t += "\n" if lines else ""
        return ["File " + json.dumps(dict(lines=lines, text=t))] + ["Convert " + json.dumps(dict(copy=k)) for k in (0, 1)]
    sc = []
    for b in r.sample(beh, min(len(beh), c.pick(600, 1100))):
        sc.append(scen([[x if "w" in x else num(x["x"]) for x in l] for l in b]))
    for _ in range(c.pick(500, 12000)):
        ls = [W(r.choice(HEAD)) for _ in range(r.randint(0, 6))]
        if r.random() < .95: ls.append(W("end_of_head " + r.choice(["", "=====", "1.0D5"])))
        for _ in range(r.randint(0, 12)):
            k = r.random()
            ls.append([] if k < .05 else W(r.choice(["# data", "end_of_head", "DORIS D-3", "gfct"])) if k < .12 else W(r.choice(["gfc", "gfct", "trnd", "acos"]) + " %d %d" % (r.randint(0, 400), r.randint(0, 400))) + [num() for _ in range(r.choice([1, 2, 2, 4, 4, 4, 6, 9]))] + W(r.choice(["", "", "20050101", "1.0", "-2.5"])))
        sc.append(scen(ls))
    os.environ["VF_ROOT"] = vf.REPO; os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    c.assumptions += ["numbers with a decimal point and fractional digits, as the tool documents; words are compared, not the blanks between them"]
    c.conform("GfcConvTrace", vf.VERIF + "/harness/gfcconv.py", sc, chunk_events=400)
if __name__ == "__main__": vf.main("C45", check)
