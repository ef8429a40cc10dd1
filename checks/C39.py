#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, rinexgen
SRC = ["src/rinex/read_rnx_header.cpp", "src/rinex/doris_rinex.cpp", "src/rinex/rnx_datablock_iterator.cpp", "src/doris/doris_system_info.cpp", "src/doris/fit_rfo.cpp"]
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "/usr/include/eigen3"]
SIG = {1: "2", 4: "1", 16: "0.5", 64: "0.25"}     # weights in quarters
class G(rinexgen.Gen):
    def field(self):
        f = super().field()
        if f["s"] != "m": f["h"] = f["h"] % 1000000
        if f["s"] != "m" and f["h"] == 0 and f["l"] == 0: f["l"] = 1
        return f
def check(c):
    r = c.rng; g = G(r)
    c.model_check("RfoFilterMC", subst={"L": c.pick(4, 5)}, workers=8)
    beh = c.model_check("RfoFilterMC", "RfoFilterGen.cfg", workers=8)
    if len(beh) > c.pick(700, 3000): beh = r.sample(beh, c.pick(700, 3000))
    def scenario(files, spoil=None, order=None):
        """files: kinds of their blocks (u reading, m none, e no beacons)"""
        base = r.choice([r.randint(51544, 60000), r.randint(59100, 59300), r.randint(59205, 59230)]) * 8 + r.randrange(8)
        tot = sum(len(f) for f in files); span = r.choice([24, 24, 12, 6]) if tot <= 7 else 24
        ks = sorted(r.choice(range(span + 1)) for _ in range(tot)) if r.random() < .6 else list(range(tot)) if tot <= 24 else [i * 24 // tot for i in range(tot)]
        if r.random() < .1: r.shuffle(ks)
        W = dict(x=r.choice([1, 4, 16, 64]), v=r.choice([1, 4, 16, 64]), z=r.choice([1, 4]))
        a = r.choice([r.randint(-100000, 100000), r.randint(-2000, 2000)]); dd = r.choice([0, r.randint(-500, 500), r.randint(-500, 500)]); nz = r.choice([0, 100, 500, 500])
        ids = ["D%02d" % x for x in r.sample(range(1, 99), 5)]
        fsj, lines = [], []; i = 0
        for fi, kinds in enumerate(files):
            head = g.good_header(nobs=r.choice([1, 2, 4, 5, 6, 10, 10])); ob = [L for L in head if L["k"] == "obs"][0]
            if "F0" not in ob["cs"]:
                k = r.randrange(len(ob["cs"])); old = ob["cs"][k]; ob["cs"][k] = "F0"
                for L in head:
                    if L["k"] == "sf" and not L["all"]: L["cs"] = ["F0" if y == old else y for y in L["cs"]]
            cs = ob["cs"]; col = cs.index("F0"); fac = 1
            for L in head:
                if L["k"] == "sf" and (L["all"] or "F0" in L["cs"]): fac = L["f"]
            D = []; firsts = []
            for kd in kinds:
                k = ks[i]; i += 1; t = base + k
                nb = 0 if kd == "e" else r.choice([1, 1, 2, 3])
                ep = g.epoch(nb); ep.update(d=t // 8, sec=t % 8 * 10800, ns=0); D.append(ep)
                f = a + (3000 + dd) * k // 8 + r.randint(-nz, nz) or 1
                differ = spoil and spoil[0] == fi and spoil[1] == "differ" and nb > 1 and r.random() < .5
                for b in range(nb):
                    fl = [g.field() for _ in cs]
                    if kd == "m": fl[col] = dict(s="m", h=0, l=0, a=" ", b=" ")
                    else:
                        f2 = (f + r.choice([1, -1, 1000, -2 * f]) or 2) if differ and b == nb - 1 else f
                        v = abs(f2) * fac; fl[col] = dict(s="-" if f2 < 0 else "+", h=v // 1000, l=v % 1000, a=" ", b=r.choice(" 01"))
                    for j in range(0, len(cs), 5):
                        L = dict(k="c" if j else "b", ok=True, fs=fl[j:j + 5])
                        if not j: L["id"] = ids[b]
                        D.append(L)
            there, top = 1, True
            if spoil and fi == spoil[0]:
                k = spoil[1]
                if k == "gone": there = 0
                elif k == "top": top = False
                elif k == "noF" and len(cs) < len(rinexgen.CODES):
                    new = r.choice([x for x in rinexgen.CODES if x not in cs])
                    for L in head:
                        if L["k"] in ("obs", "sf") and L.get("cs"): L["cs"] = [new if y == "F0" else y for y in L["cs"]]
                elif k in ("head", "noF"):
                    sfs = [L for L in head if L["k"] in ("sf", "obs")]; head = g.spoil(head)
                    if [L for L in head if L["k"] in ("sf", "obs")] != sfs: top = False
                elif k == "data" and D:
                    j = r.randrange(len(D)); q = r.randrange(3)
                    if q == 0: D[j] = dict(k="junk")
                    elif q == 1: D[j] = dict(D[j], ok=False)
                    elif j + 1 < len(D) and D[j + 1]["k"] in "bc": D = D[:j + 1]                 # in the middle of a block
                    else: D = D[:j + 1] + [dict(k="junk")]
            t, ev = g.render(top, head, D); ev.pop("event"); ev["there"] = there
            fsj.append(ev)
            lines.append("W f%d.rnx -" % (fi + 1) if not there else vf.wfile("f%d.rnx" % (fi + 1), t))
        ix = list(range(1, len(files) + 1))
        if order == "mixed": ix = [r.choice(ix) for _ in range(r.randint(1, 3))] if tot <= 7 else r.sample(ix, len(ix))
        js = json.dumps(dict(ix=ix, w=W), separators=(",", ":"))[1:-1]
        lines.append(vf.jline("Files", fs=fsj))
        lines.append("Kal %s %s %s %s %s" % (js, SIG[W["x"]], SIG[W["v"]], SIG[W["z"]], " ".join("f%d.rnx" % k for k in ix)))
        return lines
    sc = [scenario(b) for b in beh]
    for _ in range(c.pick(400, 6000)):
        nf = r.choice([1, 1, 2, 3]); p = r.choice([0, .1, .4]); n = r.choice([1, 3, 7, 20]) // nf + 1
        fl = [["u" if r.random() >= p else r.choice("me") for _ in range(r.randint(0 if q else 1, n))] for q in range(nf)]
        sc.append(scenario(fl, (r.randrange(nf), r.choice(["gone", "top", "noF", "head", "data", "data", "differ", "differ"])) if r.random() < .35 else None, r.choice([None, "mixed"])))
    exe = c.build("rfofilter", [vf.VERIF + "/harness/rfofilter.cpp"] + SRC, incs=INC)
    c.assumptions += ["epochs of blocks at eighths of days, within three days of the first reading; standard deviations powers of two", "readings within half a unit of a line whose drift is within half a unit of the a-priori one", "either every beacon of a block carries a reading or none does"]
    c.conform("RfoFilterTrace", exe, sc, chunk_events=60)
if __name__ == "__main__": vf.main("C39", check)
