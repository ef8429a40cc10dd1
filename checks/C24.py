#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, rinexgen
SRC = ["src/rinex/read_rnx_header.cpp", "src/rinex/doris_rinex.cpp", "src/rinex/rnx_datablock_iterator.cpp", "src/doris/doris_system_info.cpp", "src/doris/extract_doppler_count.cpp"]
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "/usr/include/eigen3"]
class G(rinexgen.Gen):
    def field(self):
        f = super().field()
        if f["s"] != "m": f["h"] = f["h"] % 1000000                      # differences stay within TLC's integers
        if f["s"] != "m" and f["h"] == 0 and f["l"] == 0: f["l"] = 1
        return f
def check(c):
    r = c.rng; g = G(r)
    c.model_check("DopplerMC", subst={"Bs": c.pick("{1, 2}", "{1, 2}"), "N": c.pick(3, 4)}, workers=8)
    c.model_check("DopplerMC", subst={"Bs": "{1, 2, 3}", "N": c.pick(2, 2)}, workers=8)
    beh = c.model_check("DopplerMC", "DopplerGen.cfg", subst={"N": 3}, workers=8)
    if len(beh) > c.pick(700, 8000): beh = r.sample(beh, c.pick(700, 8000))
    def look_alike(n):
        return r.choice([["D0%d" % (i + 1) for i in range(n)], ["D%02d" % i for i in r.sample(range(1, 99), n)], ["D1%d" % i for i in range(n)], ["D%d0" % (i + 1) for i in range(n)]])
    def data(blocks, cols):
        """blocks: lists of (beacon, what is missing: 0 nothing, 1 / 2 that phase, 3 both)"""
        m = len(cols); ids = look_alike(max([b for B in blocks for b, _ in B] + [1])); D = []
        day, sec, ns = r.randint(51544, 60000), r.randrange(86400), r.choice([0, r.randrange(10 ** 9)])
        for B in blocks:
            ep = g.epoch(len(B)); ep.update(d=day, sec=sec, ns=ns); D.append(ep)
            for b, miss in B:
                fs = [g.field() for _ in range(m)]
                for i, col in enumerate(cols):
                    if col in ("L1", "L2"):
                        want = bool(miss & int(col[1]))
                        while (fs[i]["s"] == "m") != want: fs[i] = dict(s="m", h=0, l=0, a=" ", b=" ") if want else g.field()
                for j in range(0, m, 5):
                    L = dict(k="c" if j else "b", ok=True, fs=fs[j:j + 5])
                    if not j: L["id"] = ids[b - 1]
                    D.append(L)
            ns += r.choice([0, 0, r.randrange(10 ** 9)]); sec += r.choice([3, 7, 7, 10, 10, r.randint(1, 99), r.randint(1, 20000)])
            sec += ns // 10 ** 9; ns %= 10 ** 9; day += sec // 86400; sec %= 86400
        return D
    def scenario(blocks, spoil=False):
        head = g.good_header(nobs=r.choice([2, 4, 5, 6, 8, 10, 10, 10]))
        ob = [L for L in head if L["k"] == "obs"][0]
        need = [x for x in ("L1", "L2") if x not in ob["cs"]]
        if need and r.random() < .9:                               # both phases listed, in columns of their own
            ok = [i for i, x in enumerate(ob["cs"]) if x not in ("L1", "L2")]
            for x, i in zip(need, r.sample(ok, len(need))):
                old = ob["cs"][i]; ob["cs"][i] = x
                for L in head:
                    if L["k"] == "sf" and not L["all"]: L["cs"] = [x if y == old else y for y in L["cs"]]
        for L in head:
            if L["k"] == "sf" and not L["all"]: L["cs"] = sorted(set(L["cs"]), key=L["cs"].index)
        D = data(blocks, ob["cs"])
        if spoil and D:
            i = r.randrange(len(D)); k = r.randrange(4)
            if k == 0: D[i] = dict(k="junk")
            elif k == 1: D.pop(i)
            elif k == 2: D = D[:i]
            elif D[i]["k"] != "junk": D[i] = dict(D[i], ok=False)
        txt, ev = g.render(True, head, D); ev.pop("event")
        sc = [vf.wfile("f.rnx", txt), vf.jline("File", **ev), "Open f.rnx 0"] + ["Next"] * r.choice([0, 0, 0, 1, len(blocks) + 1]) + ["Counts"]
        if r.random() < .3: sc.append("Counts")
        return sc
    sc = [scenario([[(o["b"], o["k"]) for o in B] for B in b]) for b in beh]
    for _ in range(c.pick(500, 5000)):
        nb = r.choice([1, 2, 3, 5, 8]); p = r.choice([0, .1, .3])
        sc.append(scenario([[(b, r.choice([1, 2, 3]) if r.random() < p else 0) for b in r.sample(range(1, nb + 1), r.randint(0, nb))] for _ in range(r.choice([1, 3, 6, 10, 20]))], r.random() < .15))
    exe = c.build("doppler", [vf.VERIF + "/harness/rinex.cpp"] + SRC, incs=INC, flags=["-DVF_DOPPLER"])
    c.assumptions += ["raw phases below 1e6 (32-bit integers of TLC)", "a beacon appears once per block", "an observation that lacks a phase forms no count, neither with the one before nor with the one after"]
    c.conform("DopplerTrace", exe, sc, chunk_events=500)
if __name__ == "__main__": vf.main("C24", check)
