#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, rinexgen
SRC = ["src/rinex/read_rnx_header.cpp", "src/rinex/doris_rinex.cpp", "src/rinex/rnx_datablock_iterator.cpp", "src/doris/doris_system_info.cpp", "src/rinex/fit_rfo.cpp"]
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "/usr/include/eigen3"]
SPAN = {1: (5000, 1500, 7000, 20), 2: (74, 500, 2300, 4), 3: (20, 170, 800, 1)}      # order: ticks, noise, bound of the residuals, slope
class G(rinexgen.Gen):
    def field(self):
        f = super().field()
        if f["s"] != "m": f["h"] = f["h"] % 1000000
        if f["s"] != "m" and f["h"] == 0 and f["l"] == 0: f["l"] = 1
        return f
def check(c):
    r = c.rng; g = G(r)
    c.model_check("FreqOffsetMC", subst={"L": c.pick(6, 8), "Ns": "{1, 2, 3}"}, workers=8)
    beh = c.model_check("FreqOffsetMC", "FreqOffsetGen.cfg", workers=8)
    if len(beh) > c.pick(900, 6000): beh = r.sample(beh, c.pick(900, 6000))
    def abst(base, ticks): x = base[0] * 172800 + base[1] * 2 + ticks; return x // 172800, x % 172800 // 2, x % 2 * 500000000
    def txt(base, ticks): return "%d:%d:%d" % abst(base, ticks)
    def scenario(n, files, window, spoil=None):
        """files: kinds of their epochs in order of time; window: (use from, use to)"""
        order = r.choice([1, 1, 1, 2, 2, 3]); T, noise, lim, slope = SPAN[order]
        tot = sum(len(f) for f in files)
        if tot > T: order = 1; T, noise, lim, slope = SPAN[1]
        base = [r.randint(51544, 60000), r.randrange(86400)]
        tai = r.randint(0, 1)
        # times on the corrected scale, increasing; offsets that keep the proper ones increasing too
        lo = r.choice([0, 0, 0, -5]) if order == 1 else 0
        if tot * 20 < T and r.random() < .5: ts = []; x = lo; step = r.choice([1, 6, 14, 20]); 
        else: step = None
        if step: ts = [lo + i * step for i in range(tot)]
        else: ts = sorted(r.sample(range(lo, T), tot))
        i = 0; events = []; F = []; names = []; heads = []
        polyc = [r.randint(-20000, 20000), r.randint(-slope, slope), 1 if order > 1 else 0, r.choice([0, 1]) if order == 3 else 0][:order + 1]
        P = lambda m: sum(a * m ** k for k, a in enumerate(polyc)) or 1
        frm, to, mids = None, None, []
        nonoise = r.random() < .3
        for fi, kinds in enumerate(files):
            head = g.good_header(nobs=r.choice([1, 2, 4, 5, 6, 10, 10])); ob = [L for L in head if L["k"] == "obs"][0]
            if "F0" not in ob["cs"]:
                k = r.randrange(len(ob["cs"])); old = ob["cs"][k]; ob["cs"][k] = "F0"
                for L in head:
                    if L["k"] == "sf" and not L["all"]: L["cs"] = ["F0" if y == old else y for y in L["cs"]]
            cs = ob["cs"]; col = cs.index("F0"); fac = 1; rcv = 0
            for L in head:
                if L["k"] == "sf" and (L["all"] or "F0" in L["cs"]): fac = L["f"]
                if L["k"] == "rcv": rcv = L["v"]
            head = [L for L in head if L["k"] != "refdate"]
            ref = list(abst(base, 0 if fi == 0 else 2 * r.randint(-3, 3)))
            head.insert(r.randrange(len(head)), dict(k="refdate", t=ref)); heads.append((head, cs))
            # epochs
            E = []; last = None
            for k in kinds:
                t = ts[i]; i += 1
                while True:
                    o = r.choice([None, 0, 0, r.randint(-3, 3)]); eff = 0 if rcv or o is None else o
                    if last is None or t - eff > last: break
                    if eff == laste: break
                last = t - eff; laste = eff
                E.append(dict(kind=k, t=t, off=o, eff=eff))
            for e in E:
                if e["kind"] != "o" and frm is None: frm = e["t"]
                if e["kind"] == "x" and to is None: to = e["t"]
            F.append((E, fac, col))
        if frm is None: frm = ts[-1] + 1 if tot else 0
        if to is None: to = ts[-1] + 1 if tot else 1
        wf, wt = window
        if any(e["kind"] == "o" for E, _, _ in F for e in E): wf = True
        if any(e["kind"] == "x" for E, _, _ in F for e in E): wt = True
        # values: block means near the polynomial
        for E, fac, col in F:
            use = [e for e in E if e["kind"] == "u"]
            for j in range(0, len(use), n):
                B = use[j:j + n]; tm = lambda e: e["t"] if tai else e["t"] - e["eff"]
                m = tm(B[0]) + tm(B[-1]); mids.append(m)
                mean = P(m) + (0 if nonoise else r.randint(-noise, noise)); d = [r.randint(-3000, 3000) for _ in B[1:]]; d.append(-sum(d))
                for e, x in zip(B, d): e["f"] = mean + x
                while any(e["f"] == 0 for e in B):                                 # zero stands for no reading
                    if len(B) == 1 or not mean:
                        for e in B: e["f"] = mean or 1
                    else:
                        d = [r.randint(-3000, 3000) for _ in B[1:]]; d.append(-sum(d))
                        for e, x in zip(B, d): e["f"] = mean + x
            for e in E:
                if e["kind"] in "ox": e["f"] = r.randint(1, 30000)
                if e["kind"] == "m" and r.random() < .3: e["n0"] = True
        ids = ["D%02d" % x for x in r.sample(range(1, 99), 5)]
        fsj, lines = [], []
        for fi, ((E, fac, col), (head, cs)) in enumerate(zip(F, heads)):
            D = []
            for e in E:
                nb = 0 if e["kind"] == "e" else r.choice([1, 1, 2, 3])
                d, s, ns = abst(base, e["t"] - e["eff"])
                ep = g.epoch(nb); ep.update(d=d, sec=s, ns=ns, offp=int(e["off"] is not None), off=(e["off"] or 0) * 500000000)
                D.append(ep)
                for b in range(nb):
                    fl = [g.field() for _ in cs]
                    if e["kind"] == "m": fl[col] = dict(s="m", h=0, l=0, a=" ", b=" ")
                    else: v = abs(e["f"]) * fac; fl[col] = dict(s="-" if e["f"] < 0 else "+", h=v // 1000, l=v % 1000, a=" ", b=r.choice(" 01"))
                    for j in range(0, len(cs), 5):
                        L = dict(k="c" if j else "b", ok=True, fs=fl[j:j + 5])
                        if not j: L["id"] = ids[b]
                        D.append(L)
            there, top = 1, True
            if spoil and fi == spoil[0]:
                k = spoil[1]
                if k == "gone": there = 0
                elif k == "top": top = False
                elif k == "noF" and len(cs) < len(rinexgen.CODES):
                    ob = [L for L in head if L["k"] == "obs"][0]; new = r.choice([x for x in rinexgen.CODES if x not in cs])
                    for L in head:
                        if L["k"] in ("obs", "sf") and L.get("cs"): L["cs"] = [new if y == "F0" else y for y in L["cs"]]
                elif k in ("head", "noF"):
                    sfs = [L for L in head if L["k"] in ("sf", "obs", "refdate")]; head = g.spoil(head)
                    if [L for L in head if L["k"] in ("sf", "obs", "refdate")] != sfs: top = False
                elif D:
                    j = r.randrange(len(D)); q = r.randrange(3)
                    if q == 0: D[j] = dict(k="junk")
                    elif q == 1: D[j] = dict(D[j], ok=False)
                    elif j + 1 < len(D) and D[j + 1]["k"] in "bc": D = D[:j + 1]                 # in the middle of a block
                    else: D = D[:j + 1] + [dict(k="junk")]
            t, ev = g.render(top, head, D); ev.pop("event"); ev["there"] = there
            fsj.append(ev)
            lines.append("W f%d.rnx -" % (fi + 1) if not there else vf.wfile("f%d.rnx" % (fi + 1), t))
        ix = list(range(1, len(files) + 1))
        # reference date of the first file listed
        origin = 0
        q = dict(ix=ix, n=n, tai=tai, order=order, lim=lim, **{"from": frm if wf else -2000000000, "to": to if wt else 2000000000}, at=mids)
        if r.random() < .05: q["to"] = q["from"] = 0; q["from"], q["to"] = 0, -r.choice([0, 2, 172800, 5 * 172800])
        js = json.dumps(q, separators=(",", ":"))[1:-1]
        qt = lambda m: txt4(base, m)
        lines.append(vf.jline("Files", fs=fsj))
        lines.append("Fit %s %d %d %d %s %s %d %s %s" % (js, order, tai, n, txt(base, q["from"]) if q["from"] > -10 ** 9 else "-", txt(base, q["to"]) if q["to"] < 10 ** 9 else "-", len(ix), " ".join("f%d.rnx" % k for k in ix), " ".join(qt(m) for m in mids)))
        return lines
    def txt4(base, m): x = base[0] * 345600 + base[1] * 4 + m; return "%d:%d:%d" % (x // 345600, x % 345600 // 4, x % 4 * 250000000)
    sc = [scenario(b["n"], b["fs"], (r.random() < .3, r.random() < .3)) for b in beh]
    for _ in range(c.pick(700, 7000)):
        nf = r.choice([1, 1, 2, 3]); n = r.choice([1, 2, 3, 4, 5, 8, 11]); p = r.choice([0, .1, .4]); left = 20 // nf
        fl = []
        for _ in range(nf): fl.append(["u" if r.random() >= p else r.choice("me") for _ in range(r.randint(0, left * n if r.random() < .2 else min(left * n, 40)))])
        if r.random() < .3 and fl[0]: k = r.randint(1, len(fl[0])); fl[0][:k] = ["o"] * k
        if r.random() < .3 and fl[-1]: k = r.randint(1, len(fl[-1])); fl[-1][-k:] = ["x"] * k
        if nf == 1 and r.random() < .02: fl = [["u"] * r.randint(20, 20 * n) ]
        sc.append(scenario(n, fl, (r.random() < .3, r.random() < .3), (r.randrange(nf), r.choice(["gone", "top", "noF", "head", "data", "data"])) if r.random() < .2 else None))
    exe = c.build("rfo", [vf.VERIF + "/harness/rfo.cpp"] + SRC, incs=INC)
    c.assumptions += ["epochs in chronological order on both time scales, on half seconds; all beacons of a block carry the block's reading", "the reference date lies near the data (conditioning of the fit)", "N at least 1"]
    c.conform("FreqOffsetTrace", exe, sc, chunk_events=80)
if __name__ == "__main__": vf.main("C25", check)
