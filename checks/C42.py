#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "/usr/include/eigen3"]
NAMES = ["data", "naif-kernels", "spk", "lsk", "gravity", "degree", "order", "model", "eop-info", "dat", "data2", "models", "file", "x"]
def S(s, i=None, m=None): return dict(t="scalar", k=[], c=[], s=s, i=[] if i is None else [i], m=[] if m is None else [m])
def N(t): return dict(t=t, k=[], c=[], s="", i=[], m=[])
def M(d): return dict(t="map", k=list(d), c=list(d.values()), s="", i=[], m=[])
def check(c):
    r = c.rng
    c.model_check("ConfigMC", subst={"Wide": c.pick("FALSE", "TRUE")}, workers=8)
    beh = c.model_check("ConfigMC", "ConfigGen.cfg", workers=8)
    def leaf():
        k = r.randrange(7); n = r.choice([0, 1, -1, r.randint(-999999, 999999), r.randint(0, 150)])
        if k < 3: return S(str(n), n, n * 1000)
        if k == 3: v = r.randint(-99999, 99999); return S("%s%d.%03d" % ("-" if v < 0 else "", abs(v) // 1000, abs(v) % 1000), None, v)
        if k == 4: return S(r.choice(["data/jason3.rnx", "a b", "yes", "x-1", "#", "/tmp/" + "d" * r.choice([3, 200, 300]), "/home/" + "e" * r.choice([60, 128, 256, 400])]))
        if k == 5: return S(r.choice(["12abc", "12 13", "1.5.2", "3,4", "7 km", "-", "+-3", "1e"]))
        return S("%de2" % (n % 100), None, (n % 100) * 100000)
    def tree(depth):
        k = r.random()
        if depth == 0 or k < 0.15: return leaf()
        if k < 0.19: return N(r.choice(["null", "seq"]))
        return M({n: tree(depth - 1) for n in r.sample(NAMES, r.randint(1, 5))})
    def enc(n):
        if n["t"] == "map": return "m %d %s" % (len(n["k"]), " ".join("x" + k.encode().hex() + " " + enc(x) for k, x in zip(n["k"], n["c"])))
        return {"null": "n", "seq": "q"}.get(n["t"]) or "s x" + n["s"].encode().hex()
    def load(n): return "Load %s %s" % (json.dumps(dict(root=n), separators=(",", ":")).replace(" ", "\\u0020")[1:-1], enc(n))
    def walk(n, p):
        for k in p: n = n["c"][n["k"].index(k)] if n["t"] == "map" and k in n["k"] else N("missing")
        return n
    def get(n, p, ty):
        if walk(n, p)["t"] == "null" and ty in ("str", "buf"): ty = "int" # (releases of the parser differ on the text of nothing)
        return "Get %s %s %s" % (json.dumps(dict(path=p, type=ty), separators=(",", ":"))[1:-1], ty, " ".join("x" + k.encode().hex() for k in p))
    def paths(n, pre=()):
        for k, x in zip(n["k"], n["c"]):
            yield pre + (k,)
            yield from paths(x, pre + (k,))
    sc = []
    for root, asks in beh if c.tier == "thorough" else r.sample(beh, min(len(beh), 4000)):
        sc.append([load(root)] + [get(root, p, "buf" if ty == "str" and r.random() < 0.5 else ty) for p, ty in asks])
    for _ in range(c.pick(700, 15000)):
        n = r.choice([lambda: M({k: tree(2) for k in r.sample(NAMES, r.randint(1, 5))})] * 9 + [lambda: tree(0), lambda: N(r.choice(["null", "seq"]))])()
        s = [load(n)]; P = list(paths(n))
        for _ in range(r.randint(4, 12)):
            p = list(r.choice(P)) if P and r.random() < 0.75 else [r.choice(NAMES) for _ in range(3)]
            while len(p) < 2: p.append(r.choice(NAMES))
            if len(p) > 3: p = p[:3]
            if r.random() < 0.15: p[r.randrange(len(p))] = r.choice(NAMES)
            if r.random() < 0.05: p = p[1:] + p[:1]
            if r.random() < 0.05: p = p[:2]
            s.append(get(n, p, r.choice(["int", "real", "str", "buf"])))
        sc.append(s)
        if r.random() < 0.1: sc[-1] += [load(M({}))] + [get(M({}), ["data", "spk"], "buf")]
    exe = c.build("config", [vf.VERIF + "/harness/config.cpp", "src/var/yaml_utils.cpp"], incs=INC, flags=("-O1", "-g1"))
    c.assumptions += ["the parser is a stand-in that gives nodes and conversions with the outcomes of yaml-cpp", "values without text: numbers only; buffers of 512 characters"]
    c.conform("ConfigTrace", exe, sc, chunk_events=2000)
if __name__ == "__main__": vf.main("C42", check)
