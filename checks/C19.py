#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, swgen
SRC = ["src/var/celestrak_swdata.cpp"]
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "src/var"]
def check(c):
    r = c.rng
    c.model_check("SwDataMC", subst={"D": c.pick(4, 5), "N": c.pick(3, 4), "H": 2}, workers=8)
    beh = c.model_check("SwDataMC", "SwDataGen.cfg", simulate=(c.pick(300, 3000), 40), workers=8)
    beh = r.sample(beh, min(len(beh), c.pick(1200, 15000)))
    class File:
        def __init__(s, head, lines):
            s.head, s.lines, s.texts, s.h = head, lines, [swgen.text(r, L) for L in lines], swgen.head(r, "ok" if head == "none" else head)
        def add(s, L): s.lines = s.lines + [L]; s.texts.append(swgen.text(r, L))
        def write(s, name):
            if s.head == "none": return ["W %s -" % name, vf.jline("File", head="none", lines=[])]
            T = ([] if s.head == "wrong" and r.random() < .3 and s.lines else [s.h]) + s.texts
            eol = r.random() < .6 or not T[-1]
            return [vf.wfile(name, "\n".join(T) + ("\n" if eol else "")), vf.jline("File", head=s.head, lines=s.lines)]
    def line(k, d): return swgen.day(r, d) if k == "day" else dict(k="part", d=d) if k == "part" else dict(k="bad")
    sc = []
    def base(): return r.choice([r.randint(36114, 36500), r.randint(50000, 61000), 60003, 58848])  # across year ends and leap days too
    for b in beh:
        b0 = base()
        grown = sum(1 for o in b["ops"] if o[0] == "G")
        L = [line(x[0], b0 + x[1]) for x in b["lines"]]
        f = File(b["head"], L[:len(L) - grown]); k = len(L) - grown
        out = ["New sw.csv 4"] + f.write("sw.csv")
        for o in b["ops"]:
            if o[0] == "G": f.add(L[k]); k += 1; out += f.write("sw.csv")
            elif o[0] == "R": out.append("Read %d %d %d" % (b0 + o[1], o[2], o[3]))
            else: out.append("Next %d %d" % (b0 + o[1], o[2]))
        sc.append(out)
    for _ in range(c.pick(500, 6000)):
        b0 = base(); n = r.choice([1, 2, 5, 12, 30]); d = b0; L = []
        hole = r.choice([0, 0, .1])
        for _ in range(n):
            d += 1 if r.random() >= hole else r.randint(2, 4)
            L.append(swgen.day(r, d))
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            i = r.randrange(len(L)); L[i] = dict(k="part", d=L[i]["d"]) if L[i]["k"] != "bad" and r.random() < .6 else dict(k="bad")
        if r.random() < .2: L.insert(r.randint(0, len(L)), dict(k="bad"))
        f = File(r.choice(["ok"] * 15 + ["wrong", "none"]), L)
        size = r.choice([1, 2, 4, 6]); out = ["New sw.csv %d" % size] + f.write("sw.csv"); cur = None
        for _ in range(r.choice([4, 10, 25])):
            x = r.random()
            if x < .55 and cur: cur += 1; out.append("Next %d %d" % (cur, r.choice([size, size, size, r.randint(1, size)])))
            elif x < .6: out.append("Next %d %d" % (b0 + r.randint(0, n + 1), size))
            elif x < .65 and f.head == "ok": d += r.choice([1, 1, 1, 2]); f.add(line(r.choice(["day"] * 6 + ["part", "bad"]), d)); out += f.write("sw.csv")
            else:
                cur = b0 + r.choice([1, 2, n, n - 1, n + 1, r.randint(0, n + 2), r.randint(0, n + 2), -100, 4000]); a = r.randint(0, min(2, size - 1)); b = r.randint(0, size - 1 - a)
                out.append("Read %d %d %d" % (cur, b, a)); cur += a
        sc.append(out)
    exe = c.build("swdata", [vf.VERIF + "/harness/swdata.cpp"] + SRC, incs=INC)
    c.assumptions += ["dates in a file increase (days may be missing), as in the published files", "files grow at their end between calls or stay as they are"]
    c.conform("SwDataTrace", exe, sc, chunk_events=700)
if __name__ == "__main__": vf.main("C19", check)
