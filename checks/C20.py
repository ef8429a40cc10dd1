#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, swgen
SRC = ["src/atmosphere/nrlmsise00_get_flux_data.cpp", "src/atmosphere/nrlmsise00_params.cpp", "src/var/celestrak_swdata.cpp"]
INC = [vf.VERIF + "/shim", vf.VERIF + "/lib", "src", "src/var", "src/atmosphere"]
def check(c):
    r = c.rng
    c.model_check("SwFeedMC", subst={"D": 6, "N": 6, "H": c.pick(2, 3)}, workers=8)
    beh = c.model_check("SwFeedMC", "SwFeedGen.cfg", simulate=(c.pick(1500, 9000), 60), workers=8)
    beh = r.sample(beh, min(len(beh), c.pick(1000, 12000)))
    class File:
        def __init__(s, head, lines): s.head, s.lines, s.texts, s.h = head, lines, [swgen.text(r, L) for L in lines], swgen.head(r, head)
        def add(s, L): s.lines = s.lines + [L]; s.texts.append(swgen.text(r, L))
        def write(s):
            T = [s.h] + s.texts; eol = r.random() < .6 or not T[-1]
            return [vf.wfile("sw.csv", "\n".join(T) + ("\n" if eol else "")), vf.jline("File", head=s.head, lines=s.lines)]
    def line(k, d): return swgen.day(r, d) if k == "day" else dict(k="part", d=d) if k == "part" else dict(k="bad")
    def base(): return r.choice([r.randint(36114, 36500), r.randint(50000, 61000), 60003, 58848, 58906])
    def name(): return "sw.csv" if r.random() < .97 else "./" * r.choice([1, 100, 124, 125, 130]) + r.choice(["", "/"]) + "sw.csv"
    def name_(): n = name(); return n if not n.startswith("/") else "./" + n
    def upd(d, s):                                        # slot s of day d, by any way and any second of the slot
        sec = s * 10800 + r.choice([0, 0, 10799, 10799.999, r.randrange(10800), r.random() * 10799])
        how = r.choice(["params", "params", "params", "feed", "other"]); k = r.choice([0, 0, 1, -1, 2, -3]) if how != "params" else 0
        return "Update %s %d %.9g" % (how, d - k, round(sec, 3) + k * 86400)
    sc = []
    for b in beh:
        b0 = base(); g = sum(1 for o in b["ops"] if o[0] == "G")
        L = [line(x[0], b0 + x[1]) for x in b["lines"]]; k = len(L) - g; f = File("ok", L[:k])
        out = f.write(); first = True
        for o in b["ops"]:
            if o[0] == "G": f.add(L[k]); k += 1; out += f.write()
            elif first: out.append("%s %s %d %d" % (r.choice(["New", "NewFeed"]), name_(), b0 + o[1], o[2] * 10800 + r.randrange(10800))); first = False
            else: out.append(upd(b0 + o[1], o[2]))
        sc.append(out)
    for _ in range(c.pick(700, 9000)):
        b0 = base(); n = r.choice([4, 5, 6, 9, 15]); d = b0; L = []; hole = r.choice([0, 0, 0, .1])
        for _ in range(n): d += 1 if r.random() >= hole else 2; L.append(swgen.day(r, d))
        if r.random() < .3: i = r.randrange(n); L[i] = r.choice([dict(k="part", d=L[i]["d"]), dict(k="bad")])
        f = File(r.choice(["ok"] * 20 + ["wrong"]), L); out = f.write()
        s = r.randrange(8); cur = b0 + (4 if r.random() < .8 else r.randint(1, n + 1))
        out.append("New %s %d %d" % (name_(), cur, s * 10800 + r.randrange(10800)) if r.random() < .6 else "NewFeed %s %d %d" % (name_(), cur - 1, 86400 + s * 10800))
        for _ in range(r.choice([5, 12, 30])):
            x = r.random()
            if x < .2: pass
            elif x < .6: cur, s = cur + (s + 1) // 8, (s + 1) % 8
            elif x < .7: cur += 1; s = r.randrange(8)
            elif x < .8: s = r.randrange(8)
            elif x < .85: cur -= r.choice([1, 2]); s = r.randrange(8)
            elif x < .95: cur = b0 + r.randint(2, n + 2); s = r.randrange(8)
            elif f.head == "ok": d += r.choice([1, 1, 1, 2]); f.add(line(r.choice(["day"] * 5 + ["part"]), d)); out += f.write(); cur = r.choice([cur, d])
            out.append(upd(cur, s))
        sc.append(out)
    exe = c.build("swfeed", [vf.VERIF + "/harness/swfeed.cpp"] + SRC, incs=INC)
    c.assumptions += ["dates in a file increase; files only grow", "times to the millisecond"]
    c.conform("SwFeedTrace", exe, sc, chunk_events=700)
if __name__ == "__main__": vf.main("C20", check)
