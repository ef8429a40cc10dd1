#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

def render(r, beh):
    """A TLC history with its abstract responses made concrete (framing, place of the cut, pieces, codes)."""
    out = []
    for h in beh:
        if h["op"] == "Put": out.append("Put %s %d" % (h["t"], h["b"])); continue
        if h["op"] == "Lock": out.append("Lock %s" % h["t"]); continue
        q = h["r"]; conn = q["conn"]; code = q["code"]; cut = 0; fr = "length"; body = q["body"]; var = r.randint(0, 7)
        if conn == "refused" and r.random() < .3: conn = "badurl"
        if conn == "ok":
            fr = r.choice(("length", "chunked", "close"))
            if code == 200:
                if body > 0: body = body + 2 * r.randint(0, 17) if body + 34 < 40 else body
                code = r.choice((200, 200, 200, 201, 203, 226))
            elif code == 404: code = r.choice((400, 401, 403, 404, 404, 407, 410, 416, 429, 500, 502, 503, 599))
            else: code = r.choice((301, 302, 303, 307, 308)) if q["to"] >= 0 else r.choice((300, 301, 302, 303, 305, 307))
            if not q["whole"]:
                cut = r.choice((1, 2, 3, 4)); cut += r.choice((0, 10)) if cut > 1 else 10   # libcurl takes an orderly end inside the headers for an empty body
                if fr == "close" and cut != 11: cut = 13 if r.random() < .5 else cut; fr = fr if cut >= 10 else "length"
                if fr == "length" and body == 0: cut = 11
        room = 1
        if not q["room"]: room = 0
        out.append("Get %s %d %s %d %s %d %d %d %d %d" % (h["t"], h["force"] if h["force"] else r.choice((0, -1)), conn, code, fr, cut, body, q["to"], var, room))
    return out

def seeded(r):
    """A longer history over three ordinary targets, a directory and an impossible place."""
    out = []; locked = set(); have = {}
    for _ in range(r.randint(3, 8)):
        t = r.choice("aaabbcdn"); x = r.random()
        if x < .15 and t in "abc" and t not in locked: b = r.randint(0, 39); out.append("Put %s %d" % (t, b)); have[t] = 1; continue
        if x < .2 and t in have and t not in locked:
            out += ["Put %s %d" % (t, r.randint(0, 39)), "Lock %s" % t]; locked.add(t); continue
        kind = r.random(); b = r.randint(0, 39)
        q = dict(conn="ok", code=200, whole=True, body=b, to=-9, room=True)
        if kind < .45: pass
        elif kind < .6: q["whole"] = False; q["body"] = r.randint(1, 39)
        elif kind < .7: q["room"] = False; q["body"] = r.randint(1, 39)
        elif kind < .8: q["code"] = 404
        elif kind < .88: q["code"] = 302; q["to"] = r.choice((-9, r.randint(0, 39)))
        else: q["conn"] = r.choice(("refused", "mute", "junk")); q["code"] = 0; q["whole"] = False; q["body"] = 0
        if t in "abc": have[t] = 1
        out += render(r, [dict(op="Get", t=t, force=r.random() < .5, r=q)])
        if t in "abc" and t not in locked: have.pop(t, None)
    return out

def check(c):
    c.model_check("DownloadMC", workers=8, subst={"MaxCalls": c.pick(3, 4)})
    r = c.rng
    beh = c.model_check("DownloadMC", "DownloadGen.cfg", workers=4, subst={"MaxCalls": 2})
    beh = r.sample(beh, min(len(beh), c.pick(600, 3000)))
    sim = c.model_check("DownloadMC", "DownloadGen.cfg", simulate=(c.pick(150, 1500), 40), subst={"MaxCalls": 6, "Targets": '{"a", "b", "d", "n"}'})
    beh += r.sample(sim, min(len(sim), c.pick(400, 6000)))
    sc = [render(r, b) for b in beh] + [seeded(r) for _ in range(c.pick(200, 2500))]
    sc = [s for s in sc if s]
    c.assumptions += ["transport outcomes are produced by a scripted HTTP/1.1 server on the loopback interface", "a body whose end is marked by the closing of the connection counts as whole when the connection is closed in order"]
    exe = c.build("download", [vf.VERIF + "/harness/download.cpp", "src/web/http_get.cpp"], incs=[vf.VERIF + "/lib", "src"], libs=["-lcurl", "-lpthread"])
    c.conform("DownloadTrace", exe, sc, timeout=60)
    c.check_known("DownloadTrace", exe)
vf.main("C11", check)
