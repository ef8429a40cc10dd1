#!/usr/bin/env python3
# C43: script/fetch_iers_c04.py over a stand-in for the network. argv: none; VF_SCRIPT: the script
import contextlib, datetime, io, json, os, runpy, sys, types
SCRIPT = os.environ["VF_SCRIPT"]
COL = [(9973, 800000, 400000), (7919, 900000, 300000), (6007, 1600000, 800000), (5003, 6000, 3000), (4001, 5000, 2500), (3001, 900, 0), (2003, 800, 0), (1009, 700, 0), (907, 600, 0), (809, 500, 0),
       (7013, 3000000, 1500000), (6011, 30000, 0), (5009, 90000000, 0), (4003, 900, 0)]
SC = [1e4] * 10 + [1e6] * 4
class TooMany(BaseException): pass
world, seed, count, alien = {}, 0, 0, 0
def value(i, d, s): return (COL[i][0] * d + 4999 * (i + 1) * s) % COL[i][1] - COL[i][2]
def row(d, s, ks, sep=" "):
    c = datetime.date(1858, 11, 17) + datetime.timedelta(days=d)
    return "  %4d  %2d  %2d  %5d" % (c.year, c.month, c.day, d) + "".join(sep + ("%.4f" if i < 10 else "%.6f") % (value(i, d, s) / SC[i]) for i in ks)
def text(nr, a, b):
    o = ["", "                              INTERNATIONAL EARTH ROTATION AND REFERENCE SYSTEMS SERVICE (IERS)", "", "BULLETIN B %d" % nr, "", " 1 - DAILY FINAL VALUES OF  x, y, UT1-UTC, dX, dY", "     Angular unit is milliarcsecond (mas), time unit is millisecond (ms).", "", "        DATE     MJD       x        y       UT1-UTC     dX        dY       x err     y err    UT1 err   dX err    dY err",
         "     (0 h UTC)            mas      mas        ms        mas       mas       mas       mas        ms       mas       mas", "     Mean formal error                                            0.030     0.030     0.0140    0.050     0.060", ""]
    o += [row(d, seed, range(10), "   ") for d in range(a, b + 1)] + [""]
    o += [row(d, seed + 7, range(10)) for d in range(b + 1, b + 30)] + ["", " 2 - DAILY FINAL VALUES OF CELESTIAL POLE OFFSETS dPsi1980 & dEps1980", "", "     (0 h UTC)               mas       mas", ""]
    o += [row(d, seed + 3, range(2)) for d in range(a, b + 1)] + ["", " 3 - EARTH ANGULAR VELOCITY : DAILY FINAL VALUES OF LOD, OMEGA AT 0hUTC", "     LOD : Excess of the Length of day - 86400 s TAI", "     OMEGA : Earth angular velocity", "", "        DATE     MJD        LOD     sigma        OMEGA         sigma", "     (0 h UTC)              ms       ms        mas/ms          mas/ms", ""]
    o += [row(d, seed, range(10, 14), "     ") for d in range(a, b + 1)] + ["", " 4 - INFORMATION ON TIME SCALES", "", "   UTC(i)", ""]
    return "\n".join(o)
class R:
    def __init__(s, ok, t): s.ok, s.status_code, s.content, s.text, s.reason = ok, 200 if ok else 404, t.encode(), t, ""
    def raise_for_status(s):
        if not s.ok: raise OSError("404")
    def iter_content(s, *a, **k): yield s.content
def get(url, *a, **k):
    global count, alien
    count += 1
    if count > 300: raise TooMany()
    base, _, nr = url.rpartition(".")
    if base != "https://hpiers.obspm.fr/iers/bul/bulb_new/bulletinb" or not nr.lstrip("-").isdigit(): alien = 1; return R(False, "404")
    return R(True, text(int(nr), *world[int(nr)])) if int(nr) in world else R(False, "<html>404 Not Found</html>\n")
rq = types.ModuleType("requests"); rq.get = get; rq.exceptions = types.SimpleNamespace(RequestException=OSError, HTTPError=OSError)
sys.modules["requests"] = rq
def rows(t):
    o = []
    for l in t.split("\n"):
        if l.startswith("#") or not l.strip(): continue
        try:
            w = l.split(); y, m, d, j = map(int, w[:4])
            o.append([j, y * 10000 + m * 100 + d] + [round(float(x) * s) if abs(float(x) * s - round(float(x) * s)) < 1e-3 else -777777777 for x, s in zip(w[4:], SC)] + [-7] * (len(w) - 18))
        except Exception: o.append([-1])
    return o
real = sys.stdout
for line in sys.stdin:
    if line[0] == "@":
        for f in os.listdir("."): os.remove(f)
        real.write('{"event":"@","sc":%s}\n' % line[2:].strip()); real.flush(); continue
    t = line.split(maxsplit=1)
    if t[0] == "World":
        j = json.loads(t[1]); world = {b[0]: (b[1], b[2]) for b in j["b"]}; seed = j["seed"]
        real.write(json.dumps(dict(event="World", **j)) + "\n")
    elif t[0] == "Fetch": # Fetch {t, n, out: 0 standard output, 1 file}
        j = json.loads(t[1]); count = alien = 0; buf = io.StringIO(); rc = 1
        sys.argv = ["fetch_iers_c04.py", "-d", str(datetime.date(1858, 11, 17) + datetime.timedelta(days=j["t"])), "-n", str(j["n"])] + (["-o", "merged.eop"] if j["out"] else []) + (["--verbose"] if j["out"] == 2 else [])
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()): runpy.run_path(SCRIPT, run_name="__main__")
            rc = 0
        except SystemExit as e: rc = 0 if not e.code else 1
        except TooMany: rc = -1
        except Exception: rc = 1
        text_ = open("merged.eop").read() if j["out"] and os.path.exists("merged.eop") else "" if j["out"] else buf.getvalue()
        if os.path.exists("merged.eop"): os.remove("merged.eop")
        real.write(json.dumps(dict(event="Fetch", t=j["t"], n=j["n"], rc=-1 if alien else rc, rows=rows(text_) if rc == 0 else [])) + "\n")
    real.flush()
