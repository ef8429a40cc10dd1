#!/usr/bin/env python3
# C44: site log reader and table (script/pydoris, script/ids_logs2station_info.py). VF_SCRIPTS: the script folder
import contextlib, importlib, io, json, os, runpy, shutil, signal, sys
S = os.environ["VF_SCRIPTS"]
sys.path.insert(0, os.path.join(S, "pydoris"))
import pydoris.log.ids_log_parser as P
real = sys.stdout
class Slow(BaseException): pass
def slow(*a): raise Slow()
signal.signal(signal.SIGALRM, slow)
def rows(t):
    o = []
    for l in t.split("\n"):
        if not l.strip(): continue
        try:
            i, d0, t0, d1, t1, h = l.split()
            s = lambda t: (lambda a: a[0] * 3600 + a[1] * 60 + a[2])(list(map(int, t.split(":"))))
            o.append([i, int(d0.replace("-", "")), s(t0), int(d1.replace("-", "")), s(t1), round(float(h) * 1e6)])
        except Exception: o.append(["?", 0, 0, 0, 0, 0])
    return o
def guard(f):
    signal.setitimer(signal.ITIMER_REAL, 5)
    try: return 0, f()
    except SystemExit as e: return (1 if e.code else 0), None
    except Slow: return -1, None
    except Exception: return 1, None
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
n = 0
for line in sys.stdin:
    if line[0] == "@":
        shutil.rmtree("logs", ignore_errors=True); os.mkdir("logs"); n = 0
        real.write('{"event":"@","sc":%s}\n' % line[2:].strip()); real.write('{"event":"Dir"}\n'); real.flush(); continue
    t = line.split(maxsplit=1); j = json.loads(t[1]); err = io.StringIO()
    if t[0] == "Log":
        n += 1; open("logs/" + j["name"], "w").write(j["text"])
        e = dict(event="Log", doc=j["doc"], ants=j["ants"])
    elif t[0] == "Other": open("logs/" + j["name"], "w").write(j["text"]); continue
    elif t[0] == "Parse":
        with contextlib.redirect_stderr(err): rc, v = guard(lambda: P.IdsLogFile("logs/" + j["name"]).parse_block_nr(j["nr"]))
        e = dict(event="Parse", log=j["log"], nr=j["nr"], rc=rc, parts=[[[a, b] for a, b in d.items()] for d in v or [] if d])
    elif t[0] == "Again": # several blocks through one reader
        f = P.IdsLogFile("logs/" + j["name"])
        for k in j["nrs"]:
            with contextlib.redirect_stderr(err): rc, v = guard(lambda: f.parse_block_nr(k))
            real.write(json.dumps(dict(event="Parse", log=j["log"], nr=k, rc=rc, parts=[[[a, b] for a, b in d.items()] for d in v or [] if d])) + "\n")
        real.flush(); continue
    elif t[0] == "Name":
        rc, v = guard(lambda: P.parse_first_log_line(j["line"])); e = dict(event="Name", name=j["name"], got=v if rc == 0 else "(error)")
    elif t[0] == "Dump":
        b = io.StringIO()
        with contextlib.redirect_stderr(err): rc, v = guard(lambda: P.dump_log_antenna_info("logs/" + j["name"], b))
        e = dict(event="Dump", log=j["log"], rc=rc, rows=rows(b.getvalue()))
    elif t[0] == "Table":
        b = io.StringIO(); sys.argv = ["ids_logs2station_info.py", "-l", "logs"] + (["-o", "table.txt"] if j["out"] else [])
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(b): rc, v = guard(lambda: runpy.run_path(os.path.join(S, "ids_logs2station_info.py"), run_name="__main__").get("fout"))
        if j["out"] and v is not None and not v.closed: v.close()
        s = open("table.txt").read() if j["out"] and os.path.exists("table.txt") else b.getvalue()
        l = s.split("\n"); e = dict(event="Table", rc=rc, head=int(l[0].split() == ["Site", "From", "To", "Height"]), rows=rows("\n".join(l[1:])))
    real.write(json.dumps(e) + "\n"); real.flush()
