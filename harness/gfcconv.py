#!/usr/bin/env python3
# C45: gfc_fortran2c.py, both copies. VF_ROOT: the repository
import contextlib, io, json, os, runpy, signal, sys
R = os.environ["VF_ROOT"]; S = [os.path.join(R, "script/gfc_fortran2c.py"), os.path.join(R, "var/icgem/script/gfc_fortran2c.py")]
class Slow(BaseException): pass
def slow(*a): raise Slow()
signal.signal(signal.SIGALRM, slow)
class Out(io.StringIO):
    def write(self, s):
        if self.tell() > 200000: raise Slow()
        return super().write(s)
real = sys.stdout
for line in sys.stdin:
    if line[0] == "@": real.write('{"event":"@","sc":%s}\n' % line[2:].strip()); real.flush(); continue
    t = line.split(maxsplit=1); j = json.loads(t[1])
    if t[0] == "File":
        open("model.gfc", "w").write(j["text"]); e = dict(event="File", lines=j["lines"])
    else:
        b = Out(); sys.argv = ["gfc_fortran2c.py", "model.gfc"]; rc = 0; signal.setitimer(signal.ITIMER_REAL, 4)
        try:
            with contextlib.redirect_stdout(b), contextlib.redirect_stderr(io.StringIO()): runpy.run_path(S[j["copy"]], run_name="__main__")
        except SystemExit as x: rc = 1 if x.code else 0
        except Slow: rc = -1
        except Exception: rc = 1
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
        o = [l.split() for l in b.getvalue().split("\n")] if rc == 0 else []
        e = dict(event="Convert", rc=rc, out=o[:-1] if o and not o[-1] else o)
    real.write(json.dumps(e) + "\n"); real.flush()
