"""Common machinery: build a harness around the real sources, drive it, validate its traces with TLC.

Flow of every check
  1. TLC explores the design module (<Spec>MC.tla): invariants of the specification, and the behaviours it generates (BEH lines).
  2. The behaviours (plus seeded random ones) are turned into scenario scripts and stepped through the REAL code of /repo, built from the
     working tree into a scratch directory; the harness records one event per public call (ndjson).
  3. TLC checks that every recorded trace is a behaviour of the same specification (<Spec>Trace.tla, POSTCONDITION TraceAccepted).
A rejected trace is re-recorded and re-validated alone before it is reported.
"""
import threading
import json, os, re, shutil, subprocess, sys, tempfile, time, random, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The machinery itself failed (exit 2): no verdict."""


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        try: self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError: self.seed = 1
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        self.t0 = time.time()
        self.states = 0; self.transitions = 0; self.traces = 0; self.events = 0
        self.samples = []; self.violations = []; self.known_hit = []
        self.assumptions = []; self.extra = {}
        self.objs = {}
        self.notes = []

    @property
    def thorough(self): return self.tier == "thorough"
    def pick(self, quick, thorough): return thorough if self.thorough else quick
    def path(self, *a): return os.path.join(self.work, *a)
    def log(self, *a): print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---- building the real code -------------------------------------------------
    def build(self, name, sources, incs=(), flags=("-O1", "-g1"), libs=(), san="address"):
        """Compile and link harness + real sources; returns the executable. Sources are absolute paths (or relative to /repo)."""
        base = ["g++", "-std=c++17", "-w"] + list(flags)
        if san: base += ["-fsanitize=" + san, "-fno-omit-frame-pointer"]
        inc = []
        for i in incs: inc += ["-I", i if os.path.isabs(i) else os.path.join(REPO, i)]
        def one(src):
            p = src if os.path.isabs(src) else os.path.join(REPO, src)
            o = self.path("%s-%s.o" % (name, re.sub(r"[^A-Za-z0-9]", "_", src)))
            r = subprocess.run(base + inc + ["-c", p, "-o", o], capture_output=True, text=True, timeout=600)
            if r.returncode: raise CheckError("cannot compile %s:\n%s" % (p, r.stderr[-4000:]))
            return o
        with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, sources))
        exe = self.path(name)
        r = subprocess.run(base + objs + ["-o", exe] + list(libs), capture_output=True, text=True, timeout=600)
        if r.returncode:                # a definition may have moved to another file: offer the neighbours of the sources
            err, more = r.stderr, []
            for d in sorted({os.path.dirname(x) for x in sources if not os.path.isabs(x)}):
                for f in sorted(os.listdir(os.path.join(REPO, d))):
                    if f.endswith((".cpp", ".cc", ".c")) and os.path.join(d, f) not in sources: more.append(os.path.join(d, f))
            def maybe(src):
                try: return one(src)
                except CheckError: return None
            with cf.ThreadPoolExecutor(8) as ex: extra = [o for o in ex.map(maybe, more) if o]
            if extra:
                lib = self.path(name + "-rest.a")
                if os.path.exists(lib): os.unlink(lib)
                subprocess.run(["ar", "rcs", lib] + extra, check=True)
                r = subprocess.run(base + objs + [lib, "-o", exe] + list(libs), capture_output=True, text=True, timeout=600); err = r.stderr
            if r.returncode: raise CheckError("cannot link %s:\n%s" % (name, err[-4000:]))
        return exe

    # ---- running it -------------------------------------------------------------
    def run(self, exe, scenarios, timeout=20, cwd=None, env=None, label="h"):
        """scenarios: list of lists of command lines. Feeds '@' lines between scenarios; returns list of event lists.
        A crash or hang of the real code becomes an event {"event":"Crash"} / {"event":"Hang"} of the scenario it happened in."""
        cwd = cwd or self.path("run-" + label); os.makedirs(cwd, exist_ok=True)
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
                 UBSAN_OPTIONS="halt_on_error=1", LC_ALL="C")
        e.update(env or {})
        results = [None] * len(scenarios)
        start = 0; restarts = 0; hangs = 0
        while start < len(scenarios):
            inp = "".join("@ %d\n" % i + "".join(l + "\n" for l in scenarios[i]) for i in range(start, len(scenarios)))
            to = 0.02 * (len(scenarios) - start) + max(120, timeout)
            crashed = None; err = ""
            outf = self.path("out-%s.ndjson" % label)
            with open(outf, "wb") as fo, open(self.path("err-%s.txt" % label), "wb") as fe:
                p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=fo, stderr=fe, cwd=cwd, env=e)
                def feed():
                    try: p.stdin.write(inp.encode())
                    except OSError: pass
                    try: p.stdin.close()
                    except OSError: pass
                th = threading.Thread(target=feed, daemon=True); th.start()
                t0 = last = time.time(); size = -1
                while p.poll() is None:                     # a hang: no event for a long time, or far too long in all
                    time.sleep(0.02)
                    now = time.time(); sz = os.fstat(fo.fileno()).st_size
                    if sz != size: size, last = sz, now
                    if now - last > max(30, timeout) or now - t0 > to or sz > 1500000000:
                        p.kill(); p.wait(); crashed = "Hang"; hangs += 1
                th.join(5)
                if not crashed and p.returncode != 0: crashed = "Crash"
            cur = None
            with open(outf, "rb") as fi:
                for raw in fi:
                    line = raw.decode("latin-1").rstrip("\n")
                    if not line.startswith("{"): continue
                    try: ev = json.loads(line)
                    except ValueError: continue     # torn last line of a crashed run
                    if ev.get("event") == "@":
                        cur = ev["sc"]; results[cur] = []
                    elif cur is not None: results[cur].append(ev)
            if crashed:
                if cur is None: raise CheckError("harness failed before its first scenario: " + open(self.path("err-%s.txt" % label), errors="replace").read()[-2000:])
                err = open(self.path("err-%s.txt" % label), errors="replace").read()
                m = re.search(r"(ERROR: AddressSanitizer: [^\n]{0,120}|runtime error: [^\n]{0,120}|Assertion [^\n]{0,120}|terminate called[^\n]*)", err)
                results[cur].append({"event": crashed, "why": (m.group(1) if m else "rc=%s" % p.returncode)[:100]})
                restarts += 1
                if restarts > 40 or hangs > 2:
                    for j in range(cur + 1, len(scenarios)): results[j] = results[j] or None
                    self.notes.append("stopped after %d crashes" % restarts)
                    break
                start = cur + 1
            else:
                if cur != len(scenarios) - 1: raise CheckError("harness ended early without an error (scenario %s of %d)" % (cur, len(scenarios)))
                break
        return results

    # ---- TLC --------------------------------------------------------------------
    def _tlc(self, d, module, cfg, args=(), timeout=800, workers=1, heap="2g"):
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")): shutil.copy(os.path.join(SPEC, f), d)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", os.path.join(d, "states"), "-workers", str(workers), "-config", cfg] + list(args) + [module]
        try: r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired: raise CheckError("TLC timed out on %s/%s" % (module, cfg))
        return r.returncode, r.stdout + r.stderr

    def model_check(self, module, cfg=None, args=(), workers=4, timeout=800, simulate=None, heap="4g", count=True, subst=None):
        """Exhaustive (or simulated) run of a design module; any violation there is an error of the model. Returns the BEH records."""
        cfg = cfg or module + ".cfg"
        d = self.path("mc-" + os.path.basename(cfg).replace(".cfg", "") + ("-sim" if simulate else ""))
        a = list(args)
        if simulate: a += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        if subst:
            txt = open(os.path.join(SPEC, cfg)).read()
            for k, v in subst.items():
                txt, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % k, lambda m: m.group(1) + str(v), txt)
                if not n: raise CheckError("no constant %s in %s" % (k, cfg))
            d += "-" + "-".join(str(v) for v in subst.values()).replace("/", "").replace(" ", "")[:40]
            os.makedirs(d, exist_ok=True); cfg = "generated.cfg"
            open(os.path.join(d, cfg), "w").write(txt)
        if simulate:      # only generate behaviours; the invariants were checked in the exhaustive run
            os.makedirs(d, exist_ok=True)
            src = os.path.join(d, cfg) if subst else os.path.join(SPEC, cfg)
            txt = re.sub(r"(?m)^(INVARIANTS?|PROPERTY|PROPERTIES|VIEW)\b.*\n", "", open(src).read()) + "\nINVARIANT EmitBeh\n"
            cfg = "generated.cfg"; open(os.path.join(d, cfg), "w").write(txt)
        rc, out = self._tlc(d, module, cfg, a, timeout=timeout, workers=1 if simulate else workers, heap=heap)
        if rc != 0 or "Error:" in out: raise CheckError("model %s/%s failed (rc %d):\n%s" % (module, cfg, rc, out[-3000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m and count: self.states += int(m.group(2)); self.transitions += int(m.group(1))
        elif simulate and count:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m: self.transitions += int(m[-1]); self.states += int(m[-1])
        beh = []
        for line in out.splitlines():
            if line.startswith('"BEH '):
                beh.append(json.loads(json.loads(line)[4:]))
        shutil.rmtree(d, ignore_errors=True)
        self.log("model %s: %s distinct states, %d behaviours emitted" % (cfg, m.group(2) if m and not isinstance(m, list) else "-", len(beh)))
        return beh

    def _validate_chunk(self, module, chunk, tag, tsubst=None):
        d = self.path("tr-" + tag); os.makedirs(d, exist_ok=True)
        n = 0
        with open(os.path.join(d, "trace.ndjson"), "w") as f:
            for _, evs in chunk:
                for ev in evs: f.write(json.dumps(ev) + "\n"); n += 1
        cfg = module + ".cfg"
        if tsubst:
            txt = open(os.path.join(SPEC, cfg)).read()
            for k, v in tsubst.items(): txt = re.sub(r"(?m)^(\s*%s\s*=\s*).*$" % k, lambda m: m.group(1) + str(v), txt)
            cfg = "generated.cfg"; open(os.path.join(d, cfg), "w").write(txt)
        rc, out = self._tlc(d, module, cfg, timeout=800)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        st = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        acc = re.search(r'<<"TRACE", (\d+), (\d+)>>', out)
        shutil.rmtree(d, ignore_errors=True)
        if acc and int(acc.group(1)) == int(acc.group(2)) == n and "Error:" not in out: return None, st, n, out
        if acc and int(acc.group(1)) < n and "evaluating" not in out: return int(acc.group(1)), st, n, out
        mm = re.search(r"Invariant (\w+) is violated", out)
        if mm: return -1, st, n, out
        # an event the specification cannot even interpret (a value outside every type it knows) is an unexplained event
        ls = re.findall(r"(?m)^/\\ l = (\d+)", out)
        if "evaluating" in out and ls and not os.environ.get("VF_STRICT"): return int(ls[-1]) - 1, st, n, out
        raise CheckError("trace validation with %s broke (rc %d):\n%s" % (module, rc, "\n".join(re.findall(r"(?m)^(?:Error:|: |The exception|line ).*", out)[:8]) + out[-700:]))

    def validate(self, module, scenarios, traces, rerun, chunk_events=6000, par=6, label="", tsubst=None):
        """Check every recorded trace. rerun(a, b) -> scenarios a..b recorded afresh in one process, the events of b (for confirmation)."""
        items = [(i, t) for i, t in enumerate(traces) if t is not None]
        chunks = []; cur = []; n = 0
        for it in items:
            cur.append(it); n += len(it[1])
            if n >= chunk_events: chunks.append(cur); cur = []; n = 0
        if cur: chunks.append(cur)
        def work(chunk, tag):
            """(scenario rejected first or None, what follows it in the chunk)"""
            pos, st, n, out = self._validate_chunk(module, chunk, tag, tsubst)
            if pos is None: return None, [], st, n, len(chunk)
            k = 0; c = 0                   # scenario that contains event number pos (0-based: the first unmatched)
            if pos >= 0:
                for k, (_, evs) in enumerate(chunk):
                    if c + len(evs) > pos: break
                    c += len(evs)
            return chunk[k][0], chunk[k + 1:], st, n, k
        def confirm(i):
            """recorded again: alone, then after the scenarios that went before it in the same process"""
            for back in (0, 1, 8, 64, i):
                if back > i: break
                evs = rerun(i - back, i)
                if evs is None: continue
                pos, st, n, out = self._validate_chunk(module, [(i, evs)], "%sre%d-%d" % (label, i, back), tsubst)
                if pos is not None: return back, pos, evs
            return None
        out_v = []
        for rnd in range(6):
            with cf.ThreadPoolExecutor(par) as ex:
                res = list(ex.map(work, chunks, ["%s%d-%d" % (label, rnd, ci) for ci in range(len(chunks))]))
            rest = []
            for i, tail, st, n, nc in res:
                self.transitions += st[0]; self.states += st[1]; self.events += n; self.traces += nc
                if i is None: continue
                if len(out_v) >= 3: continue
                v = confirm(i)
                if v: out_v.append((i, v))
                else:
                    self.notes.append("scenario %d rejected once but accepted when re-recorded" % i)
                    if os.environ.get("VF_STRICT"): raise CheckError("scenario %d: rejected after others, accepted alone" % i)
                    if tail: rest.append(tail)
            if out_v or not rest: break
            chunks = rest
        for (i, (back, pos, evs2)) in out_v: self.report(module, sum((scenarios[j] + ["@ next"] for j in range(i - back, i)), []) + scenarios[i], evs2, pos, label)
        return out_v

    def report(self, module, scenario, events, pos, label=""):
        rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, "%s-%s%d.json" % (self.pid, label, len(self.violations)))
        first = events[pos] if 0 <= pos < len(events) else None
        with open(p, "w") as f:
            json.dump({"property": self.pid, "spec": module, "scenario": scenario, "trace": events, "first_unexplained_event": pos,
                       "event": first, "how": "feed the scenario lines to the harness of this check (see DESIGN.md); the specification has no step that explains the event at this position"}, f, indent=1)
        self.violations.append(p)
        self.log("rejected by %s at event %s: %s" % (module, pos, json.dumps(first)[:600]))

    # ---- one-stop conformance ---------------------------------------------------
    def conform(self, module, exe, scenarios, timeout=20, env=None, label="", chunk_events=6000, maxviol=1, post=None, tsubst=None):
        def rec(scs, lab):
            ev = self.run(exe, scs, timeout=timeout, env=env, label=lab)
            return [post(s, e) if (post and e is not None) else e for s, e in zip(scs, ev)]
        traces = rec(scenarios, "c" + label)
        missing = sum(1 for t in traces if t is None)
        if missing: self.notes.append("%d scenarios not run" % missing)
        if traces and len(self.samples) < 4:
            k = self.rng.randrange(len(traces))
            if traces[k]: self.samples.append({"spec": module, "scenario": scenarios[k][:12], "trace": traces[k][:8]})
        v = self.validate(module, scenarios, traces, lambda a, b: rec(scenarios[a:b + 1], "re" + label)[-1], chunk_events=chunk_events, label=label, tsubst=tsubst)
        if not v: self.corrupt(module, traces, label, tsubst)
        self.log("%s%s: %d scenarios, %d events, %d rejected" % (module, label, len(scenarios), sum(len(t) for t in traces if t), len(v)))
        return v

    def corrupt(self, module, traces, label, tsubst):
        """Non-vacuity: recorded traces with one value changed must be rejected (counted, not asserted: a few fields are free)."""
        r = random.Random("%s/%s/%d" % (self.pid, label, self.seed))
        ok = [t for t in traces if t and len(t) < 400]
        if not ok: return
        jobs = []
        for k in range(self.pick(6, 24)):
            t = json.loads(json.dumps(r.choice(ok)))
            cand = []
            def walk(o, path):
                for f, x in (o.items() if isinstance(o, dict) else enumerate(o)):
                    if f == "event": continue
                    if isinstance(x, (dict, list)): walk(x, path + (f,))
                    elif isinstance(x, int): cand.append((o, f, path + (f,)))
            walk(t, ())
            if not cand: continue
            names = sorted({tuple(q for q in p if isinstance(q, str)) for _, _, p in cand})
            nm = r.choice(names)
            o, f, p = r.choice([x for x in cand if tuple(q for q in x[2] if isinstance(q, str)) == nm])
            o[f] = (1 - o[f]) if o[f] in (0, 1) else o[f] + r.choice((1, -1, 3))
            jobs.append((k, t, t[p[0]]["event"] + "." + ".".join(nm)))
        def one(j):
            try: return j[2], self._validate_chunk(module, [(0, j[1])], "%scor%d" % (label, j[0]), tsubst)[0] is not None
            except CheckError: return j[2], True
        with cf.ThreadPoolExecutor(6) as ex: res = list(ex.map(one, jobs))
        d = self.extra.setdefault("corruption_selftest", {"tried": 0, "rejected": 0, "accepted_fields": []})
        d["tried"] += len(res); d["rejected"] += sum(1 for _, b in res if b)
        d["accepted_fields"] = sorted(set(d["accepted_fields"]) | {n for n, b in res if not b})

    # ---- known findings ---------------------------------------------------------
    def known(self):
        out = []
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith("{"):
                    r = json.loads(line)
                    if r["property"] == self.pid: out.append(r)
        return out

    def check_known(self, module, exe, timeout=20, env=None, post=None, kind=None, tsubst=None):
        """Each listed finding has its own scenario, kept out of the generated ones; if the real code still fails it, say so."""
        for r in self.known():
            if r.get("kind") != kind: continue
            ev = self.run(exe, [r["scenario"]], timeout=timeout, env=env, label="known")
            if post: ev = [post(r["scenario"], ev[0])]
            pos, st, n, out = self._validate_chunk(module, [(0, ev[0])], "known", tsubst)
            if pos is not None: self.known_hit.append(r["what"])
            else: self.notes.append("known finding no longer fails: " + r["what"])

    # ---- end --------------------------------------------------------------------
    def finish(self, level="model_checking", exhaustive=None):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "samples": self.samples or ["none"]}
        if self.notes: cov["notes"] = self.notes
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations), "assumptions": self.assumptions}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k in self.known_hit: print("KNOWN-FINDING: property=%s %s" % (self.pid, k), flush=True)
        for v in self.violations: print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(v, VERIF)), flush=True)
        if not self.violations and self.traces == 0: raise CheckError("nothing was validated")
        return 1 if self.violations else 0


def main(pid, fn):
    c = Ctx(pid)
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print("CHECK ERROR %s: %s" % (pid, e), file=sys.stderr, flush=True); rc = 2
        if c.violations:      # something was already confirmed
            for v in c.violations: print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(v, VERIF)), flush=True)
            rc = 1
    finally:
        if os.environ.get("VF_KEEP") != "1": shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)


def beh_to_lines(beh, fmt=None):
    """Default rendering of a TLC behaviour (list of records with 'op' and named arguments in 'a') as command lines."""
    return [" ".join([r["op"]] + [str(x) for x in r.get("a", [])]) for r in beh]


def jline(event, **kw):
    """A scenario line the harness echoes as an event of the trace (what the script did outside the code, e.g. the file it wrote)."""
    return "E " + json.dumps(dict(event=event, **kw), separators=(",", ":"))
def wfile(name, text):
    """A scenario line that makes the harness write a file (None: remove it)."""
    return "W %s %s" % (name, "-" if text is None else text.encode("latin-1").hex())
def tset(xs): return "{" + ", ".join(str(x) for x in xs) + "}"
