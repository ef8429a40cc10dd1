#!/usr/bin/env python3
"""Nothing is prebuilt (each check compiles what it needs from /repo); this only verifies that the tools are there and every module parses."""
import glob, os, subprocess, sys, tempfile, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
d = tempfile.mkdtemp()
try:
    for f in glob.glob(os.path.join(V, "spec", "*.tla")): shutil.copy(f, d)
    def sany(m):
        r = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", CP, "tla2sany.SANY", m], cwd=d, capture_output=True, text=True)
        return m, r.returncode, r.stdout
    bad = 0
    with cf.ThreadPoolExecutor(6) as ex:
        for m, rc, out in ex.map(sany, sorted(os.path.basename(f) for f in glob.glob(d + "/*.tla"))):
            if rc: bad = 1; print("does not parse:", m, out[-1500:])
    subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
    print("ok" if not bad else "FAILED"); sys.exit(bad)
finally: shutil.rmtree(d, ignore_errors=True)
