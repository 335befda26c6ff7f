#!/usr/bin/env python3
"""Nothing is built ahead: every check compiles what it needs from /repo. This only looks
whether the tools are there and the specifications parse."""
import os, subprocess, sys, glob, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "lib"))
sys.dont_write_bytecode = True
import vt
for t in ("java", "g++-10"):
    if not shutil.which(t):
        sys.exit("missing " + t)


def parse(p):
    d = tempfile.mkdtemp(prefix="vt-sany-")
    r = subprocess.run(["java", "-XX:+UseSerialGC", "-Xmx400m", "-DTLA-Library=" + vt.SPECS, "-cp", vt.CP, "tla2sany.SANY", p], capture_output=True, text=True, cwd=d)
    shutil.rmtree(d)
    return p, r


bad = 0
with ThreadPoolExecutor(6) as ex:
    for p, r in ex.map(parse, sorted(glob.glob(vt.SPECS + "/*.tla"))):
        if r.returncode or "Semantic errors" in r.stdout or "*** Errors" in r.stdout or "Fatal" in r.stdout:
            print(p, r.stdout[-1500:], r.stderr[-500:])
            bad = 1
print("setup", "failed" if bad else "ok")
sys.exit(bad)
