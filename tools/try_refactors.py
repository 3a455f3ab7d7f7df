"""Apply behaviour-preserving edits to a copy of /repo; the checks must stay
quiet.  try_refactors.py SPEC.py [-t] [-c C01,C02] [ids...]   (-t: run tests)"""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import time

argv = sys.argv[1:]
tests = "-t" in argv
argv = [a for a in argv if a != "-t"]
only = None
if "-c" in argv:
    i = argv.index("-c")
    only = argv[i + 1].split(",")
    del argv[i:i + 2]
spec = importlib.util.spec_from_file_location("spec", argv[0])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
ids = argv[1:]
D = "/tmp/w/ref_%d" % os.getpid()
shutil.copytree("/repo", D, symlinks=True)
try:
    for name, f, edits in m.REFACTORS:
        if ids and name not in ids:
            continue
        p = os.path.join(D, f)
        s = open(p).read()
        for a, b in edits:
            # blank lines do not matter
            pat = r"\n(?:[ \t]*\n)*".join(re.escape(x) for x in a.split("\n") if x.strip()) + r"\n"
            n = re.search(pat, s)
            if not n:
                sys.exit("%s: %r not found" % (name, a[:80]))
            s = s[:n.start()] + b + s[n.end():]
        open(p, "w").write(s)
    if tests:
        env = dict(os.environ, PYTHONPATH=D + "/src", PYTENSOR_FLAGS="base_compiledir=/tmp/w/pytensor_ref")
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests", "-n0"] if False else
                           ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=D, env=env, capture_output=True, text=True)
        print("tests:", r.stdout.strip().splitlines()[-12:])
    env = dict(os.environ, EXOSCAN_REPO=D)
    checks = only or [c["property_id"] if "property_id" in c else c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
    for c in checks:
        t0 = time.time()
        r = subprocess.run(["python3-vt", "check.py", c], cwd="/verif", env=env, capture_output=True, text=True)
        last = r.stdout.strip().splitlines()[-1:] 
        print(c, "exit", r.returncode, "%.0f s" % (time.time() - t0), last, flush=True)
        if r.returncode or "0 undecided" not in r.stdout:
            shutil.copy("/verif/evidence/reports/%s.txt" % c, "/tmp/w/ref_%s.txt" % c)
            shutil.copy("/verif/evidence/%s.json" % c, "/tmp/w/ref_%s.json" % c)
finally:
    shutil.rmtree(D)
