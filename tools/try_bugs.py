"""Run the checks on every planted change (in scratch copies): try_bugs.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile, time

OUT = "/verif/seeded"
only = sys.argv[1:]
for b in sorted(os.listdir(OUT)):
    if only and b not in only:
        continue
    meta = json.load(open("%s/%s/meta.json" % (OUT, b)))
    d = tempfile.mkdtemp(prefix="try")
    w = d + "/repo"
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        r = subprocess.run(["git", "apply", "%s/%s/patch.diff" % (OUT, b)], cwd=w)
        if r.returncode:
            print(b, "DOES NOT APPLY")
            continue
        t0 = time.time()
        p = subprocess.run(["python3-vt", "/verif/check.py", meta["property"]], cwd="/verif", stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, env=dict(os.environ, EXOSCAN_REPO=w))
        caught = p.returncode == 1 and ("VIOLATION property=%s " % meta["property"]) in p.stdout
        print("%-28s %s %-6s %5.1f s  %s" % (b, meta["property"], "caught" if caught else "MISSED", time.time() - t0, p.stdout.splitlines()[0][:90] if p.stdout else ""), flush=True)
        if not caught:
            print("    " + p.stdout[-400:].replace("\n", "\n    "))
    finally:
        shutil.rmtree(d, ignore_errors=True)
