"""Make and confirm planted changes.

usage: seed.py SPEC.py [id ...]
SPEC.py defines BUGS: a list of dicts with keys id, property, file, edits
[(old, new), ...], needs, breaks, demo (Python source).  Every change is
applied in a scratch copy of /repo, the tests run, the demonstration run with
and without; it is kept in /verif/seeded only when all of that is as required.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

REPO = "/repo"
OUT = "/verif/seeded"
SH = '''#!/bin/sh
# run with cwd at the repository
here="$(cd "$(dirname "$0")" && pwd)"
cache="$(mktemp -d)"
trap 'rm -rf "$cache"' EXIT
PYTHONPATH="$PWD/src" PYTENSOR_FLAGS="cxx=,optimizer=None,compiledir=$cache" /opt/venv/bin/python "$here/demo.py"
'''


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    for b in bugs:
        if only and b["id"] not in only:
            continue
        d = tempfile.mkdtemp(prefix="seed")
        w = d + "/repo"
        try:
            run(["git", "worktree", "prune"], REPO)
            run(["git", "clone", "-q", REPO, w], "/")
            for f in run(["git", "ls-files", "-o"], REPO).stdout.split():
                if f.endswith(".py") and "version" in f:
                    shutil.copy(REPO + "/" + f, w + "/" + f)
            for e in b["edits"]:
                f = e[2] if len(e) > 2 else b["file"]
                p = w + "/" + f
                s = open(p).read()
                if s.count(e[0]) != 1:
                    print(b["id"], "edit matches %d times: %r" % (s.count(e[0]), e[0][:60]))
                    break
                open(p, "w").write(s.replace(e[0], e[1]))
            else:
                o = d + "/out"
                os.makedirs(o)
                patch = run(["git", "diff"], w).stdout
                open(o + "/patch.diff", "w").write(patch)
                open(o + "/demo.py", "w").write(b["demo"].lstrip())
                open(o + "/demo.sh", "w").write(SH)
                os.chmod(o + "/demo.sh", 0o755)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                          open(o + "/meta.json", "w"), indent=1)
                good = run(["sh", o + "/demo.sh"], REPO)
                bad = run(["sh", o + "/demo.sh"], w)
                t = run(["bash", "-c", ". /opt/vp/env.sh; PYTHONPATH=%s/src:/opt/vp/pytest_plugins $PY -m pytest -q -x -p pytensor_cache -p no:cacheprovider -n 8 tests" % w], w)
                ok = good.returncode == 0 and bad.returncode != 0 and t.returncode == 0
                print(b["id"], b["property"], "demo clean", good.returncode, "patched", bad.returncode, "tests", t.returncode, "KEPT" if ok else "DROPPED", flush=True)
                if good.returncode:
                    print("   ", good.stdout[-600:])
                elif not bad.returncode:
                    print("   patched demo passes", bad.stdout[-200:])
                elif t.returncode:
                    print("   ", "\n".join(x for x in t.stdout.splitlines() if x.startswith(("FAILED", "ERROR", "E  ")))[:600] or t.stdout[-500:])
                if ok:
                    dst = OUT + "/" + b["id"]
                    shutil.rmtree(dst, ignore_errors=True)
                    shutil.copytree(o, dst)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
