#!/usr/bin/env python3-vt
"""check.py <property id>: analyse /repo/src for one property."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from exoscan.harness import Check  # noqa: E402
from exoscan.tensor import AbsRaise  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from exoscan import checks

    fn = checks.REGISTRY[pid]
    ck = Check(pid, tier, seed)
    try:
        fn(ck)
    except AbsRaise as e:
        ck.unknown.append(("driver", "raises %r" % (e.exc,), getattr(e, "trace", None)))
    except Exception as e:  # no verdict rather than a wrong one
        import traceback

        ck.unknown.append(("driver", repr(e), traceback.format_exc().splitlines()))
    sys.exit(ck.finish())


main()
