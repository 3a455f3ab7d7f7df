"""Obligations, verdicts, reports and evidence for one property check."""

import itertools
import json
import os
import resource
import signal
import sys
import time
import traceback

import numpy as np

from . import algebra as A
from . import rint
from . import tensor as tn
from .interp import BoundMethod, Class, Func, Interp, Obj, PathLimit
from .tensor import AbsRaise, T, Unsupported

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EXOSCAN_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERBOSE = bool(os.environ.get("EXOSCAN_VERBOSE"))
UNSUP = (Unsupported, A.AlgebraLimit, PathLimit)


# seconds: one obligation, one check
LIMITS = {"quick": (240, 780), "thorough": (900, 3300)}


class Fail(Exception):
    """An obligation that does not hold."""


class TimeUp(BaseException):
    """The time of an obligation, or of the check, has run out."""


def time_up(*a):
    raise TimeUp()


class Check:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.count = 0
        self.discharged = 0
        self.violations = []
        self.known = []
        self.unknown = []
        self.names = []
        self.groups = {}
        self.functions = {}
        self.rules = []
        self.notes = []
        self.call_sites = 0
        self.partitions = 0
        self._ips = {}
        self.pending = []
        self.known_findings = load_known(pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- abstract package -------------------------------------------------
    def ip(self, backend="pymc", env=None, fresh=False):
        key = (backend, tuple(sorted((env or {}).items())))
        if fresh or key not in self._ips:
            ip = Interp(SRC, backend=backend, env=env)
            ip.import_module("exoplanet")
            if fresh:
                return ip
            self._ips[key] = ip
        return self._ips[key]

    def rule(self, text):
        self.rules.append(text)

    # -- obligations --------------------------------------------------------
    def ob(self, name, thunk, ip=None, anchor=None, group=None, limit=64):
        """State an obligation; :meth:`run` discharges them, in parallel."""
        self.pending.append((name, thunk, ip or self.ip(), anchor, group, limit, A.STRICT[0]))

    def run(self, jobs=None):
        todo, self.pending = self.pending, []
        jobs = jobs or int(os.environ.get("EXOSCAN_JOBS", 0)) or min(8, os.cpu_count() or 1)
        if jobs < 2 or len(todo) < 3:
            for x in todo:
                self.one(x)
                if self.violations and os.environ.get("EXOSCAN_STOP"):
                    sys.exit(1)  # used by the mutation survey only
            return
        import multiprocessing as mpr
        from concurrent.futures import ProcessPoolExecutor

        global _WORK
        _WORK = (self, todo)
        k = max(1, min(4, len(todo) // (4 * jobs)))
        done = 0
        try:
            with ProcessPoolExecutor(jobs, mp_context=mpr.get_context("fork"), initializer=_confine) as ex:
                for r in ex.map(_work, range(len(todo)), chunksize=k):
                    self.merge(r)
                    done += 1
        except Exception as e:  # a worker was ended
            for x in todo[done:]:
                self.count += 1
                self.unknown.append((x[0], repr(e), None))

    def one(self, x):
        name, thunk, ip, anchor, group, limit, strict = x
        A.STRICT[0] = strict
        return self.discharge(name, thunk, ip, anchor, group, limit)

    def merge(self, r):
        self.count += r["count"]
        self.discharged += r["discharged"]
        self.partitions += r["partitions"]
        self.call_sites += r["call_sites"]
        RINT[0] += r["rint"]
        self.violations += r["violations"]
        self.unknown += r["unknown"]
        self.names += r["names"]
        for n in r["notes"]:
            if n not in self.notes:
                self.notes.append(n)
        for m in r["known"]:
            k = next(z for z in self.known_findings if z["match"] == m)
            if k not in self.known:
                self.known.append(k)
        for g, (a, b) in r["groups"].items():
            gr = self.groups.setdefault(g, [0, 0])
            gr[0] += a
            gr[1] += b
        for k, v in r["functions"].items():
            self.functions.setdefault(k, v)

    def discharge(self, name, thunk, ip=None, anchor=None, group=None, limit=64):
        """Discharge one obligation.

        ``thunk`` evaluates abstractly and raises :class:`Fail` (or returns a
        string) when the obligation does not hold on a partition.
        """
        ip = ip or self.ip()
        self.count += 1
        g = group or name.split(":")[0].split(" [")[0]
        gr = self.groups.setdefault(g, [0, 0])
        gr[0] += 1
        ip.stack = []
        seen0 = ip.functions_seen
        ip.functions_seen = {}
        cs0 = ip.call_sites
        ok = True
        one, all_ = LIMITS[self.tier if self.tier in LIMITS else "quick"]
        left = min(one, self.t0 + all_ - time.time())
        if left <= 0:
            self.unknown.append((name, "no time left", None))
            return False
        signal.signal(signal.SIGALRM, time_up)
        signal.setitimer(signal.ITIMER_REAL, left)
        try:
            def run():
                try:
                    r = thunk()
                except Fail as e:
                    return ("fail", str(e))
                if isinstance(r, str):
                    return ("fail", r)
                if r is False:
                    return ("fail", "does not hold")
                return ("ok", None)

            outs = ip.explore(run, limit=limit)
            self.partitions += len(outs)
            for assumed, out, events in outs:
                if out[0] == "raise":
                    e = out[1]
                    if isinstance(e.exc, RecursionError) or isinstance(e.exc, NotImplementedError) and "exoscan" in str(e.exc):
                        raise Unsupported(str(e.exc))
                    ok = False
                    self._violate(
                        name, anchor, ip,
                        "raises %s: %s" % (type(e.exc).__name__, e.exc),
                        getattr(e, "trace", None), assumed,
                    )
                    break
                if out[1][0] == "fail":
                    ok = False
                    self._violate(name, anchor, ip, out[1][1], None, assumed)
                    break
        except TimeUp:
            ok = False
            self.unknown.append((name, "not decided in %d s" % left, None))
        except UNSUP as e:
            ok = False
            self.unknown.append((name, "%s: %s" % (type(e).__name__, e), ip.trace()))
        except Exception as e:
            ok = False
            self.unknown.append(
                (name, "%s: %s" % (type(e).__name__, e), traceback.format_exc().splitlines()[-6:])
            )
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            ip.stack = []
            for k, v in ip.functions_seen.items():
                self.functions.setdefault(k, v)
                seen0.setdefault(k, v)
            ip.functions_seen = seen0
            self.call_sites += ip.call_sites - cs0
        if VERBOSE:
            print("%6.2f s  %s %s" % (time.time() - self.t0, "ok " if ok else "NOT", name), flush=True)
        if ok:
            self.discharged += 1
            gr[1] += 1
            self.names.append(name)
        return ok

    def static(self, name, problems, anchor=None, group=None):
        """An obligation decided by a query; problems is a list of strings."""
        self.count += 1
        g = group or name
        gr = self.groups.setdefault(g, [0, 0])
        gr[0] += 1
        if problems:
            for p in problems:
                where, _, text = p.partition(" :: ") if " :: " in p else ("", "", p)
                self._violate(name, where or anchor, None, text, None, [])
            return False
        self.discharged += 1
        gr[1] += 1
        self.names.append(name)
        return True

    def _violate(self, name, anchor, ip, detail, trace, assumed):
        fp = "%s | %s" % (name, detail)
        for k in self.known_findings:
            if k["match"] in fp:
                if k not in self.known:
                    self.known.append(k)
                # a listed finding: the obligation is not counted as
                # discharged, but raises no alarm
                return
        path = []
        if ip is not None:
            for (mod, qual), line in list(ip.functions_seen.items())[:40]:
                path.append(
                    "src/%s.py:%s (%s)" % (mod_path(ip, mod), line, qual)
                )
        if anchor is None and trace:
            anchor = str(trace[-1])
        if anchor is None and path:
            anchor = path[0]
        self.violations.append({
            "obligation": name,
            "construct": locate(anchor, ip),
            "detail": detail,
            "raise_trace": [str(t) for t in (trace or [])],
            "functions_on_path": path,
            "partition": [str(a) for a in assumed][:10],
        })

    # -- verdict ----------------------------------------------------------------
    def finish(self):
        self.run()
        wall = time.time() - self.t0
        rep_dir = os.path.join(ROOT, "evidence", "reports")
        os.makedirs(rep_dir, exist_ok=True)
        rep = os.path.join(rep_dir, self.pid + ".txt")
        lines = []
        for v in self.violations:
            lines.append("VIOLATION of %s: %s" % (self.pid, v["obligation"]))
            lines.append("  construct: %s" % v["construct"])
            lines.append("  %s" % v["detail"])
            if v["partition"]:
                lines.append("  on the partition where: %s" % "; ".join(v["partition"]))
            for t in v["raise_trace"]:
                lines.append("  raised via %s" % t)
            for t in v["functions_on_path"]:
                lines.append("  path: %s" % t)
            lines.append("")
        for n, d, t in self.unknown:
            lines.append("UNDECIDED: %s\n  %s" % (n, d))
            for x in t or []:
                lines.append("    " + str(x))
        lines.append(
            "%d obligations, %d discharged, %d violated, %d undecided"
            % (self.count, self.discharged, len(self.violations), len(self.unknown))
        )
        with open(rep, "w") as f:
            f.write("\n".join(lines) + "\n")
        step = max(1, len(self.names) // 12)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "other",
            "coverage": {
                "explanation": " ".join(self.rules)
                or "Abstract interpretation of the package source.",
                "obligations": self.count,
                "discharged": self.discharged,
                "undecided": len(self.unknown),
                "undecided_obligations": ["%s: %s" % (n, d[:200]) for n, d, t in self.unknown[:20]],
                "obligation_groups": {
                    k: {"stated": v[0], "discharged": v[1]}
                    for k, v in list(self.groups.items())[:80]
                },
                "trace_partitions": self.partitions,
                "equalities_by_random_interpretation": RINT[0],
                "package_call_sites_interpreted": self.call_sites,
                "functions_analysed": sorted(
                    "%s.%s:%s" % (m, q, l) for (m, q), l in self.functions.items()
                )[:150],
                "samples": self.names[::step][:14],
                "notes": self.notes[:40],
            },
            "assumptions": [
                "real arithmetic: rounding is not modelled",
                "transfer functions of NumPy, PyTensor, PyMC, AstroPy and exoplanet_core calls are trusted",
                "the Python subset is interpreted as in CPython 3.12; anything else ends the check without a verdict",
            ],
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        print(
            "%s: %d obligations, %d discharged, %d violated, %d undecided (%.1f s)"
            % (self.pid, self.count, self.discharged, len(self.violations), len(self.unknown), wall)
        )
        if self.violations:
            for v in self.violations[:6]:
                print("  %s -- %s: %s" % (v["construct"], v["obligation"], v["detail"][:300]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            return 1
        if self.unknown:
            for n, d, t in self.unknown[:6]:
                print("  UNDECIDED %s: %s" % (n, d[:300]))
                for x in (t or [])[-4:]:
                    print("      " + str(x))
        if not self.count or 2 * len(self.unknown) > self.count:
            print("  too little analysed for a verdict")
            return 2
        return 0


_WORK = None


def _confine():
    """A worker that needs more memory than its share decides nothing."""
    lim = (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1])
    try:
        resource.setrlimit(resource.RLIMIT_AS, lim)
    except (ValueError, OSError):
        pass


def _work(i):
    ck, todo = _WORK
    ck.count = ck.discharged = ck.partitions = ck.call_sites = 0
    RINT[0] = 0
    ck.violations, ck.unknown, ck.names, ck.notes, ck.known = [], [], [], [], []
    ck.groups, ck.functions = {}, {}
    ck.one(todo[i])
    return {
        "count": ck.count, "discharged": ck.discharged, "partitions": ck.partitions,
        "call_sites": ck.call_sites, "rint": RINT[0], "violations": ck.violations,
        "unknown": ck.unknown, "names": ck.names, "notes": ck.notes,
        "known": [k["match"] for k in ck.known], "groups": ck.groups,
        "functions": ck.functions,
    }


def mod_path(ip, mod):
    m = ip.modules.get(mod)
    if m is not None and m.path:
        return os.path.relpath(m.path, SRC)[:-3]
    return mod.replace(".", "/")


def locate(anchor, ip):
    """'module:Qual.name' -> file:line of the current definition."""
    if anchor is None:
        return "?"
    if callable(anchor):
        anchor = anchor()
    if ip is not None and isinstance(anchor, str) and ":" in anchor:
        mod, _, qual = anchor.partition(":")
        m = ip.modules.get(mod if mod.startswith("exoplanet") else "exoplanet." + mod)
        if m is not None:
            line = find_def(m.tree, qual.split("."))
            return "src/%s.py:%s (%s)" % (mod_path(ip, m.name), line or "?", qual)
    return str(anchor)


def find_def(tree, parts):
    import ast

    body = tree.body
    node = None
    for p in parts:
        node = next(
            (n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p),
            None,
        )
        if node is None:
            return None
        body = node.body
    return node.lineno if node is not None else None


def load_known(pid):
    """Entries 'finding: property=<id> match=<text> :: <what>' for pid."""
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("finding: property=%s " % pid):
                continue
            rest = line.split(" ", 2)[2]
            match, _, what = rest.partition(" :: ")
            out.append({"match": match[len("match="):].strip(), "what": what.strip()})
    return out


# ---- building abstract inputs ----------------------------------------------
def arr(exprs, kind="pt", dtype="float64", axes=None):
    exprs = list(exprs)
    d = np.empty(len(exprs), dtype=object)
    d[:] = [A.ex(e) for e in exprs]
    return T(d, axes or (tn.literal_axis(len(exprs)),), kind, dtype)


def sc(e, kind="pt", dtype="float64"):
    return tn.scalar(A.ex(e), kind, dtype)


def gen(e, axis, kind="np", dtype="float64"):
    """A vector along a symbolic axis."""
    d = np.empty((1,), dtype=object)
    d[...] = A.ex(e)
    return T(d, (axis,), kind, dtype)


def gen_nd(e, axes, kind="np", dtype="float64"):
    d = np.empty(tuple(a.size for a in axes), dtype=object)
    for k in np.ndindex(*d.shape):
        d[k] = A.ex(e)
    return T(d, tuple(axes), kind, dtype)


def angle(name):
    return A.sym(name, flags=("angle",))


def as_list(x):
    return list(x.data.flat)


def show(e, n=260):
    s = str(e)
    return s if len(s) <= n else s[:n] + "..."


RINT = [0]


def eq(a, b):
    """Equality of abstract numbers: normal forms, else random interpretation."""
    if A.equal(a, b):
        return True
    r = rint.prob_equal(a, b)
    if r is None:
        raise Unsupported("values neither equal nor separable: %s / %s" % (show(a), show(b)))
    if r:
        RINT[0] += 1
    return r


def same(got, want, what="value"):
    """Equality of two abstract numbers; raises Fail."""
    got = A.ex(got)
    want = A.ex(want)
    if not eq(got, want):
        raise Fail("%s is %s, expected %s" % (what, show(got), show(want)))


def same_t(got, want, what="value", shape=True):
    """Equality of two abstract arrays, shapes included; raises Fail."""
    got = tn.lift(got)
    want = tn.lift(want)
    if shape:
        check_axes(got, want.axes, what)
    axes = tn.broadcast_axes([got.axes, want.axes])
    g = tn.expand_to(got, axes)
    w = tn.expand_to(want, axes)
    for k in np.ndindex(*g.shape):
        if not eq(g[k], w[k]):
            raise Fail(
                "%s%s is %s, expected %s"
                % (what, list(k) if g.size > 1 else "", show(g[k]), show(w[k]))
            )


def check_axes(t, axes, what="value"):
    if len(t.axes) != len(axes) or not all(
        tn.same_axis(a, b) for a, b in zip(t.axes, axes)
    ):
        raise Fail(
            "%s has shape %s, expected %s"
            % (what, list(t.axes), list(axes))
        )


def expect_raise(ip, thunk, exc, what):
    """thunk must raise exc on the abstract path."""
    try:
        r = thunk()
    except AbsRaise as e:
        if isinstance(e.exc, exc):
            return
        raise Fail(
            "%s raises %s (%s), expected %s"
            % (what, type(e.exc).__name__, e.exc, name_of(exc))
        )
    raise Fail("%s is accepted, expected %s" % (what, name_of(exc)))


def name_of(exc):
    if isinstance(exc, tuple):
        return "/".join(e.__name__ for e in exc)
    return exc.__name__


def pairwise(domains, seed=0, strength=2, keep=lambda c: True):
    """A deterministic covering array over named finite domains."""
    names = list(domains)
    full = [
        dict(zip(names, vals))
        for vals in itertools.product(*(range(len(domains[n])) for n in names))
    ]
    full = [c for c in full if keep({n: domains[n][c[n]] for n in names})]
    need = set()
    combos = list(itertools.combinations(names, strength))
    for c in full:
        for cb in combos:
            need.add(tuple((n, c[n]) for n in cb))
    out = []
    cand = list(full)
    while need:
        best, bs = None, -1
        for c in cand:
            s = sum(1 for cb in combos if tuple((n, c[n]) for n in cb) in need)
            if s > bs:
                best, bs = c, s
        out.append(best)
        for cb in combos:
            need.discard(tuple((n, best[n]) for n in cb))
    return [{n: domains[n][c[n]] for n in names} for c in out]
