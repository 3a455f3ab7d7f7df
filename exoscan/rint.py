"""Random interpretation of abstract numbers.

Used only when two normal forms are not syntactically equal: both are
evaluated (as abstract values, not as program runs) on random affine points of
their input atoms with 50 digits, opaque operations being uninterpreted
functions of their arguments' values (Gulwani & Necula's random interpretation
for global value numbering).  Agreement on all points means equality with
overwhelming probability; a disagreement is a certificate of inequality.
"""

import hashlib
import random

import mpmath as mp

from . import algebra as A

mp.mp.dps = 75


TINY = mp.mpf(10) ** -40


class Invalid(Exception):
    pass


def _opaque(name, vals):
    h = hashlib.sha256()
    h.update(name.encode())
    for v in vals:
        if isinstance(v, mp.mpf) and abs(v) < TINY:
            v = mp.mpf(0)
        h.update(mp.nstr(v, 25).encode() if isinstance(v, (mp.mpf, mp.mpc)) else repr(v).encode())
        h.update(b"|")
    r = random.Random(h.hexdigest())
    return mp.mpf(r.uniform(0.05, 0.95))


def _kepler(M, e):
    M = mp.fmod(M, 2 * mp.pi)
    E = M + e * mp.sin(M)
    for _ in range(300):
        d = (E - e * mp.sin(E) - M) / (1 - e * mp.cos(E))
        E -= d
        if abs(d) < mp.mpf(10) ** -70:
            break
    else:
        raise Invalid()
    d = 1 - e * mp.cos(E)
    return mp.sqrt(1 - e * e) * mp.sin(E) / d, (mp.cos(E) - e) / d


# functions with values of their own; all others are uninterpreted
NUMERIC = {"let", "gt", "eq0", "keps", "kepc", "log", "arccos", "arcsin", "arctan2", "sin", "cos", "exp", "abs",
           "floor", "arctan", "contact_flag", "contact_left", "contact_right"}


class Env:
    def __init__(self, seed, scale=1):
        self.seed = seed
        self.scale = scale
        self.vals = {}
        self.memo = {}
        self.ememo = {}

    def sym(self, at):
        v = self.vals.get(at.name)
        if v is not None:
            return v
        if at.name == "pi":
            v = mp.pi + 0
        elif at.name in ("inf", "nan"):
            raise Invalid()
        else:
            r = random.Random("%s/%s" % (self.seed, at.name))
            lo, hi = at.lo, at.hi
            if "bool" in at.flags:
                v = mp.mpf(r.randint(0, 1))
            elif "int" in at.flags:
                a = int(lo) if lo is not None else -5
                b = int(hi) if hi is not None else a + 7
                v = mp.mpf(r.randint(a, b))
            else:
                if lo is not None and hi is not None:
                    a, b = mp.mpf(lo.numerator) / lo.denominator, mp.mpf(hi.numerator) / hi.denominator
                elif lo is not None:
                    a = mp.mpf(lo.numerator) / lo.denominator
                    b = a + r.choice([1, 2, 5]) * self.scale
                elif hi is not None:
                    b = mp.mpf(hi.numerator) / hi.denominator
                    a = b - r.choice([1, 2, 5]) * self.scale
                else:
                    b = mp.mpf(r.choice([1, 3, 6])) * self.scale
                    a = -b
                v = a + (b - a) * mp.mpf(r.randint(10**14, 10**15 - 10**14)) / 10**15
        self.vals[at.name] = v
        return v

    def atom(self, aid):
        v = self.memo.get(aid)
        if v is None:
            v = self._atom(A.ATOMS[aid])
            self.memo[aid] = v
        return v

    def _atom(self, at):
        if at.kind == "sym":
            return self.sym(at)
        if at.kind == "prime":
            return mp.mpf(at.name)
        if at.kind == "base":
            return self.expr(at.poly)
        n = at.name
        if n not in NUMERIC:
            a = [self.argument(z) if isinstance(z, A.Expr) else z for z in at.args]
        else:
            a = [self.expr(z) if isinstance(z, A.Expr) else z for z in at.args]
        if n == "let":
            return a[0]
        if any(isinstance(z, mp.mpc) for z in a):
            raise Invalid()
        if n == "gt":
            return mp.mpf(1 if a[0] > TINY else 0)
        if n == "eq0":
            return mp.mpf(1 if abs(a[0]) <= TINY else 0)
        if n in ("keps", "kepc"):
            if not 0 <= a[1] < 1:
                raise Invalid()
            s, c = _kepler(a[0], a[1])
            return s if n == "keps" else c
        if n == "log":
            if a[0] <= 0:
                raise Invalid()
            return mp.log(a[0])
        if n in ("arccos", "arcsin"):
            if abs(a[0]) > 1 + TINY:
                raise Invalid()
            a[0] = max(mp.mpf(-1), min(mp.mpf(1), a[0]))
            return mp.acos(a[0]) if n == "arccos" else mp.asin(a[0])
        if n == "arctan2":
            return mp.atan2(a[0], a[1])
        f = {"sin": mp.sin, "cos": mp.cos, "exp": mp.exp, "abs": abs,
             "floor": lambda z: mp.floor(z + TINY), "arctan": mp.atan}.get(n)
        if f is not None:
            return f(a[0])
        if n == "contact_flag":
            # an error code: mostly zero, so that both outcomes are sampled
            return mp.mpf(1 if _opaque(n, a) > 0.65 else 0)
        if n in ("contact_left", "contact_right") and all(isinstance(v, mp.mpf) for v in a[:4]):
            # contacts: anywhere, or next to the transit's own mean anomaly
            v = _opaque(n, a)
            if _opaque("contact_near", a) > 0.3 and 0 <= a[1] < 1:
                E = 2 * mp.atan2(mp.sqrt(1 - a[1]) * a[2], mp.sqrt(1 + a[1]) * (1 + a[3]))
                v = E - a[1] * mp.sin(E) + (-v if n == "contact_left" else v) / 4
            return v
        return _opaque(n, a)

    def argument(self, x):
        """A value of an opaque function's argument, infinities included."""
        if len(x.d) == 1:
            (m, c), = x.d.items()
            if len(m) == 1 and A.ATOMS[m[0][0]] is A.ATOMS[list(A.INF.d)[0][0][0]] and m[0][1] == 1:
                return "inf" if c > 0 else "-inf"
        return self.expr(x)

    def expr(self, x):
        k = id(x)
        hit = self.ememo.get(k)
        if hit is not None and hit[0] is x:
            self.mag = hit[2]
            return hit[1]
        tot, mag = self.value(x)
        self.mag = mag
        self.ememo[k] = (x, tot, mag)
        return tot

    def value(self, x):
        tot = mp.mpf(0)
        mag = mp.mpf(0)
        for m, c in x.d.items():
            v = mp.mpf(c.numerator) / c.denominator
            for a, e in m:
                b = self.atom(a)
                if b == 0 and e < 0:
                    raise Invalid()
                if e.denominator != 1:
                    if isinstance(b, mp.mpc) or b < 0:
                        raise Invalid()
                    v *= mp.power(b, mp.mpf(e.numerator) / e.denominator)
                else:
                    v *= b ** int(e)
                if v == 0:
                    break
            tot += v
            mag += abs(v)
        return tot, mag


BASE = [None]


class Near(Env):
    """Points near a base point (inside its partition)."""

    def __init__(self, base, seed):
        super().__init__(seed)
        self.base = base

    def sym(self, at):
        v = self.vals.get(at.name)
        if v is None:
            v = self.base.sym(at)
            if at.name != "pi" and "int" not in at.flags and "bool" not in at.flags:
                r = random.Random("%s/%s" % (self.seed, at.name))
                v = v * (1 + mp.mpf(r.randint(-10**12, 10**12)) / 10**17)
            self.vals[at.name] = v
        return v


# ranges of the sample points that select partitions: ordinary systems
ORDINARY = {
    "P": (2, 9), "Q": (2, 9), "ms": ("0.7", "1.5"), "rs": ("0.7", "1.4"), "mp": ("0.001", "0.2"),
    "e": ("0.05", "0.5"), "b": ("0.05", "0.7"), "a": (6, 15), "rho": ("0.7", "2"),
    "t0_": (-3, 3), "tp": (-3, 3), "inc": ("1.35", "1.55"), "plx": ("0.5", "2"),
    "k": ("0.05", "0.15"), "r": ("0.05", "0.15"), "tau": ("0.05", "0.2"),
    "T": (-3, 3), "texp": ("0.01", "0.05"), "t": (-6, 6), "K": (1, 20), "dlp": ("-0.02", "0.02"),
}


def stem(name):
    return name.rstrip("0123456789") if name not in ORDINARY else name


class Ordinary(Env):
    def sym(self, at):
        v = self.vals.get(at.name)
        if v is None:
            if "[" in at.name:
                from .models import NOMINAL

                v = NOMINAL.get(at.name)
                if v is not None:
                    v = self.vals[at.name] = mp.mpf(repr(v))
                    return v
            rg = ORDINARY.get(stem(at.name))
            if rg is None:
                return super().sym(at)
            r = random.Random("%s/%s" % (self.seed, at.name))
            lo, hi = mp.mpf(rg[0]), mp.mpf(rg[1])
            v = self.vals[at.name] = lo + (hi - lo) * mp.mpf(r.randint(1, 10**12)) / 10**12
        return v


class Partition:
    """Analyse the partition of the inputs that contains one sample point:
    element-wise comparisons are decided as they are there."""

    def __init__(self, seed, **values):
        self.env = Ordinary(seed)
        self.env.given = values
        for k, v in values.items():
            self.env.vals[k] = self.num(v)

    def num(self, v):
        return mp.mpf(v.numerator) / v.denominator if hasattr(v, "denominator") else mp.mpf(v)

    def decide(self, x):
        try:
            v, mag = self.env.value(x)
        except (Invalid, ZeroDivisionError, OverflowError, ValueError):
            return None
        if isinstance(v, mp.mpc):
            return None
        if abs(v) <= TINY * (1 + mag):
            return None
        return bool(v > 0)

    def __enter__(self):
        self.env.near = [Near(self.env, "hint%d" % k) for k in range(3)]
        A.GATE[0] = self.decide
        BASE[0] = self.env
        return self

    def __exit__(self, *a):
        A.GATE[0] = None
        BASE[0] = None


def floor_at(x):
    """floor(x) on the current partition, None next to an integer."""
    try:
        v, mag = BASE[0].value(x)
    except (Invalid, ZeroDivisionError, OverflowError, ValueError):
        return None
    if isinstance(v, mp.mpc):
        return None
    if abs(v - mp.nint(v)) <= TINY * (1 + mag):
        return None
    return int(mp.floor(v))


class Moved(Env):
    """The point of a sampled environment with one symbol moved."""

    def __init__(self, seed, scale, name, value):
        super().__init__(seed, scale)
        self.vals[name] = value


OFFSETS = [mp.mpf(10) ** -k for k in (1, 2, 3, 4, 6, 9)]
FAR = [mp.mpf(v) for v in ("0.5", 2, 10, 100, 10**4, 10**6)]


def candidates(at):
    """Unusual values of a symbol: close to its bounds, small or large."""
    if at.name in ("pi", "inf", "nan") or at.flags & {"int", "bool"}:
        return []
    lo = None if at.lo is None else mp.mpf(at.lo.numerator) / at.lo.denominator
    hi = None if at.hi is None else mp.mpf(at.hi.numerator) / at.hi.denominator
    if lo is not None and hi is not None:
        return [v for o in OFFSETS for v in (lo + (hi - lo) * o, hi - (hi - lo) * o)]
    if lo is not None:
        return [lo + o for o in OFFSETS + FAR]
    if hi is not None:
        return [hi - o for o in OFFSETS + FAR]
    return [v for o in OFFSETS + FAR for v in (o, -o)]


_FLIPS = {}
BASES = (("rint0", 20), ("rint1", 1), ("rint2", 1))


def flips(at, seen):
    """Points on the other side of a comparison that one side was seen of."""
    key = (at.id, seen)
    r = _FLIPS.get(key)
    if r is not None:
        return r
    r = _FLIPS[key] = []
    z = at.args[0]
    if not isinstance(z, A.Expr):
        return r
    syms = [a for a in A.atoms_of(z).values() if a.kind == "sym"]
    n = 0
    for s in syms[:12]:
        for v in candidates(s):
            for seed, scale in BASES:
                n += 1
                if n > 400:
                    return r
                try:
                    w = Moved(seed, scale, s.name, v).expr(z)
                except (Invalid, ZeroDivisionError, OverflowError, ValueError):
                    continue
                if isinstance(w, mp.mpc) or (w > TINY) == seen:
                    continue
                r.append((seed, scale, s.name, v))
                if len(r) >= 4:
                    return r
                break
    return r


def separated_at_edge(x, y, envs):
    """Do the two differ on a side of a comparison not sampled so far?"""
    ats = {i: a for z in (x, y) for i, a in A.atoms_of(z).items() if a.kind == "fn" and a.name == "gt"}
    for i, a in list(ats.items())[:40]:
        seen = {e.memo.get(a.id) for e in envs} - {None}
        if len(seen) != 1:
            continue
        for seed, scale, name, v in flips(a, bool(seen.pop())):
            env = Moved(seed, scale, name, v)
            try:
                p = env.expr(x)
                m = env.mag
                q = env.expr(y)
                m += env.mag
            except (Invalid, ZeroDivisionError, OverflowError, ValueError):
                continue
            if abs(p - q) > mp.mpf(10) ** -30 * m + mp.mpf(10) ** -45:
                return True
    return False


def prob_equal(x, y, points=16, tries=160):
    """True, False or None (no valid sample point)."""
    x, y = A.ex(x), A.ex(y)
    good = 0
    envs = []
    if BASE[0] is not None:
        points = min(points, 6)
    for k in range(2 * tries):
        if BASE[0] is not None:
            env = Near(BASE[0], "near%d" % k)
        elif k >= tries:  # outside of the domain so far: ordinary systems
            if good >= 4:
                break
            env = Ordinary("rint%d" % k)
        else:
            env = Env("rint%d" % k, scale=1 if k % 3 else 20)
        try:
            a = env.expr(x)
            ma = env.mag
            b = env.expr(y)
            mb = env.mag
        except (Invalid, ZeroDivisionError, OverflowError, ValueError):
            continue
        good += 1
        tol = mp.mpf(10) ** -40 * (ma + mb) + mp.mpf(10) ** -55
        if abs(a - b) > tol:
            return False
        envs.append(env)
        if good >= points:
            return BASE[0] is not None or not separated_at_edge(x, y, envs)
    return None if good < 4 else True


_HINT = []


def hint_zero(x):
    """False: separated from zero at a point; True: zero at all hint points;
    None: no valid point."""
    if not _HINT:
        _HINT.extend(Env("hint%d" % k, scale=1 if k != 1 else 20) for k in range(6))
    seen = 0
    envs = _HINT
    if BASE[0] is not None:
        envs = [BASE[0]] + BASE[0].near
    for env in envs:
        try:
            v, mag = env.value(x)
        except (Invalid, ZeroDivisionError, OverflowError, ValueError):
            continue
        if abs(v) > mp.mpf(10) ** -32 * mag + mp.mpf(10) ** -50:
            return False
        seen += 1
        if seen == 2:
            return True
    return True if seen else None


def partition_for(exprs, label="p", tries=200, **values):
    """A partition whose sample point lies in the domain of every expr."""
    for k in range(tries):
        p = Partition("%s/%d" % (label, k), **values)
        try:
            for x in exprs:
                v, _ = p.env.value(x)
                if isinstance(v, mp.mpc):
                    raise Invalid()
        except (Invalid, ZeroDivisionError, OverflowError, ValueError):
            continue
        return p
    raise Invalid("no sample point in the domain of the inputs")
