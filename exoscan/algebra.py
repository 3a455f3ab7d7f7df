"""Exact normal forms for the values that flow through the analysed code.

An ``Expr`` is a finite sum ``sum_k q_k * prod_j atom_j ** r_kj`` with rational
``q`` and rational exponents.  It is the element type of the abstract domain
used by :mod:`exoscan.interp`: two program values are congruent when the
difference of their normal forms reduces to the empty sum.  Nothing is sampled
and no solver is involved: reduction is by ring arithmetic, by the defining
relations of the atoms (``sin^2 + cos^2 = 1``, ``s^2 = s`` for indicators,
radicals, Kepler's equation) and by clearing denominators.
"""

from fractions import Fraction
from functools import lru_cache
from math import gcd, lcm

F = Fraction


class AlgebraLimit(Exception):
    """A normal form grew beyond the configured bound."""


# Trace partitioning over element-wise comparisons: when set, a predicate that
# says on which side of every comparison the partition under analysis lies.
GATE = [None]

# When a list, every reciprocal (or negative power) of an exact zero is
# recorded in it; tensor.mapped then makes the element undefined.
UNDEF = [[]]

MAX_TERMS = 20000
MAX_ZERO_TERMS = 4000

# Comparison mode: with STRICT False comparisons are identified up to their
# boundary (a >= b and a > b are the same indicator).
STRICT = [False]

# functions that are 0 or 1
INDICATORS = ("gt", "eq0")


class Atom:
    __slots__ = (
        "id", "kind", "name", "args", "lo", "hi", "flags", "poly", "skey",
    )

    def __init__(self, kind, name, args=(), lo=None, hi=None, flags=()):
        self.kind = kind
        self.name = name
        self.args = args
        self.lo = lo
        self.hi = hi
        self.flags = frozenset(flags)
        self.poly = None
        self.id = len(ATOMS)
        ATOMS.append(self)

    def __repr__(self):
        if self.kind == "base":
            return "(%s)" % (self.poly,)
        if self.args:
            return "%s(%s)" % (self.name, ", ".join(map(str, self.args)))
        return str(self.name)


ATOMS = []
_SYMS = {}
_FNS = {}
_BASES = {}
_PRIMES = {}


def _nf(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return e.numerator
    return e


class Expr:
    __slots__ = ("d", "_key", "_z")

    def __init__(self, d):
        self.d = d
        self._key = None
        self._z = None

    # -- basic ------------------------------------------------------------
    def key(self):
        if self._key is None:
            self._key = frozenset(self.d.items())
        return self._key

    def const(self):
        """The rational value when this is a rational constant, else None."""
        d = self.d
        if not d:
            return F(0)
        if len(d) == 1 and () in d:
            return d[()]
        return None

    def __repr__(self):
        if not self.d:
            return "0"
        parts = []
        for mono, c in sorted(self.d.items(), key=lambda kv: str(kv[0])):
            s = []
            if c != 1 or not mono:
                s.append(str(c))
            for a, e in mono:
                s.append(
                    repr(ATOMS[a]) if e == 1 else "%r**(%s)" % (ATOMS[a], e)
                )
            parts.append("*".join(s))
        return " + ".join(parts)

    def __add__(self, o):
        o = ex(o)
        if not o.d:
            return self
        if not self.d:
            return o
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Expr(d)

    __radd__ = __add__

    def __neg__(self):
        return Expr({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-ex(o))

    def __rsub__(self, o):
        return ex(o) + (-self)

    def __mul__(self, o):
        o = ex(o)
        return _mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * power(ex(o), F(-1))

    def __rtruediv__(self, o):
        return ex(o) * power(self, F(-1))

    def __pow__(self, q):
        return power(self, q)

    def is_zero(self):
        return zero_test(self)


def ex(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Fraction)):
        return Expr({(): F(x)}) if x else Expr({})
    if isinstance(x, float):
        return ex(F(repr(x)))
    raise TypeError("not algebraic: %r" % (x,))


ZERO = Expr({})
ONE = Expr({(): F(1)})


def atom_expr(a, e=1):
    return Expr({((a.id, e),): F(1)})


def sym(name, lo=None, hi=None, flags=()):
    a = _SYMS.get(name)
    if a is None:
        a = Atom(
            "sym", name,
            lo=None if lo is None else F(lo),
            hi=None if hi is None else F(hi),
            flags=flags,
        )
        _SYMS[name] = a
    return atom_expr(a)


def has_sym(name):
    return name in _SYMS


def pos(name, **k):
    return sym(name, lo=0, flags=("pos",), **k)


PI = sym("pi", lo=F(314159, 100000), hi=F(31416, 10000), flags=("pos", "const"))
INF = sym("inf", lo=10**30, flags=("pos", "const"))
NAN = sym("nan", flags=("const",))


def _prime(p):
    a = _PRIMES.get(p)
    if a is None:
        a = Atom("prime", p, lo=F(1), hi=F(p), flags=("pos",))
        _PRIMES[p] = a
    return a


# ---------------------------------------------------------------------------
# multiplication with reduction


def _merge(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            g = _nf(e + f)
            if g:
                out.append((a, g))
            i += 1
            j += 1
        elif a < b:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


_NEEDS = {}


def _needs_reduction(m):
    for a, e in m:
        at = ATOMS[a]
        k = at.kind
        if k == "sym":
            if "bool" in at.flags and e != 1:
                return True
        elif k == "base":
            if e >= 1:
                return True
        elif k == "prime":
            if not (0 < e < 1):
                return True
        elif k == "fn":
            n = at.name
            if n in ("sin", "keps", "abs") and (e >= 2):
                return True
            if n in INDICATORS:
                if e != 1:
                    return True
            if n == "gt" and STRICT[0]:
                return True
    return False


def _reduce_mono(m, c):
    """Reduce c*m; returns an Expr."""
    if not _needs_reduction(m):
        return Expr({m: c})
    rest = []
    fac = []
    for a, e in m:
        at = ATOMS[a]
        k = at.kind
        if (k == "sym" and "bool" in at.flags) or (
            k == "fn" and at.name in INDICATORS
        ):
            if e > 0:
                rest.append((a, 1))
                continue
            rest.append((a, e))
        elif k == "base" and e >= 1:
            n = int(e // 1)
            r = _nf(e - n)
            if r:
                rest.append((a, r))
            fac.append(_ipow(at.poly, n))
        elif k == "prime" and not (0 < e < 1):
            n = e.__floor__()
            r = _nf(F(e) - n)
            if r:
                rest.append((a, r))
            c = c * F(at.name) ** int(n)
        elif k == "fn" and at.name in ("sin", "keps", "abs") and e >= 2:
            n = int(e // 2)
            r = _nf(e - 2 * n)
            if r:
                rest.append((a, r))
            if at.name == "sin":
                cc = atom_expr(_fn_atom("cos", at.args))
                fac.append(_ipow(ONE - cc * cc, n))
            elif at.name == "keps":
                cc = atom_expr(_fn_atom("kepc", at.args))
                fac.append(_ipow(ONE - cc * cc, n))
            else:
                fac.append(_ipow(at.args[0] * at.args[0], n))
        else:
            rest.append((a, e))
    rest = tuple(sorted(rest))
    if STRICT[0]:
        gts = [ATOMS[a] for a, e in rest if ATOMS[a].kind == "fn"
               and ATOMS[a].name == "gt"]
        for i, x in enumerate(gts):
            for y in gts[i + 1:]:
                if not (x.args[0] + y.args[0]).d:
                    return ZERO
    out = Expr({rest: c})
    for f in fac:
        out = _mul(out, f)
    return out


def _mul(x, y):
    if not x.d or not y.d:
        return ZERO
    if GATE[0] is not None and len(x.d) > 1 and len(y.d) > 1 and len(x.d) * len(y.d) > 24:
        x, y = let(x), let(y)
    if len(x.d) * len(y.d) > MAX_TERMS * 20:
        raise AlgebraLimit("product of %d x %d terms" % (len(x.d), len(y.d)))
    acc = {}
    pend = []
    for m1, c1 in x.d.items():
        for m2, c2 in y.d.items():
            m = _merge(m1, m2)
            c = c1 * c2
            if _needs_reduction(m):
                pend.append((m, c))
            else:
                v = acc.get(m, 0) + c
                if v:
                    acc[m] = v
                else:
                    acc.pop(m, None)
    # merge like pending monomials first
    if pend:
        pm = {}
        for m, c in pend:
            v = pm.get(m, 0) + c
            if v:
                pm[m] = v
            else:
                pm.pop(m, None)
        for m, c in pm.items():
            r = _reduce_mono(m, c)
            for mm, cc in r.d.items():
                v = acc.get(mm, 0) + cc
                if v:
                    acc[mm] = v
                else:
                    acc.pop(mm, None)
    if len(acc) > MAX_TERMS:
        raise AlgebraLimit("normal form with %d terms" % len(acc))
    return Expr(acc)


def _ipow(x, n):
    out = ONE
    b = x
    while n:
        if n & 1:
            out = _mul(out, b)
        n >>= 1
        if n:
            b = _mul(b, b)
    return out


# ---------------------------------------------------------------------------
# bounds


def _iadd(a, b):
    lo = None if a[0] is None or b[0] is None else a[0] + b[0]
    hi = None if a[1] is None or b[1] is None else a[1] + b[1]
    return lo, hi


def _imul(a, b):
    if a == (0, 0) or b == (0, 0):
        return (F(0), F(0))
    # handle simple sign cases with infinities
    if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
        return (
            a[0] * b[0],
            None if a[1] is None or b[1] is None else a[1] * b[1],
        )
    if None in a or None in b:
        # sign analysis for half-infinite intervals
        if a[0] is not None and a[0] >= 0 and b[1] is not None and b[1] <= 0:
            return (
                None if a[1] is None or b[0] is None else a[1] * b[0],
                a[0] * b[1],
            )
        if b[0] is not None and b[0] >= 0 and a[1] is not None and a[1] <= 0:
            return (
                None if b[1] is None or a[0] is None else b[1] * a[0],
                b[0] * a[1],
            )
        if a[1] is not None and a[1] <= 0 and b[1] is not None and b[1] <= 0:
            return (
                a[1] * b[1],
                None if a[0] is None or b[0] is None else a[0] * b[0],
            )
        return (None, None)
    v = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    return (min(v), max(v))


def atom_bounds(at):
    if at.kind == "base":
        return (F(0), None) if "nn" in at.flags or True else (None, None)
    if at.kind == "fn":
        n = at.name
        if n == "sin":
            b = _SINB.get(at.id)
            if b is None:
                lo, hi = bounds(at.args[0])
                up = lo is not None and lo >= 0 and hi is not None
                b = (F(0) if up and hi <= F(31416, 10000) else F(-1), F(1))
                _SINB[at.id] = b
            return b
        if n in ("cos", "keps", "kepc"):
            return (F(-1), F(1))
        if n in INDICATORS:
            return (F(0), F(1))
        if n in ("abs", "exp"):
            return (F(0), None)
        if n == "arccos":
            return (F(0), F(31416, 10000))
    return (at.lo, at.hi)


_SINB = {}


def _ipow_b(b, e, at):
    if e == 1:
        return b
    if isinstance(e, int) and e > 0:
        out = (F(1), F(1))
        if e % 2 == 0:
            lo, hi = b
            if lo is not None and lo >= 0:
                return (lo**e, None if hi is None else hi**e)
            if hi is not None and lo is not None:
                return (F(0), max(lo**e, hi**e))
            return (F(0), None)
        for _ in range(e):
            out = _imul(out, b)
        return out
    if isinstance(e, int) and e % 2 == 0:
        return (F(0), None)
    if b[0] is not None and b[0] >= 0:
        return (F(0), None)
    if b[1] is not None and b[1] <= 0 and isinstance(e, int):
        return (None, F(0))
    return (None, None)


def bounds(x):
    tot = (F(0), F(0))
    for m, c in x.d.items():
        b = (c, c)
        for a, e in m:
            at = ATOMS[a]
            b = _imul(b, _ipow_b(atom_bounds(at), e, at))
        tot = _iadd(tot, b)
    return tot


def nonneg(x):
    if not x.d:
        return True
    if _bounds_nonneg(x):
        return True
    return False


def _bounds_nonneg(x):
    lo, hi = bounds(x)
    if lo is not None and lo >= 0:
        return True
    # group: try factoring out a common positive monomial
    c, mono, prim = content(x)
    if mono and len(prim.d) > 1:
        if c > 0 and all(_atom_nonneg(ATOMS[a], e) for a, e in mono):
            lo, hi = bounds(prim)
            return lo is not None and lo >= 0
        if c < 0 and all(_atom_nonneg(ATOMS[a], e) for a, e in mono):
            lo, hi = bounds(prim)
            return hi is not None and hi <= 0
    return False


def nonpos(x):
    return nonneg(-x)


def _atom_nonneg(at, e=1):
    if isinstance(e, int) and e % 2 == 0:
        return True
    if isinstance(e, Fraction):
        return True  # fractional powers are only formed on their domain
    lo, hi = atom_bounds(at)
    return lo is not None and lo >= 0


# ---------------------------------------------------------------------------
# content / factorisation


def content(x):
    """(rational content with sign, common monomial, primitive part)"""
    ms = list(x.d)
    # common monomial: minimum exponent of every atom (0 where absent)
    common = {}
    for a, e in ms[0]:
        common[a] = e
    for m in ms[1:]:
        dm = dict(m)
        for a in list(common):
            common[a] = min(common[a], dm.get(a, 0))
        for a, e in m:
            if a not in common and e < 0:
                common[a] = e
    # atoms with negative exponents absent from the first monomials
    for m in ms:
        dm = dict(m)
        for a in list(common):
            common[a] = min(common[a], dm.get(a, 0))
    common = {a: e for a, e in common.items() if e != 0}
    # never pull bool atoms out with exponent (idempotent): harmless
    num = 0
    den = 1
    for c in x.d.values():
        num = gcd(num, abs(c.numerator))
        den = lcm(den, c.denominator)
    q = F(num, den)
    cm = tuple(sorted(common.items()))
    inv = tuple((a, -e) for a, e in cm)
    d = {}
    for m, c in x.d.items():
        d[_merge(m, inv)] = c / q
    prim = Expr(d)
    # sign convention
    lead = max(d, key=_mono_sort)
    if d[lead] < 0:
        prim = -prim
        q = -q
    return q, cm, prim


def _mono_sort(m):
    return tuple(sorted(((-a, F(e)) for a, e in m), reverse=True))


def _factor_prim(prim):
    """Irreducible factorisation of a primitive sum: list of (Expr, mult)."""
    if GATE[0] is not None and len(prim.d) > LET:
        # on a partition equality is decided numerically when normal forms
        # differ; large factorisations do not pay
        return [(let(prim), 1)]
    k = prim.key()
    r = _FACT.get(k)
    if r is not None:
        return r
    r = _factor_prim_raw(prim)
    _FACT[k] = r
    return r


_FACT = {}


def _factor_prim_raw(prim):
    if len(prim.d) <= 1:
        return [(prim, 1)]
    if len(prim.d) > 80:
        return [(prim, 1)]
    from sympy import QQ, symbols
    from sympy.polys.rings import ring

    atoms = {}
    for m in prim.d:
        for a, e in m:
            den = F(e).denominator
            atoms[a] = lcm(atoms.get(a, 1), den)
    ids = sorted(atoms)
    if not ids:
        return [(prim, 1)]
    lows = {}
    for m in prim.d:
        for a, e in m:
            lows[a] = min(lows.get(a, 0), e)
    if any(v < 0 for v in lows.values()):
        return [(prim, 1)]
    top = max(int(e * atoms[a]) for m in prim.d for a, e in m)
    if top > 8:
        # factors in powers of the atoms only, and none for large degrees
        for a in ids:
            g = 0
            for m in prim.d:
                g = gcd(g, int(F(dict(m).get(a, 0)) * atoms[a]))
            atoms[a] = F(atoms[a], g or 1)
        top = max(int(e * atoms[a]) for m in prim.d for a, e in m)
        if top > 8 or len(prim.d) > 40:
            return [(prim, 1)]
    R, *gens = ring(["x%d" % i for i in ids], QQ)
    p = R.zero
    d = {}
    for m, c in prim.d.items():
        dm = dict(m)
        d[tuple(int(dm.get(a, 0) * atoms[a]) for a in ids)] = QQ(
            c.numerator, c.denominator
        )
    p = R.from_dict(d)
    try:
        coeff, facs = p.factor_list()
    except Exception:
        return [(prim, 1)]
    out = []
    scale = F(int(coeff.numerator), int(coeff.denominator))
    for f, k in facs:
        dd = {}
        for mono, c in f.terms():
            mm = tuple(
                (a, _nf(F(int(n)) / atoms[a]))
                for a, n in zip(ids, mono)
                if n
            )
            dd[mm] = F(int(c.numerator), int(c.denominator))
        q, cm, pr = content(Expr(dd))
        if cm:
            # monomial factors cannot appear in a primitive polynomial
            return [(prim, 1)]
        scale *= q**k
        out.append((pr, k))
    if scale != 1:
        if scale == -1:
            out.append((ex(-1), 1))
        else:
            return [(prim, 1)]
    return out


def _base_atom(poly):
    if len(poly.d) == 1:
        ((m, c),) = poly.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
    k = poly.key()
    a = _BASES.get(k)
    if a is None:
        for other in list(_BASES.values()):
            if len(other.poly.d) and zero_test(other.poly - poly):
                _BASES[k] = other
                return other
        a = Atom("base", None, flags=("nn",))
        a.poly = poly
        _BASES[k] = a
    return a


def _rational_pow(q, e):
    """q ** e for positive rational q and rational e, as Expr."""
    out = ONE
    for p, k in _factorint(q.numerator).items():
        out = out * _reduce_mono(((_prime(p).id, _nf(F(k) * e)),), F(1))
    for p, k in _factorint(q.denominator).items():
        out = out * _reduce_mono(((_prime(p).id, _nf(-F(k) * e)),), F(1))
    return out


@lru_cache(maxsize=None)
def _factorint(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1 if p == 2 else 2
        if p > 10**6:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def bool_atoms(x):
    out = set()
    for m in x.d:
        for a, e in m:
            at = ATOMS[a]
            if (at.kind == "fn" and at.name in INDICATORS) or (
                at.kind == "sym" and "bool" in at.flags
            ):
                out.add(a)
    return out


def cofactor(x, a, v):
    d = {}
    out = Expr({})
    acc = {}
    for m, c in x.d.items():
        if any(b == a for b, e in m):
            if not v:
                continue
            m = tuple((b, e) for b, e in m if b != a)
        w = acc.get(m, 0) + c
        if w:
            acc[m] = w
        else:
            acc.pop(m, None)
    return Expr(acc)


def shannon(f, args):
    """Apply f to args, lifting top-level indicators out of the arguments."""
    bs = set()
    for x in args:
        bs |= bool_atoms(x)
    if not bs:
        return f(*args)
    if len(bs) > 8:
        return f(*args)
    a = min(bs)
    s = atom_expr(ATOMS[a])
    t1 = shannon(f, [cofactor(x, a, 1) for x in args])
    t0 = shannon(f, [cofactor(x, a, 0) for x in args])
    if t1.key() == t0.key():
        return t1
    return t0 + s * (t1 - t0)


def power(x, q):
    x = ex(x)
    if isinstance(q, Expr):
        c = q.const()
        if c is None:
            return fn("exp", q * fn("log", x))
        q = c
    q = _nf(F(q))
    if q == 0:
        return ONE
    if q == 1:
        return x
    if not x.d:
        if q > 0:
            return ZERO
        if UNDEF[0] is not None:
            UNDEF[0].append(1)
        return fn_raw("inv0", ())
    if isinstance(q, int) and q > 0:
        if len(x.d) == 1:
            ((m, c),) = x.d.items()
            return _reduce_mono(tuple((a, _nf(e * q)) for a, e in m), c**q)
        return _ipow(x, q)
    bs = bool_atoms(x)
    if bs:
        return shannon(lambda z: _power0(z, q), [x])
    return _power0(x, q)


def _power0(x, q):
    if not x.d:
        if q < 0 and UNDEF[0] is not None:
            UNDEF[0].append(1)
        return ZERO if q > 0 else fn_raw("inv0", ())
    c, mono, prim = content(x)
    facs = [] if len(prim.d) == 1 else _factor_prim(prim)
    if len(prim.d) == 1:
        ((m, cc),) = prim.d.items()
        c = c * cc
        mono = _merge(mono, m)
    if isinstance(q, int):
        # integer (negative) power: everything splits
        out = ONE
        acc = F(c) ** q
        out = Expr({(): acc})
        for a, e in mono:
            out = out * _reduce_mono(((a, _nf(e * q)),), F(1))
        for f, k in _pythag(facs):
            if isinstance(f, Atom):
                out = out * _reduce_mono(((f.id, _nf(F(k) * q)),), F(1))
                continue
            kc = f.const()
            if kc is not None:
                out = out * ex(F(kc) ** (k * q))
                continue
            out = out * _reduce_mono(
                ((_base_atom(f).id, _nf(F(k) * q)),), F(1)
            )
        return out
    # fractional power: split off what is known to be non-negative
    out = ONE
    unknown = []  # (Expr, exponent) of unknown sign
    extra = []
    sign = 1
    if c < 0:
        sign = -1
        c = -c
    out = out * _rational_pow(c, q)
    for a, e in mono:
        at = ATOMS[a]
        if at.kind == "base" and isinstance(e, int) and not _bounds_nonneg(at.poly):
            extra.append((at.poly, e))
        elif at.kind in ("base", "prime") or _atom_nonneg(at, 1):
            out = out * _reduce_mono(((a, _nf(e * q)),), F(1))
        elif isinstance(e, int) and e % 2 == 0:
            ae = fn("abs", atom_expr(at))
            out = out * power(ae, _nf(e * q))
        else:
            unknown.append((atom_expr(at), e))
    for f, k in extra + list(_pythag(facs)):
        if isinstance(f, Atom):
            fe = atom_expr(f)
            if isinstance(k, int) and k % 2 == 0:
                out = out * power(fn("abs", fe), _nf(k * q))
            else:
                unknown.append((fe, k))
            continue
        kc = f.const()
        if kc is not None:
            if kc < 0 and k % 2:
                sign = -sign
            out = out * _rational_pow(abs(kc) ** k, q)
            continue
        if _bounds_nonneg(f):
            out = out * _reduce_mono(
                ((_base_atom(f).id, _nf(F(k) * q)),), F(1)
            )
        elif _bounds_nonneg(-f):
            if k % 2:
                sign = -sign
            out = out * _reduce_mono(
                ((_base_atom(-f).id, _nf(F(k) * q)),), F(1)
            )
        elif isinstance(k, int) and k % 2 == 0:
            out = out * power(fn("abs", f), _nf(k * q))
        else:
            unknown.append((f, k))
    if not unknown:
        if sign < 0:
            out = out * fn_raw("negroot", (ex(q),))
        return out
    # the rest is non-negative as a whole on the domain of the operation
    even = []
    odd = []
    for f, k in unknown:
        if isinstance(k, int):
            h = (k - (1 if k % 2 else 0))
            if h:
                even.append((f, h))
            if k % 2:
                odd.append(f)
        else:
            odd.append(power(f, k) if False else f)
    for f, h in even:
        out = out * power(fn("abs", f), _nf(h * q))
    if odd:
        p = ONE if sign > 0 else ex(-1)
        for f in odd:
            p = p * f
        if len(p.d) == 1:
            ((m, cc),) = p.d.items()
            if len(m) == 1 and m[0][1] == 1 and cc == 1:
                out = out * Expr({((m[0][0], q),): F(1)})
                return out
        out = out * _reduce_mono(((_base_atom(p).id, _nf(F(q))),), F(1))
    elif sign < 0:
        out = out * fn_raw("negroot", (ex(q),))
    return out


def _pythag(facs):
    """Replace (1-c)^p (1+c)^p by sin^2p for a cosine atom c."""
    facs = list(facs)
    out = []
    used = set()
    for i, (f, k) in enumerate(facs):
        if i in used:
            continue
        hit = None
        if isinstance(f, Expr) and len(f.d) == 2 and () in f.d:
            (m,) = [m for m in f.d if m]
            if len(m) == 1 and m[0][1] == 1 and abs(f.d[m]) == 1 and abs(f.d[()]) == 1:
                at = ATOMS[m[0][0]]
                if at.kind == "fn" and at.name in ("cos", "kepc"):
                    for j, (g, l) in enumerate(facs):
                        if j <= i or j in used or l != k:
                            continue
                        if set(g.d) == set(f.d):
                            pr = f * g
                            one = atom_expr(at)
                            if not (pr - (ONE - one * one)).d:
                                hit = (j, at, 1)
                            elif not (pr + (ONE - one * one)).d:
                                hit = (j, at, -1)
                            if hit:
                                break
        if hit:
            j, at, s = hit
            used.add(j)
            sa = _fn_atom("sin" if at.name == "cos" else "keps", at.args)
            out.append((sa, 2 * k))
            if s < 0:
                out.append((ex(-1), k))
        else:
            out.append((f, k))
    return out


# ---------------------------------------------------------------------------
# zero test


_ZT = {}


def zero_test(x):
    if not x.d:
        return True
    if x._z is not None:
        return x._z
    k = x.key()
    r = _ZT.get(k)
    if r is None:
        h = None
        if len(x.d) > 3 or any(ATOMS[a].kind != "sym" for m in x.d for a, e in m):
            from . import rint

            h = rint.hint_zero(x)
        if h and GATE[0] is not None and rint.prob_equal(x, ZERO):
            r = True
        elif h is False:
            # a value in the common domain separates it from zero
            r = False
        elif h is None:
            r = _zero_test(x)
        else:
            try:
                r = _zero_test(x)
            except AlgebraLimit:
                r = rint.prob_equal(x, ZERO)
                if r is None:
                    raise
        _ZT[k] = r
    x._z = r
    return r


def _clear(x):
    """Multiply by the powers of bases/function atoms that clear negatives."""
    lows = {}
    for m in x.d:
        for a, e in m:
            if e < 0:
                at = ATOMS[a]
                if at.kind in ("base", "fn"):
                    lows[a] = min(lows.get(a, 0), e)
    if not lows:
        return x, False
    mul = []
    for a, e in lows.items():
        n = (-e).__ceil__() if isinstance(e, Fraction) else -e
        mul.append((a, n))
    # multiply the monomials directly, reducing once
    mm = tuple(sorted(mul))
    acc = {}
    pend = []
    out = Expr({})
    d = {}
    for m, c in x.d.items():
        nm = _merge(m, mm)
        d[nm] = d.get(nm, 0) + c
    tot = {}
    for m, c in d.items():
        r = _reduce_mono(m, c)
        for m2, c2 in r.d.items():
            v = tot.get(m2, 0) + c2
            if v:
                tot[m2] = v
            else:
                tot.pop(m2, None)
        if len(tot) > MAX_ZERO_TERMS:
            raise AlgebraLimit("zero test with %d terms" % len(tot))
    return Expr(tot), True


def _zero_test(x):
    for _ in range(12):
        if not x.d:
            return True
        x, changed = _clear(x)
        if not changed:
            break
    return not x.d


def reduced(x):
    """x times a non-zero factor, with negative base powers cleared."""
    for _ in range(12):
        x, changed = _clear(x)
        if not changed:
            break
    return x


def equal(x, y):
    return zero_test(ex(x) - ex(y))


# ---------------------------------------------------------------------------
# functions


def _fn_atom(name, args):
    """Interned function atom (no simplification)."""
    keyt = (name, tuple(a.key() if isinstance(a, Expr) else a for a in args))
    at = _FNS.get(keyt)
    if at is not None:
        return at
    for other in _BYNAME.get(name, ()):
        if len(other.args) == len(args) and all(
            (equal(a, b) if isinstance(a, Expr) and isinstance(b, Expr)
             else (not isinstance(a, Expr) and not isinstance(b, Expr) and a == b))
            for a, b in zip(other.args, args)
        ):
            _FNS[keyt] = other
            return other
    flags = ()
    lo = hi = None
    at = Atom("fn", name, tuple(args), lo=lo, hi=hi, flags=flags)
    _FNS[keyt] = at
    _BYNAME.setdefault(name, []).append(at)
    return at


_BYNAME = {}


def fn_raw(name, args):
    return atom_expr(_fn_atom(name, tuple(args)))


def pi_split(x):
    """(q, rest) with x = q*pi + rest, q rational."""
    pid = ((next(iter(PI.d))[0][0], 1),)
    q = x.d.get(pid, F(0))
    if q:
        d = dict(x.d)
        del d[pid]
        x = Expr(d)
    return q, x


def _lead_negative(x):
    lead = max(x.d, key=_mono_sort)
    return x.d[lead] < 0


_INVTRIG = ("arctan2", "arccos", "arcsin", "arctan")


def _angle_terms(x):
    """Split x into [(coef, atom)] for integer multiples of angle atoms + rest."""
    terms = []
    rest = {}
    for m, c in x.d.items():
        if len(m) == 1 and m[0][1] == 1:
            at = ATOMS[m[0][0]]
            if (at.kind == "fn" and at.name in _INVTRIG) or (
                at.kind == "sym" and "angle" in at.flags
            ):
                if c.denominator == 1 and abs(c) <= 4:
                    terms.append((int(c), at))
                    continue
        rest[m] = c
    return terms, Expr(rest)


def _sc_atom(at):
    """(sin, cos) of an angle atom."""
    if at.kind == "fn":
        n = at.name
        if n == "arctan2":
            y, x = at.args
            r2 = x * x + y * y
            inv = power(r2, F(-1, 2))
            return y * inv, x * inv
        if n == "arccos":
            (c,) = at.args
            return power(ONE - c * c, F(1, 2)), c
        if n == "arcsin":
            (s,) = at.args
            return s, power(ONE - s * s, F(1, 2))
        if n == "arctan":
            (z,) = at.args
            inv = power(ONE + z * z, F(-1, 2))
            return z * inv, inv
    e = atom_expr(at)
    return (
        atom_expr(_fn_atom("sin", (e,))),
        atom_expr(_fn_atom("cos", (e,))),
    )


def _compose(a, b):
    s1, c1 = a
    s2, c2 = b
    return s1 * c2 + c1 * s2, c1 * c2 - s1 * s2


_SC = {}


def sincos(x):
    k = x.key()
    r = _SC.get(k)
    if r is None:
        r = _sincos(x)
        _SC[k] = r
    return r


def _sincos(x):
    bs = bool_atoms(x)
    if bs and len(bs) <= 8:
        a = min(bs)
        s = atom_expr(ATOMS[a])
        s1, c1 = sincos(cofactor(x, a, 1))
        s0, c0 = sincos(cofactor(x, a, 0))
        return s0 + s * (s1 - s0), c0 + s * (c1 - c0)
    q, rest = pi_split(x)
    # integer-flagged multiples of 2 pi vanish
    rest = _drop_turns(rest)
    out = (ZERO, ONE)
    # rational multiple of pi
    q = q % 2
    quarter, frac = divmod(q, F(1, 2))
    for _ in range(int(quarter)):
        out = _compose(out, (ONE, ZERO))
    if frac:
        v = _special(frac)
        if v is None:
            a = PI * frac
            v = (fn_raw("sin", (a,)), fn_raw("cos", (a,)))
        out = _compose(out, v)
    terms, rest = _angle_terms(rest)
    for c, at in terms:
        s, co = _sc_atom(at)
        if c < 0:
            s = -s
            c = -c
        for _ in range(c):
            out = _compose(out, (s, co))
    if rest.d:
        sgn = 1
        if _lead_negative(rest):
            rest = -rest
            sgn = -1
        s = fn_raw("sin", (rest,))
        co = fn_raw("cos", (rest,))
        out = _compose(out, (s * sgn, co))
    return out


def _is_integer_mono(m, c):
    if c.denominator != 1:
        return False
    for a, e in m:
        if not (isinstance(e, int) and e > 0 and _atom_integer(ATOMS[a])):
            return False
    return True


def _atom_integer(at):
    if at.kind == "sym":
        return "int" in at.flags or "bool" in at.flags
    if at.kind == "fn":
        return at.name == "floor" or at.name in INDICATORS
    return False


def is_integer(x):
    return all(_is_integer_mono(m, c) for m, c in x.d.items())


def _drop_turns(x):
    """Remove terms that are an integer multiple of 2 pi."""
    pid = next(iter(PI.d))[0][0]
    d = {}
    for m, c in x.d.items():
        dm = dict(m)
        if dm.get(pid) == 1:
            m2 = tuple((a, e) for a, e in m if a != pid)
            if m2 and _is_integer_mono(m2, c / 2):
                continue
        d[m] = c
    return Expr(d)


def _special(f):
    if f == F(1, 4):
        h = power(ex(2), F(-1, 2))
        return h, h
    if f == F(1, 6):
        return ex(F(1, 2)), power(ex(3), F(1, 2)) * F(1, 2)
    if f == F(1, 3):
        return power(ex(3), F(1, 2)) * F(1, 2), ex(F(1, 2))
    return None


def kepler(M, e):
    """(sin f, cos f) for mean anomaly M and eccentricity e."""
    bs = bool_atoms(M) | bool_atoms(e)
    if bs and len(bs) <= 8:
        a = min(bs)
        s = atom_expr(ATOMS[a])
        s1, c1 = kepler(cofactor(M, a, 1), cofactor(e, a, 1))
        s0, c0 = kepler(cofactor(M, a, 0), cofactor(e, a, 0))
        return s0 + s * (s1 - s0), c0 + s * (c1 - c0)
    if zero_test(e):
        return sincos(M)
    q, rest = pi_split(M)
    rest = _drop_turns(rest)
    q = q % 2
    M = PI * q + rest
    if zero_test(M):
        return ZERO, ONE
    # recognise M = E - e sin E for an explicit angle E
    terms, _ = _angle_terms(rest)
    if terms:
        E = PI * q
        for c, at in terms:
            E = E + atom_expr(at) * c
        sE, cE = sincos(E)
        if zero_test(M - E + e * sE):
            inv = power(ONE - e * cE, -1)
            return power(ONE - e * e, F(1, 2)) * sE * inv, (cE - e) * inv
    if q == 1 and not rest.d:
        return ZERO, ex(-1)
    s = 1
    if rest.d and _lead_negative(rest):
        M = -M
        q2, r2 = pi_split(M)
        M = PI * (q2 % 2) + r2
        s = -1
    return fn_raw("keps", (M, e)) * s, fn_raw("kepc", (M, e))


def gt0(x):
    """Indicator of x > 0."""
    x = ex(x)
    if GATE[0] is not None and x.const() is None:
        v = GATE[0](x)
        if v is not None:
            return ONE if v else ZERO
    return shannon(_gt0, [x])


def _gt0(x):
    if not x.d or zero_test(x):
        return ZERO
    c = x.const()
    if c is not None:
        return ONE if c > 0 else ZERO
    # |y| inside: split when it appears linearly with a definite coefficient
    for m in x.d:
        for a, e in m:
            at = ATOMS[a]
            if at.kind == "fn" and at.name == "abs" and e == 1:
                r = _gt_abs(x, at)
                if r is not None:
                    return r
    # infinity
    for m, cc in x.d.items():
        if any(ATOMS[a].kind == "sym" and ATOMS[a].name == "inf" for a, e in m):
            if len(m) == 1:
                return ONE if cc > 0 else ZERO
    q, mono, prim = content(x)
    # strip positive monomials
    keep = []
    for a, e in mono:
        at = ATOMS[a]
        if not _atom_nonneg(at, e):
            if isinstance(e, int) and e % 2 == 0:
                continue
            keep.append((a, 1))
    y = Expr({tuple(sorted(keep)): F(1)}) * prim if keep else prim
    # strip positive irreducible factors; even multiplicities
    if len(prim.d) > 1:
        y = Expr({tuple(sorted(keep)): F(1)})
        for f, k in _factor_prim(prim):
            kc = f.const()
            if kc is not None:
                if kc < 0 and k % 2:
                    q = -q
                continue
            if k % 2 == 0:
                continue
            if _bounds_nonneg(f):
                continue
            if _bounds_nonneg(-f):
                q = -q
                continue
            y = y * f
    sgn = 1 if q > 0 else -1
    if y.const() is not None:
        v = y.const() * sgn
        return ONE if v > 0 else ZERO
    lo, hi = bounds(y)
    if lo is not None and lo >= 0 and (lo > 0 or not STRICT[0]):
        return ONE if sgn > 0 else ZERO
    if hi is not None and hi <= 0 and (hi < 0 or not STRICT[0]):
        return ZERO if sgn > 0 else ONE
    if lo is not None and lo >= 0 and sgn < 0:
        return ZERO
    if hi is not None and hi <= 0 and sgn > 0:
        return ZERO
    # normalise denominators: multiply by positive base powers
    y = _clear_pos(y)
    q2, cm2, y = content(y)
    if q2 < 0:
        sgn = -sgn
    if cm2:
        neg = [(a, 1) for a, e in cm2 if not _atom_nonneg(ATOMS[a], e)]
        if neg:
            y = y * Expr({tuple(sorted(neg)): F(1)})
    if not STRICT[0]:
        if _lead_negative(y):
            y = -y
            sgn = -sgn
        g = fn_raw("gt", (y,))
        return g if sgn > 0 else ONE - g
    return fn_raw("gt", (y if sgn > 0 else -y,))


def _clear_pos(x):
    lows = {}
    for m in x.d:
        for a, e in m:
            if e < 0:
                at = ATOMS[a]
                if at.kind == "base" or _atom_nonneg(at, e):
                    lows[a] = min(lows.get(a, 0), e)
    if not lows:
        return x
    mm = []
    for a, e in sorted(lows.items()):
        n = (-e).__ceil__() if isinstance(e, Fraction) else -e
        mm.append((a, n))
    mm = tuple(mm)
    tot = ZERO
    for m, c in x.d.items():
        tot = tot + _reduce_mono(_merge(m, mm), c)
    return tot


def _gt_abs(x, at):
    B = {}
    A = {}
    for m, c in x.d.items():
        dm = dict(m)
        e = dm.get(at.id)
        if e is None:
            A[m] = c
        elif e == 1:
            B[tuple((a, k) for a, k in m if a != at.id)] = c
        else:
            return None
    A = Expr(A)
    B = Expr(B)
    y = at.args[0]
    if _bounds_nonneg(-B):  # A - |B||y| > 0
        return gt0(A + B * y) * gt0(A - B * y)
    if _bounds_nonneg(B):
        p = gt0(A + B * y)
        r = gt0(A - B * y)
        return p + r - p * r
    return None


def _open_hi(x):
    """The upper bound of x is not attained."""
    for m in x.d:
        for a, e in m:
            if "open" in ATOMS[a].flags:
                return True
    return False


def floor(x):
    x = ex(x)
    return shannon(_floor, [x])


def _floor(x):
    ip = {}
    fp = {}
    for m, c in x.d.items():
        if m == ():
            n = c.__floor__()
            if n:
                ip[m] = F(n)
            if c - n:
                fp[m] = c - n
        elif _is_integer_mono(m, c):
            ip[m] = c
        else:
            fp[m] = c
    ip, fp = Expr(ip), Expr(fp)
    if fp.const() is not None:
        return ip + ex(fp.const().__floor__())
    lo, hi = bounds(fp)
    if lo is not None and hi is not None:
        # half-open symbols: a term strictly inside (0, 1) has no boundary
        if lo.__floor__() == hi.__floor__():
            return ip + ex(lo.__floor__())
        if hi.denominator == 1 and lo >= hi - 1 and _open_hi(fp):
            return ip + ex(hi - 1)
    if GATE[0] is not None:
        from . import rint

        n = rint.floor_at(fp)
        if n is not None:
            return ip + ex(n)
    return ip + fn_raw("floor", (fp,))


def fn(name, *args):
    args = [ex(a) for a in args]
    f = _FNTAB.get(name)
    if f is not None:
        return f(*args)
    return fn_raw(name, args)


def _lift(f):
    def g(*args):
        return shannon(f, list(args))

    return g


def _f_abs(x):
    if _bounds_nonneg(x):
        return x
    if GATE[0] is not None and x.const() is None:
        v = GATE[0](x)
        if v is not None:
            return x if v else -x
    if _bounds_nonneg(-x):
        return -x
    c, mono, prim = content(x) if x.d else (0, (), x)
    if not x.d:
        return ZERO
    out = ex(abs(c))
    for a, e in mono:
        at = ATOMS[a]
        b = atom_expr(at)
        if _atom_nonneg(at, e):
            out = out * Expr({((a, e),): F(1)})
        elif isinstance(e, int):
            out = out * power(fn_raw("abs", (b,)), e)
        else:
            out = out * Expr({((a, e),): F(1)})
    facs = _factor_prim(prim) if len(prim.d) > 1 else []
    if len(prim.d) == 1:
        (cc,) = prim.d.values()
        out = out * abs(cc)
    for f, k in facs:
        kc = f.const()
        if kc is not None:
            out = out * abs(kc) ** k
        elif _bounds_nonneg(f):
            out = out * power(f, k)
        elif _bounds_nonneg(-f):
            out = out * power(-f, k)
        elif k % 2 == 0:
            out = out * power(f, k)
        else:
            out = out * power(f, k - 1) * fn_raw("abs", (f,))
    return out


def _f_exp(x):
    out = ONE
    rest = {}
    for m, c in x.d.items():
        if len(m) == 1 and m[0][1] == 1:
            at = ATOMS[m[0][0]]
            if at.kind == "fn" and at.name == "log":
                out = out * power(at.args[0], c)
                continue
        rest[m] = c
    rest = Expr(rest)
    if rest.d:
        # exp of a sum as a product of exps of canonical-sign terms
        for m, c in rest.d.items():
            e = Expr({m: F(1)})
            out = out * Expr({((_fn_atom("exp", (e,)).id, _nf(c)),): F(1)})
    return out


def _f_log(x):
    if not x.d:
        return -INF
    c, mono, prim = content(x)
    out = ZERO
    if len(prim.d) == 1:
        ((m, cc),) = prim.d.items()
        c = c * cc
        mono = _merge(mono, m)
        prim = ONE
    if c < 0:
        return fn_raw("log", (x,))
    if c != 1:
        for p, k in _factorint(c.numerator).items():
            out = out + fn_raw("log", (ex(p),)) * k
        for p, k in _factorint(c.denominator).items():
            out = out - fn_raw("log", (ex(p),)) * k
    for a, e in mono:
        at = ATOMS[a]
        if at.kind == "base":
            out = out + fn_raw("log", (at.poly,)) * F(e)
        elif at.kind == "fn" and at.name == "exp":
            out = out + at.args[0] * F(e)
        elif at.kind == "prime":
            out = out + fn_raw("log", (ex(at.name),)) * F(e)
        elif not _atom_nonneg(at, 1) and isinstance(e, int) and e % 2 == 0:
            out = out + fn_raw("log", (fn("abs", atom_expr(at)),)) * F(e)
        else:
            out = out + fn_raw("log", (atom_expr(at),)) * F(e)
    if len(prim.d) > 1:
        facs = _factor_prim(prim)
        unk = ONE
        for f, k in facs:
            if f.const() is not None:
                unk = unk * power(f, k)
            elif _bounds_nonneg(f):
                out = out + fn_raw("log", (f,)) * k
            elif _bounds_nonneg(-f):
                if k % 2:
                    unk = -unk
                out = out + fn_raw("log", (-f,)) * k
            else:
                unk = unk * power(f, k)
        if unk.const() != 1:
            out = out + fn_raw("log", (unk,))
    return out


def _f_arctan2(y, x):
    if zero_test(y):
        if _bounds_nonneg(x):
            return ZERO
        if _bounds_nonneg(-x):
            return PI
    if zero_test(x):
        if _bounds_nonneg(y):
            return PI * F(1, 2)
        if _bounds_nonneg(-y):
            return PI * F(-1, 2)
    # scale by positive common content
    both = [v for v in (y, x) if v.d]
    cs = [content(v) for v in both]
    if len(cs) == 2:
        g = {}
        m0, m1 = dict(cs[0][1]), dict(cs[1][1])
        for a in set(m0) | set(m1):
            e = min(m0.get(a, 0), m1.get(a, 0))
            at = ATOMS[a]
            if e and (at.kind in ("base", "prime") or _atom_nonneg(at, 1)):
                g[a] = e
        q = abs(cs[0][0])
        scale = Expr(
            {tuple(sorted((a, -e) for a, e in g.items())): 1 / q}
        )
        y = y * scale
        x = x * scale
    for other in _BYNAME.get("arctan2", ()):
        oy, ox = other.args
        if (bool(oy.d), bool(ox.d)) != (bool(y.d), bool(x.d)):
            continue
        try:
            if zero_test(oy * x - ox * y):
                r = (x * ox + y * oy)
                if _definitely_nonneg(r):
                    return atom_expr(other)
        except AlgebraLimit:
            pass
    return fn_raw("arctan2", (y, x))


def _definitely_nonneg(r):
    if _bounds_nonneg(r):
        return True
    try:
        rr = reduced(r)
        # reduced multiplies by positive powers of bases only when bases are
        # the only negative atoms
        for m in r.d:
            for a, e in m:
                if e < 0 and ATOMS[a].kind == "fn":
                    return False
        c, mono, prim = content(rr)
        if c < 0:
            return False
        if not all(_atom_nonneg(ATOMS[a], e) for a, e in mono):
            return False
        for f, k in (_factor_prim(prim) if len(prim.d) > 1 else []):
            if k % 2 and not _bounds_nonneg(f):
                return False
        return True
    except AlgebraLimit:
        return False


def _f_arccos(x):
    c = x.const()
    if c == 0:
        return PI * F(1, 2)
    if c == 1:
        return ZERO
    if c == -1:
        return PI
    if len(x.d) == 1:
        ((m, cc),) = x.d.items()
        if len(m) == 1 and m[0][1] == 1 and cc == 1:
            at = ATOMS[m[0][0]]
            if at.kind == "fn" and at.name == "cos":
                b = bounds(at.args[0])
                if b[0] is not None and b[0] >= 0 and b[1] is not None and b[1] <= F(31416, 10000):
                    return at.args[0]
    return fn_raw("arccos", (x,))


def _f_arcsin(x):
    c = x.const()
    if c == 0:
        return ZERO
    if c == 1:
        return PI * F(1, 2)
    if x.d and _lead_negative(x):
        return -fn_raw("arcsin", (-x,))
    return fn_raw("arcsin", (x,))


def _f_arctan(x):
    if x.const() == 0:
        return ZERO
    if x.const() == 1:
        return PI * F(1, 4)
    if x.d and _lead_negative(x):
        return -_f_arctan(-x)
    # arctan(z) as arctan2(z, 1)
    return _f_arctan2(x, ONE)


def _f_tan(x):
    s, c = sincos(x * 2)
    return s / (ONE + c)


def switch(c, a, b):
    c, a, b = ex(c), ex(a), ex(b)
    k = c.const()
    if k is not None:
        return a if k else b
    return b + c * (a - b)


def _f_min(a, b):
    return switch(gt0(b - a), a, b)


def _f_max(a, b):
    return switch(gt0(a - b), a, b)


def _f_mod(x, p):
    return x - p * floor(x / p)


def _f_sign(x):
    return gt0(x) - gt0(-x)


def eq0(x):
    x = ex(x)
    if zero_test(x):
        return ONE
    c = x.const()
    if c is not None:
        return ZERO
    lo, hi = bounds(x)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return ZERO
    if STRICT[0]:
        return ONE - gt0(x) - gt0(-x) + gt0(x) * gt0(-x)
    if GATE[0] is not None and GATE[0](x) is not None:
        return ZERO
    q, mono, prim = content(x)
    keep = tuple(sorted((a, 1) for a, e in mono if e > 0 and not _nonzero(ATOMS[a])))
    y = _clear_pos(Expr({keep: F(1)}) * prim)
    if _lead_negative(y):
        y = -y
    return fn_raw("eq0", (y,))


def _nonzero(at):
    """Atoms that are never zero."""
    if at.kind == "prime" or at.kind == "fn" and at.name == "exp":
        return True
    if at.kind == "sym":
        lo, hi = at.lo, at.hi
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return True
        return at.name == "pi" or "open" in at.flags or "pos" in at.flags
    return False


_EQ = {}


def fn_key(tag, x):
    a = _fn_atom(tag, (x,))
    return a.id


def sym_bool(name):
    return sym(name, lo=0, hi=1, flags=("bool",))


_FNTAB = {
    "let": lambda x: let(x),
    "abs": _lift(_f_abs),
    "exp": _lift(_f_exp),
    "log": _lift(_f_log),
    "arctan2": _lift(_f_arctan2),
    "arccos": _lift(_f_arccos),
    "arcsin": _lift(_f_arcsin),
    "arctan": _lift(_f_arctan),
    "tan": _lift(_f_tan),
    "sin": lambda x: sincos(x)[0],
    "cos": lambda x: sincos(x)[1],
    "sqrt": lambda x: power(x, F(1, 2)),
    "min": _f_min,
    "max": _f_max,
    "mod": _f_mod,
    "floor": floor,
    "ceil": lambda x: -floor(-x),
    "sign": _f_sign,
    "keps": lambda M, e: kepler(M, e)[0],
    "kepc": lambda M, e: kepler(M, e)[1],
}


LET = 10
_LETS = {}


def let(x):
    """Name a large number inside a partition (value numbering): operations
    on it stay small and comparisons go through random interpretation."""
    if GATE[0] is None or len(x.d) <= LET:
        return x
    from . import rint

    env = rint.BASE[0]
    try:
        v, mag = env.value(x)
    except (rint.Invalid, ZeroDivisionError, OverflowError, ValueError):
        return x
    k = (env.seed, rint.mp.nstr(v, 45), tuple(sorted((n, str(w)) for n, w in env.given.items())))
    for at in _LETS.get(k, ()):
        if at.args[0].key() == x.key() or rint.prob_equal(atom_expr(at), x):
            return atom_expr(at)
    at = Atom("fn", "let", (x,))
    _LETS.setdefault(k, []).append(at)
    return atom_expr(at)


# ---------------------------------------------------------------------------
# substitution and differentiation


def subs(x, mapping, _memo=None):
    """Replace symbols by name -> Expr throughout, renormalising."""
    if _memo is None:
        _memo = {}
    out = ZERO
    for m, c in x.d.items():
        t = ex(c)
        for a, e in m:
            t = t * power(_subs_atom(ATOMS[a], mapping, _memo), e)
        out = out + t
    return out


def _subs_atom(at, mapping, memo):
    r = memo.get(at.id)
    if r is not None:
        return r
    if at.kind == "sym":
        r = mapping.get(at.name)
        r = atom_expr(at) if r is None else ex(r)
    elif at.kind == "prime":
        r = atom_expr(at)
    elif at.kind == "base":
        p = subs(at.poly, mapping, memo)
        r = atom_expr(at) if p.key() == at.poly.key() else p
    else:
        na = [
            subs(z, mapping, memo) if isinstance(z, Expr) else z
            for z in at.args
        ]
        if all(
            (not isinstance(z, Expr)) or z.key() == w.key()
            for z, w in zip(at.args, na)
        ):
            r = atom_expr(at)
        elif at.name == "gt":
            r = gt0(na[0])
        elif at.name == "eq0":
            r = eq0(na[0])
        elif at.name in _FNTAB:
            r = _FNTAB[at.name](*na)
        else:
            r = fn_raw(at.name, na)
    r = let(r)
    memo[at.id] = r
    return r


class NotDifferentiable(Exception):
    pass


def diff(x, name, _memo=None):
    if _memo is None:
        _memo = {}
    out = ZERO
    for m, c in x.d.items():
        for i, (a, e) in enumerate(m):
            da = _diff_atom(ATOMS[a], name, _memo)
            if not da.d:
                continue
            rest = m[:i] + m[i + 1:]
            t = Expr({rest: c * F(e)})
            if e != 1:
                t = t * _reduce_mono(((a, _nf(F(e) - 1)),), F(1))
            out = out + t * da
    return out


def _diff_atom(at, name, memo):
    r = memo.get(at.id)
    if r is not None:
        return r
    if at.kind == "sym":
        r = ONE if at.name == name else ZERO
    elif at.kind == "prime":
        r = ZERO
    elif at.kind == "base":
        r = diff(at.poly, name, memo)
    else:
        r = _diff_fn(at, name, memo)
    r = let(r)
    memo[at.id] = r
    return r


def _diff_fn(at, name, memo):
    da = [
        diff(z, name, memo) if isinstance(z, Expr) else ZERO for z in at.args
    ]
    if not any(z.d for z in da):
        return ZERO
    n = at.name
    A = at.args
    if n == "let":
        return let(da[0])
    if n == "sin":
        return fn_raw("cos", A) * da[0]
    if n == "cos":
        return -fn_raw("sin", A) * da[0]
    if n == "exp":
        return atom_expr(at) * da[0]
    if n == "log":
        return da[0] / A[0]
    if n == "arccos":
        return -da[0] * power(ONE - A[0] * A[0], F(-1, 2))
    if n == "arcsin":
        return da[0] * power(ONE - A[0] * A[0], F(-1, 2))
    if n == "arctan":
        return da[0] / (ONE + A[0] * A[0])
    if n == "arctan2":
        y, x = A
        return (x * da[0] - y * da[1]) / (x * x + y * y)
    if n == "floor" or n in INDICATORS:
        return ZERO
    if n == "abs":
        return atom_expr(at) / A[0] * da[0]
    if n in ("keps", "kepc"):
        M, e = A
        s = fn_raw("keps", A)
        c = fn_raw("kepc", A)
        dfdM = power(ONE + e * c, 2) * power(ONE - e * e, F(-3, 2))
        dfde = (2 + e * c) * s * power(ONE - e * e, -1)
        df = dfdM * da[0] + dfde * da[1]
        return c * df if n == "keps" else -s * df
    raise NotDifferentiable(n)


def atoms_of(x, _seen=None):
    """All atoms reachable from x (recursively)."""
    seen = {} if _seen is None else _seen
    for m in x.d:
        for a, e in m:
            if a in seen:
                continue
            at = ATOMS[a]
            seen[a] = at
            if at.poly is not None:
                atoms_of(at.poly, seen)
            for z in at.args:
                if isinstance(z, Expr):
                    atoms_of(z, seen)
    return seen


def symbols_of(x):
    return {a.name for a in atoms_of(x).values() if a.kind == "sym"}


def evaluate(x, env, kep=None):
    """Numerical value (used for constants tables only)."""
    import math

    def at_val(at):
        if at.kind == "sym":
            if at.name == "pi":
                return math.pi
            return float(env[at.name])
        if at.kind == "prime":
            return float(at.name)
        if at.kind == "base":
            return evaluate(at.poly, env)
        a = [evaluate(z, env) for z in at.args]
        if at.name == "gt":
            return float(a[0] > 0)
        if at.name == "eq0":
            return float(a[0] == 0)
        if at.name in ("keps", "kepc"):
            M, e = a
            E = M
            for _ in range(200):
                E = E - (E - e * math.sin(E) - M) / (1 - e * math.cos(E))
            d = 1 - e * math.cos(E)
            return (math.sqrt(1 - e * e) * math.sin(E) / d
                    if at.name == "keps" else (math.cos(E) - e) / d)
        return {
            "sin": math.sin, "cos": math.cos, "exp": math.exp,
            "log": math.log, "abs": abs, "floor": math.floor,
            "arctan2": math.atan2, "arccos": math.acos,
            "arcsin": math.asin, "arctan": math.atan,
        }[at.name](*a)

    tot = 0.0
    for m, c in x.d.items():
        v = float(c)
        for a, e in m:
            v *= at_val(ATOMS[a]) ** float(e)
        tot += v
    return tot
