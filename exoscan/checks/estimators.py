"""Estimators: C35 (peaks), C36 (linear models) and C37 (period searches)."""

import contextlib
import itertools
from fractions import Fraction as F

import numpy as np

from .. import algebra as A
from .. import rint
from .. import tensor as tn
from ..harness import Fail, arr, eq, expect_raise, same, sc, show
from ..interp import Model
from ..models import Quantity
from ..tensor import T, Unsupported, araise
from . import check

ES = "estimators:"


def est(ip, name):
    return ip.getattr(ip.import_module("exoplanet.estimators"), name)


# ---- values known up to their order -------------------------------------------
def weak_orders(n):
    """All rankings of n values, ties included."""
    out = []
    for r in itertools.product(range(n), repeat=n):
        if set(r) == set(range(max(r) + 1)):
            out.append(r)
    return out


def ranked(ranks, base="p"):
    """Unknown positive values in the given order."""
    lv = [A.pos(base + "0")]
    for k in range(max(ranks)):
        lv.append(lv[-1] + A.pos("%sstep%d" % (base, k)))
    return [lv[r] for r in ranks]


class Order:
    """Installs the order of the known values as the oracle of argsort."""

    def __init__(self, ip, values=None):
        self.ip = ip

    def __enter__(self):
        self.old = self.ip.order_oracle
        self.ip.order_oracle = self.oracle
        return self

    def __exit__(self, *a):
        self.ip.order_oracle = self.old

    def oracle(self, t):
        import functools

        self.env = rint.Env("order")

        def cmp(i, j):
            d = t.data[i] - t.data[j]
            if d.is_zero():
                return 0
            if A.gt0(d).const() == 1:
                return 1
            if A.gt0(-d).const() == 1:
                return -1
            v = self.env.expr(A.ex(d))  # the partition of one sample point
            return (v > 0) - (v < 0)
        return sorted(range(t.data.size), key=functools.cmp_to_key(cmp))


def true_peaks(r):
    return [i for i in range(1, len(r) - 1) if r[i] > r[i - 1] and r[i] > r[i + 1]]


def parabola(f, p, i):
    """(log power, period, uncertainty) of the parabola through three samples."""
    x = f[i - 1:i + 2]
    y = [A.fn("log", v) for v in p[i - 1:i + 2]]
    d1 = (y[1] - y[0]) / (x[1] - x[0])
    d2 = (y[2] - y[1]) / (x[2] - x[1])
    c = (d2 - d1) / (x[2] - x[0])
    b = d1 - c * (x[0] + x[1])
    a = y[0] - b * x[0] - c * x[0] * x[0]
    c, b, a = (A.fn_raw("let", (q,)) for q in (c, b, a))
    f0 = -b / (2 * c)
    s2 = -1 / (2 * c)
    return a + b * f0 / 2, 1 / f0, A.power(s2, F(1, 2)) / (f0 * f0)


def number(x, what):
    if isinstance(x, (int, F)):
        return A.ex(x)
    t = tn.lift(x)
    if t.data.size != 1:
        raise Fail("%s has %d elements" % (what, t.data.size))
    return t.data.item() if not t.ndim else t.data.flat[0]


def index_of(x):
    c = number(x, "the index").const()
    if c is None or c.denominator != 1:
        raise Fail("the index is %s" % show(number(x, "the index")))
    return int(c)


KEYS = ("index", "log_power", "period", "period_uncert")


def check_peaks(ip, peaks, ranks, f, p, limit):
    """The list of peaks is the highest ones, in order, with fitted values."""
    peaks = list(ip.iterate(peaks))
    true = true_peaks(ranks)
    want = sorted((ranks[i] for i in true), reverse=True)[:max(1, limit)]
    got = []
    for d in peaks:
        i = index_of(ip.getitem(d, "index"))
        if i not in true:
            raise Fail("sample %d is reported as a peak of the order %s, the peaks are at %s" % (i, list(ranks), true))
        if i in got:
            raise Fail("the peak at sample %d is reported twice" % i)
        got.append(i)
    if [ranks[i] for i in got] != want:
        raise Fail("peaks at %s are reported for the order %s, of the peaks at %s (limit %d)" % (got, list(ranks), true, limit))
    for d, i in zip(peaks, got):
        lp, per, unc = parabola(f, p, i)
        same(number(ip.getitem(d, "period"), "the period"), per, "the period")
        same(number(ip.getitem(d, "log_power"), "the log power"), lp, "the log power")
        same(number(ip.getitem(d, "period_uncert"), "the uncertainty"), unc, "the uncertainty")


def frequencies(n, down=False):
    f = [A.pos("f0")]
    for k in range(n - 1):
        f.append(f[-1] + A.pos("df%d" % k))
    return f[::-1] if down else f


def patterns(thorough):
    out = []
    for n in (3, 4):
        out += weak_orders(n)
    five = weak_orders(5)
    out += five if thorough else five[::3]
    # several separated peaks, in any order, with equal ones
    for a, b, c in itertools.product((1, 2, 3), repeat=3):
        if set((a, b, c)) in ({1, 2, 3}, {1, 2}, {1}):
            out.append((0, a, 0, b, 0, c, 0))
    out += [(0, 1, 1, 0, 2, 1, 0), (3, 2, 1, 0), (0, 1, 2, 3), (0, 2, 1, 3, 0, 4, 1, 2, 0)]
    return out


@check("C35")
def c35(ck):
    ck.rule(
        "The peak finder is interpreted on symbolic powers and frequencies "
        "for every order (ties included) of up to five powers and for several "
        "longer ones, increasing and decreasing frequencies and each mode; "
        "indices are compared with the strict local maxima and the fitted "
        "values with the parabola through the log power, as identities."
    )
    ip = ck.ip()

    def verify(ranks, down, mp):
        n = len(ranks)
        f, p = frequencies(n, down), ranked(ranks)
        fn = est(ip, "find_peaks")
        kw = {} if mp == "default" else {"max_peaks": mp}
        k = 0 if mp == "default" else mp
        with Order(ip):
            go = lambda: ip.call(fn, [arr(f, "np"), arr(p, "np")], dict(kw))
            if not k and not true_peaks(ranks):
                expect_raise(ip, go, ValueError, "a periodogram without peaks")
                return
            r = go()
        if not k:
            check_peaks(ip, [r], ranks, f, p, 1)
        else:
            if isinstance(r, dict):
                raise Fail("a single peak is returned instead of a list")
            check_peaks(ip, r, ranks, f, p, k)

    for r in patterns(ck.thorough):
        name = "".join(map(str, r))
        few = len(true_peaks(r))
        modes = ["default", 1, 2] if few < 2 else ["default", 0, 1, 2, 3, 5]
        for mp in modes:
            for down in ((False, True) if few else (False,)):
                ck.ob("order %s, max_peaks %s, %s frequency" % (name, mp, "falling" if down else "rising"),
                      lambda a=(r, down, mp): verify(*a), ip, ES + "find_peaks", "find_peaks")


# ---- C36 ---------------------------------------------------------------------
def unit(ip, name):
    return ip.getattr(ip.import_module("astropy.units") if False else ip.import_module("exoplanet.estimators").vars["u"], name)


def quantity(ip, t, u):
    return Quantity(tn.lift(t), u)


def form(ip, values, how, u, alt, f):
    """values (in the plain unit) as a plain array, list or tagged quantity;
    f is the size of the alternative unit in plain units."""
    if how == "plain":
        return arr(values, "np")
    if how == "list":
        return [sc(v, "py") for v in values]
    if how == "scalar":
        return sc(values[0], "py")
    if how == "quantity":
        return Quantity(arr(values, "np"), u)
    if how == "qscalar":
        return Quantity(sc(values[0] / f, "np"), alt)
    return Quantity(arr([v / f for v in values], "np"), alt)


def linear_model(P, t0, x, y, s):
    """Design matrix and weights of the stated model."""
    rows = []
    for t in x:
        row = []
        for j, p in enumerate(P):
            if t0 is not None:
                # in phase with the transit: velocity falls through zero
                row.append(-A.sincos(2 * A.PI * (t - t0[j]) / p)[0])
            else:
                si, co = A.sincos(2 * A.PI * t / p)
                row += [si, co]
        rows.append(row + [A.ONE])
    return rows


def solve_weighted(D, y, s):
    from ..models import cramer

    n, m = len(D[0]), len(D)
    w = [A.ONE if s is None else A.power(s[k], -2) for k in range(m)]
    M = [[sum((w[k] * D[k][i] * D[k][j] for k in range(m)), A.ZERO) for j in range(n)] for i in range(n)]
    v = [sum((w[k] * D[k][i] * y[k] for k in range(m)), A.ZERO) for i in range(n)]
    return cramer(M, v)


@check("C36")
def c36(ck):
    ck.rule(
        "The estimators are interpreted on symbolic observations, periods, "
        "transit times and uncertainties given as plain numbers, lists and "
        "quantities in several units; the amplitudes are compared with the "
        "exact solution of the weighted normal equations of the stated model "
        "by random interpretation."
    )
    ip = ck.ip()

    def data(m, n_obs):
        P = [A.pos("P%d" % j) for j in range(m)]
        t0 = [A.sym("t0_%d" % j) for j in range(m)]
        x = [A.sym("x%d" % k) for k in range(n_obs)]
        y = [A.sym("y%d" % k) for k in range(n_obs)]
        s = [A.pos("s%d" % k) for k in range(n_obs)]
        return P, t0, x, y, s

    def arguments(m, with_t0, err, forms):
        n_obs = (m if with_t0 else 2 * m) + 2
        P, t0, x, y, s = data(m, n_obs)
        fp, fx, fy, fs, ft = forms
        U = lambda n: unit(ip, n)
        day, ms = U("day"), ip.binop("truediv", U("m"), U("s"))
        hour, kms = U("hour"), ip.binop("truediv", U("km"), U("s"))
        h = F(1, 24)
        kw = {}
        args = [form(ip, P, fp, day, hour, h), form(ip, x, fx, day, hour, h), form(ip, y, fy, ms, kms, 1000)]
        ss = s
        if err == "none":
            ss = None
        elif err == "scalar":
            ss = [s[0]] * n_obs
            kw["yerr"] = sc(s[0], "py")
        elif err == "qscalar":
            ss = [s[0]] * n_obs
            kw["yerr"] = form(ip, s, "qscalar", ms, kms, 1000)
        else:
            kw["yerr"] = form(ip, s, fs, ms, kms, 1000)
        if with_t0:
            kw["t0s"] = form(ip, t0, ft, day, hour, h)
        w = solve_weighted(linear_model(P, t0 if with_t0 else None, x, y, ss), y, ss)
        if with_t0:
            K = w[:m]
        else:
            K = [A.power(w[2 * j] ** 2 + w[2 * j + 1] ** 2, F(1, 2)) for j in range(m)]
        return P, args, kw, K

    def semi(m, with_t0, err, forms):
        P, args, kw, K = arguments(m, with_t0, err, forms)
        r = ip.call(est(ip, "estimate_semi_amplitude"), args, kw)
        if isinstance(r, Quantity):
            r = r.conv(ip.binop("truediv", unit(ip, "m"), unit(ip, "s")))
        r = tn.lift(r)
        if r.data.shape != (m,):
            raise Fail("the amplitudes have shape %s for %d planets" % (r.data.shape, m))
        for g, w in zip(r.data, K):
            same(g, w, "the semi-amplitude")

    def mass(m, with_t0, err, forms, star):
        P, args, kw, K = arguments(m, with_t0, err, forms)
        M = A.ONE
        if star != "default":
            M = A.pos("ms")
            if star == "plain":
                kw["m_star"] = sc(M, "py")
            elif star == "quantity":
                kw["m_star"] = Quantity(sc(M, "np"), unit(ip, "M_sun"))
            else:
                f = unit(ip, "M_sun").factor(unit(ip, "kg"))
                kw["m_star"] = Quantity(sc(M * f, "np"), unit(ip, "kg"))
        r = ip.call(est(ip, "estimate_minimum_mass"), args, kw)
        if not isinstance(r, Quantity):
            raise Fail("the mass is returned without a unit")
        r = tn.lift(r.conv(unit(ip, "M_jupiter")))
        if r.data.shape != (m,):
            raise Fail("the masses have shape %s for %d planets" % (r.data.shape, m))
        year = unit(ip, "day").factor(unit(ip, "year"))
        for g, k, p in zip(r.data, K, P):
            same(g, k / F("28.4329") * A.power(M, F(2, 3)) * A.power(p * year, F(1, 3)), "the minimum mass")

    plain = ("plain",) * 5
    forms = [plain, ("list",) * 5, ("quantity",) * 5, ("other",) * 5,
             ("other", "plain", "plain", "plain", "plain"), ("plain", "other", "plain", "plain", "plain"),
             ("plain", "plain", "other", "plain", "plain"), ("plain", "plain", "plain", "other", "plain"),
             ("plain", "plain", "plain", "plain", "other")]
    one = [("scalar",) + plain[1:4] + ("scalar",), ("qscalar",) + plain[1:4] + ("qscalar",)]
    for with_t0 in (True, False):
        for err in ("none", "array", "scalar", "qscalar"):
            for fm in forms + one:
                if fm[3] != "plain" and err != "array" and len(set(fm)) != 1:
                    continue
                if fm[4] == "other" and not with_t0 and len(set(fm)) != 1:
                    continue
                if err in ("scalar", "qscalar") and fm not in (plain, forms[3]):
                    continue
                for m in (1, 2):
                    if m == 2 and "scalar" in fm[0]:
                        continue
                    lab = "%d planet%s, %s, yerr %s, %s" % (m, "s" if m > 1 else "", "t0s" if with_t0 else "no t0s", err, "/".join(fm))
                    ck.ob("semi-amplitude [%s]" % lab, lambda a=(m, with_t0, err, fm): semi(*a), ip, ES + "estimate_semi_amplitude", "semi-amplitude")
                    for star in ("default", "plain", "quantity", "kg"):
                        if star in ("default", "plain") or fm == plain:
                            if m == 2 and star not in ("plain",):
                                continue
                            ck.ob("minimum mass [%s, star %s]" % (lab, star), lambda a=(m, with_t0, err, fm, star): mass(*a), ip,
                                  ES + "estimate_minimum_mass", "minimum mass")


# ---- C37 ---------------------------------------------------------------------
class Search:
    """An arbitrary periodogram: records its arguments, returns given arrays."""

    INIT = {"LombScargle": ("t", "y", "dy", "fit_mean", "center_data", "nterms", "normalization"),
            "BoxLeastSquares": ("t", "y", "dy")}
    METHODS = {
        "LombScargle": {
            "autopower": (("method", "method_kwds", "normalization", "samples_per_peak", "nyquist_factor", "minimum_frequency",
                           "maximum_frequency"), {"method": "auto", "samples_per_peak": 5, "nyquist_factor": 5}),
            "autofrequency": (("samples_per_peak", "nyquist_factor", "minimum_frequency", "maximum_frequency", "return_freq_limits"),
                              {"samples_per_peak": 5, "nyquist_factor": 5, "return_freq_limits": False}),
            "power": (("frequency", "normalization", "method", "assume_regular_frequency", "method_kwds"),
                      {"method": "auto", "assume_regular_frequency": False}),
        },
        "BoxLeastSquares": {
            "autoperiod": (("duration", "minimum_period", "maximum_period", "minimum_n_transit", "frequency_factor"),
                           {"minimum_n_transit": 3, "frequency_factor": 1}),
            "autopower": (("duration", "objective", "method", "oversample", "minimum_n_transit", "minimum_period", "maximum_period",
                           "frequency_factor"), {"minimum_n_transit": 3, "frequency_factor": 1, "oversample": 10}),
            "power": (("period", "duration", "objective", "method", "oversample"), {"oversample": 10}),
        },
    }

    def __init__(self, kind, results):
        self.kind = kind
        self.results = results
        self.made = []
        self.calls = []

    def bind(self, what, names, defaults, a, k):
        if len(a) > len(names):
            araise(TypeError, "%s() takes fewer arguments" % what)
        out = {n: None for n in names}
        out.update(defaults)
        seen = set(names[:len(a)])
        out.update(zip(names, a))
        for n, v in k.items():
            if n not in out or n in seen:
                araise(TypeError, "%s() got an unexpected or repeated keyword argument %r" % (what, n))
            out[n] = v
        return out

    def hook(self, *a, **k):
        self.made.append(self.bind(self.kind, self.INIT[self.kind], {}, a, k))
        return self

    def abs_getattr(self, ip, name):
        sig = self.METHODS[self.kind].get(name)
        if sig is None:
            araise(AttributeError, "%s has no attribute %r" % (self.kind, name))

        def f(*a, **k):
            b = self.bind(name, sig[0], sig[1], a, k)
            self.calls.append((name, b))
            return self.results(name, b)
        return Model(f, name)


class Results:
    """BoxLeastSquaresResults: a dictionary with attribute access."""

    def __init__(self, d):
        self.d = d

    def abs_getattr(self, ip, name):
        if name in self.d:
            return self.d[name]
        if name in ("items", "keys", "values"):
            return Model(lambda: list(getattr(self.d, name)()), name)
        if name == "get":
            return Model(lambda k, x=None: self.d.get(k, x), name)
        araise(AttributeError, name)

    def abs_setattr(self, ip, name, v):
        self.d[name] = v

    def abs_getitem(self, ip, k):
        if k not in self.d:
            araise(KeyError, k)
        return self.d[k]

    def abs_setitem(self, ip, k, v):
        self.d[k] = v

    def abs_contains(self, ip, k):
        return k in self.d

    def abs_iter(self, ip):
        return iter(list(self.d))


class Hooks:
    def __init__(self, ip, **h):
        self.ip, self.h = ip, h

    def __enter__(self):
        self.old = dict(self.ip.hooks)
        self.ip.hooks.update({k.replace("__", "."): v for k, v in self.h.items()})

    def __exit__(self, *a):
        self.ip.hooks.clear()
        self.ip.hooks.update(self.old)


def value_is(got, want, what):
    if want is None or isinstance(want, (str, bool)):
        if not (got is want or (isinstance(got, str) and got == want)):
            raise Fail("%s is %r, not %r" % (what, got, want))
        return
    if got is None or isinstance(got, str):
        raise Fail("%s is %r" % (what, got))
    same_array(got, want, what)


def same_array(got, want, what):
    g, w = tn.lift(got), tn.lift(want)
    if g.data.shape != w.data.shape:
        raise Fail("%s has shape %s, not %s" % (what, g.data.shape, w.data.shape))
    for i, (a, b) in enumerate(zip(g.data.flat, w.data.flat)):
        same(a, b, "%s (element %d)" % (what, i) if w.data.size > 1 else what)


@check("C37")
def c37(ck):
    ck.rule(
        "Each estimator is interpreted with an arbitrary periodogram in place "
        "of the AstroPy one: the arguments that reach it, its result as it is "
        "returned and the values reported at the peak are compared as "
        "identities for every combination of the options, and the reported "
        "lags with the limits for every order of the autocorrelations."
    )
    ip = ck.ip()
    t = [A.sym("x%d" % k) for k in range(4)]
    y = [A.sym("y%d" % k) for k in range(4)]
    s = [A.pos("s%d" % k) for k in range(4)]

    # -- Lomb-Scargle
    LS = ES + "lomb_scargle_estimator"

    def lomb(ranks, err, lo, hi, filt, mp, extra, split=False):
        n = len(ranks)
        f, q = frequencies(n), ranked(ranks)
        kw = dict(extra)
        want = {"samples_per_peak": 5, "nyquist_factor": 5, "minimum_frequency": None, "maximum_frequency": None}
        want.update(extra)
        if lo:
            v = A.pos("pmin")
            kw["min_period"] = sc(v, "py")
            want["maximum_frequency"] = sc(1 / v, "py")
        if hi:
            v = A.pos("pmax")
            kw["max_period"] = sc(v, "py")
            want["minimum_frequency"] = sc(1 / v, "py")
        raw = q
        if filt:
            v = A.pos("pfilt")
            kw["filter_period"] = sc(v, "py")
            raw = [a * A.power(1 + A.power(1 / (v * b), 6), F(1, 2)) for a, b in zip(q, f)]
        if mp != "default":
            kw["max_peaks"] = mp
        if err:
            kw["yerr"] = arr(s, "np")
        asked = {}

        def results(name, b):
            if name == "autofrequency":
                asked.update(b)
                return arr(f, "np")
            asked.update({k: v for k, v in b.items() if k != "frequency"})
            p = arr([a * 4 for a in raw], "np")
            if name == "power":
                same_array(b["frequency"], arr(f, "np"), "the frequencies of the power")
                return p
            return (arr(f, "np"), p)
        st = Search("LombScargle", results)
        with Hooks(ip, LombScargle=st.hook), Order(ip):
            go = lambda: ip.call(est(ip, "lomb_scargle_estimator"), [arr(t, "np"), arr(y, "np")], kw)
            if mp == 0 and not true_peaks(ranks):
                expect_raise(ip, go, ValueError, "a periodogram without peaks")
                return
            with rint.Partition("filter") if filt else contextlib.nullcontext():
                r = go()
        if len(st.made) != 1:
            raise Fail("%d periodograms are made" % len(st.made))
        m = st.made[0]
        same_array(m["t"], arr(t, "np"), "the times of the periodogram")
        same_array(m["y"], arr(y, "np"), "the data of the periodogram")
        value_is(m["dy"], arr(s, "np") if err else None, "the uncertainty of the periodogram")
        for k, w in want.items():
            value_is(asked[k], w, "the option %s of the periodogram" % k)
        pf, pp = ip.iterate(ip.getitem(r, "periodogram"))
        same_array(pf, arr(f, "np"), "the frequencies returned")
        same_array(pp, arr(raw, "np"), "the power returned")
        if ip.getitem(r, "ls") is not st:
            raise Fail("the periodogram is not returned")
        pk = ip.getitem(r, "peaks")
        if mp == 0:
            pk = [pk]
        check_peaks(ip, pk, ranks, f, q, 2 if mp == "default" else mp)

    num = {"samples_per_peak": 7, "nyquist_factor": 3}
    fmin = {"minimum_frequency": sc(A.pos("fmin"), "py")}
    fmax = {"maximum_frequency": sc(A.pos("fmax"), "py")}
    for err in (False, True):
        for lo, hi in itertools.product((False, True), repeat=2):
            for filt in (False, True):
                for extra in ({}, num) + (() if lo else (fmax,)) + (() if hi else (dict(fmin, **num),)):
                    nm = "%s, %s, %s, %s, %s" % ("yerr" if err else "no yerr", "min_period" if lo else "no min_period",
                                                "max_period" if hi else "no max_period", "filter" if filt else "no filter",
                                                "+".join(extra) or "no extras")
                    ck.ob("Lomb-Scargle [%s]" % nm, lambda a=((0, 1, 0, 2, 0), err, lo, hi, filt, "default", extra): lomb(*a), ip, LS, "Lomb-Scargle")
    for mp in ("default", 0, 1, 2, 3):
        for r in ((0, 1, 2), (0, 1, 0), (0, 2, 0, 1, 0), (0, 1, 0, 2, 0, 3, 0), (2, 1, 3, 0)):
            for filt in (False, True):
                ck.ob("Lomb-Scargle peaks [order %s, max_peaks %s, %s]" % (r, mp, "filter" if filt else "no filter"),
                      lambda a=(r, False, False, False, filt, mp, {}): lomb(*a), ip, LS, "Lomb-Scargle")

    # -- box least squares
    BLS = ES + "bls_estimator"
    KEYS_BLS = ("power", "depth", "depth_err", "duration", "transit_time", "depth_snr", "log_likelihood")

    def box(ranks, err, opts, size):
        n = len(ranks)
        f, q = frequencies(n, down=True), ranked(ranks)
        kw = {}
        want = {"duration": sc(F(1, 5), "py"), "objective": None, "method": None, "oversample": 10, "minimum_period": None,
                "maximum_period": None, "minimum_n_transit": 3}
        for o in opts:
            if o in ("min_period", "max_period", "minimum_period", "maximum_period"):
                v = sc(A.pos("lim_" + o), "py")
                full = {"min_period": "minimum_period", "max_period": "maximum_period"}.get(o, o)
            elif o == "durations":
                v, full, o = arr([A.pos("dur0"), A.pos("dur1")], "np"), "duration", "duration"
            elif o == "duration":
                v, full = sc(A.pos("dur"), "py"), o
            elif o in ("objective", "method"):
                v, full = {"objective": "snr", "method": "slow"}[o], o
            elif o == "oversample":
                v, full = 7, o
            elif o == "minimum_n_transit":
                v, full = 2, o
            else:
                v, full = sc(A.pos("factor"), "py"), o
            kw[o] = v
            want[full] = v
        if err:
            kw["yerr"] = arr(s, "np")
        cols = {k: [A.sym("%s%d" % (k, i)) for i in range(n)] for k in KEYS_BLS if k != "power"}
        asked = {}
        factors = []

        def results(name, b):
            if name == "autoperiod":
                ff = tn.lift(b["frequency_factor"]).item().const()
                if ff is None:
                    asked.update(b)
                    return arr([1 / v for v in f], "np")
                factors.append(ff)
                asked.update(b)
                k = -(-size // ff)
                return arr([A.pos("per%d" % i) for i in range(int(k))], "np")
            asked.update({k: v for k, v in b.items() if k != "period"})
            d = {"objective": "likelihood", "period": arr([1 / v for v in f], "np"), "power": arr(q, "np")}
            for k, v in cols.items():
                d[k] = arr(v, "np")
            return Results(d)
        st = Search("BoxLeastSquares", results)
        with Hooks(ip, BoxLeastSquares=st.hook), Order(ip):
            r = ip.call(est(ip, "bls_estimator"), [arr(t, "np"), arr(y, "np")], kw)
        if len(st.made) != 1:
            raise Fail("%d periodograms are made" % len(st.made))
        m = st.made[0]
        bt = tn.lift(m["t"])
        if bt.data.shape != (4,):
            raise Fail("the times of the search have shape %s" % (bt.data.shape,))
        shift = t[0] - bt.data[0]
        for a, b in zip(t, bt.data):
            same(a - b, shift, "the shift of the times")
        same_array(m["y"], arr(y, "np"), "the data of the search")
        value_is(m["dy"], arr(s, "np") if err else None, "the uncertainty of the search")
        for k, w in want.items():
            value_is(asked[k], w, "the option %s of the search" % k)
        if "frequency_factor" in opts:
            same_array(asked["frequency_factor"], kw["frequency_factor"], "the frequency factor")
        else:
            ff = tn.lift(asked["frequency_factor"]).item().const()
            if ff is None or -(-size // ff) > 4:
                raise Fail("the frequency factor %s gives more periods than there are data" % ff)
        res = ip.getitem(r, "bls")
        full = {"transit_time": [v + shift for v in cols["transit_time"]]}
        full["period"], full["power"] = [1 / v for v in f], q
        for k in cols:
            full.setdefault(k, cols[k])
        for k, v in full.items():
            same_array(ip.getattr(res, k), arr(v, "np"), "the %s returned" % k)
        peaks = list(ip.iterate(ip.getitem(r, "peaks")))
        check_peaks(ip, peaks, ranks, f, q, 1)
        info = ip.getitem(r, "peak_info")
        if not peaks:
            if info is not None:
                raise Fail("information about a peak is returned without a peak")
            return
        i = index_of(ip.getitem(peaks[0], "index"))
        for k, v in full.items():
            same(number(ip.getitem(info, k), k), v[i], "the %s at the peak" % k)

    opts = ["min_period", "max_period", "duration", "objective", "method", "oversample", "minimum_n_transit", "frequency_factor"]
    combos = [()] + [(o,) for o in opts] + list(itertools.combinations(opts, 2)) + [tuple(opts)]
    combos += [("minimum_period",), ("maximum_period",), ("minimum_period", "maximum_period"), ("minimum_period", "max_period"), ("durations",),
               ("durations", "min_period", "max_period")]
    for err in (False, True):
        for o in combos:
            for size in (3, 20) if len(o) < 2 else (20,):
                ck.ob("box [%s, %s, %d periods]" % ("yerr" if err else "no yerr", "+".join(o) or "defaults", size),
                      lambda a=((0, 1, 0, 2, 0), err, o, size): box(*a), ip, BLS, "box search")
    for r in ((0, 1, 0), (0, 1, 2), (2, 1, 0), (0, 3, 1, 2, 0), (0, 2, 1, 3, 0), (0, 1, 1, 2, 0), (0, 0, 0)):
        ck.ob("box peaks [order %s]" % (r,), lambda a=(r, False, (), 3): box(*a), ip, BLS, "box search")

    # -- autocorrelation
    ACF = ES + "autocorr_estimator"

    def acf(ranks, times, lo, hi, over, smooth, err):
        """The lags are known numbers, the autocorrelations are known by
        their order."""
        kw = {}
        step = min(b - a for a, b in zip(times, times[1:]))
        dx = step / F(over or 2)
        n = len(ranks)
        if lo is not None:
            kw["min_period"] = sc(lo, "py")
        if hi is not None:
            kw["max_period"] = sc(hi, "py")
        if over is not None:
            kw["oversample"] = sc(over, "py")
        if smooth is not None:
            kw["smooth"] = sc(smooth, "py")
        if err:
            kw["yerr"] = arr(s[:1] * len(times), "np")
        if (max(times) - min(times)) / dx != n:
            raise Unsupported("the grid of this obligation")
        lo_, hi_ = (step if lo is None else lo), (max(times) - min(times) if hi is None else hi)
        vals = ranked(ranks)
        yy = [A.sym("yy%d" % k) for k in range(n)]
        seen = {}
        ys = arr([A.sym("y%d" % k) for k in range(len(times))], "np")

        def interp(x, xp, fp, **k):
            if k:
                raise Unsupported("options of interp")
            same_array(x, arr([min(times) + k * dx for k in range(n)], "np"), "the grid of times")
            same_array(xp, arr(times, "np"), "the times interpolated")
            same_array(fp, ys, "the data interpolated")
            seen["interp"] = True
            return arr(yy, "np")

        def fft(x, n=None, **k):
            n = tn.lift(x).data.shape[0] if n is None else index_of(n)
            return arr([A.sym("ft%d" % k) for k in range(n)], "np")

        def gaussian(x, sigma, **k):
            same(number(sigma, "the width"), A.ex((2 if smooth is None else smooth) * lo_ / dx), "the smoothing width in samples")
            if tn.lift(x).data.shape != (n,):
                raise Fail("the autocorrelation has shape %s" % (tn.lift(x).data.shape,))
            return arr(vals, "np")

        with Hooks(ip, interp=interp, fft__fft=fft, fft__ifft=fft, fft__rfft=fft, fft__irfft=fft, gaussian_filter=gaussian), Order(ip):
            r = ip.call(est(ip, "autocorr_estimator"), [arr(times, "np"), ys], kw)
        tau, ac = ip.iterate(ip.getitem(r, "autocorr"))
        same_array(tau, arr([k * dx for k in range(n)], "np"), "the lags returned")
        same_array(ac, arr(vals, "np"), "the autocorrelations returned")
        peaks = list(ip.iterate(ip.getitem(r, "peaks")))
        if len(peaks) > 1:
            raise Fail("%d periods are reported" % len(peaks))
        cand = [i for i in true_peaks(ranks) if i * dx >= lo_]
        first = None
        if cand and cand[0] * dx <= hi_:
            first = cand[0]
            if len(cand) > 1 and ranks[cand[1]] > ranks[first]:
                first = cand[1]
        if first is not None and first * dx > hi_:
            first = None
        if first is None:
            if peaks:
                raise Fail("the period %s is reported; the limits are %s to %s and the peaks at the lags %s"
                           % (show(number(ip.getitem(peaks[0], "period"), "period")), lo_, hi_, [str(i * dx) for i in cand]))
            return
        if not peaks:
            raise Fail("no period is reported; the limits are %s to %s and the peaks at the lags %s" % (lo_, hi_, [str(i * dx) for i in cand]))
        same(number(ip.getitem(peaks[0], "period"), "the period"), A.ex(first * dx), "the period")
        keys = set(peaks[0]) if isinstance(peaks[0], dict) else None
        if keys is not None and keys != {"period", "period_uncert"}:
            raise Fail("the peak has the entries %s, not the period and its uncertainty" % sorted(keys))

    T5 = [F(3, 10) + k for k in range(5)]
    U4 = [F(-1), F(0), F(2), F(3)]
    N5 = [F(-57, 10) + k for k in range(5)]
    rk = [(0,) * 8, (0, 1, 0, 0, 0, 0, 0, 0), (3, 0, 1, 0, 2, 0, 1, 0), (3, 0, 2, 0, 1, 0, 2, 0), (3, 1, 0, 2, 0, 1, 3, 0), (3, 2, 1, 0, 0, 1, 2, 0),
          (3, 0, 1, 1, 0, 2, 1, 0), (3, 0, 1, 0, 1, 0, 1, 0), (0, 1, 2, 3, 4, 5, 6, 7), (3, 0, 0, 1, 0, 0, 2, 0), (5, 0, 2, 0, 1, 0, 4, 3)]
    for r in rk:
        for lo, hi in itertools.product((None, F(1, 2), F(1), F(3, 2), F(9, 4)), (None, F(1), F(3, 2), F(2), F(3))):
            ck.ob("autocorrelation [order %s, limits %s to %s]" % ("".join(map(str, r)), lo, hi),
                  lambda a=(r, T5, lo, hi, None, None, False): acf(*a), ip, ACF, "autocorrelation")
        for times, lo, hi in itertools.product((U4, N5), (None, F(1)), (None, F(2))):
            ck.ob("autocorrelation [from %s, order %s, limits %s to %s]" % (times[0], "".join(map(str, r)), lo, hi),
                  lambda a=(r, times, lo, hi, None, None, False): acf(*a), ip, ACF, "autocorrelation")
    for times, over, n in ((T5, 1, 4), (T5, 3, 12), (U4, None, 8), (U4, 1, 4), ([F(5), F(6), F(8)], F(4), 12)):
        for smooth in (None, 1, F(1, 2)):
            for r in itertools.islice(itertools.cycle(rk), 3):
                rr = (r * 3)[:n]
                ck.ob("autocorrelation [%d times, oversample %s, smooth %s, order %s]" % (len(times), over, smooth, "".join(map(str, rr))),
                      lambda a=(rr, times, F(1), None, over, smooth, True): acf(*a), ip, ACF, "autocorrelation")
