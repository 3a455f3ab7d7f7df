"""Timing variations: C18, C19, C20 (and their part of C11)."""

import itertools
from fractions import Fraction as F

from .. import algebra as A
from .. import rint
from .. import tensor as tn
from ..harness import (
    Fail, arr, check_axes, eq, gen, same, same_t, sc, show,
)
from ..tensor import T, Unsupported
from . import check
from .common import *  # noqa: F401,F403

TTV = "orbits.ttv:TTVOrbit."

# transit numbers per planet; None = not given (0, 1, ..., N-1)
PATTERNS = {
    "full": [None, None],
    "gaps": [[0, 2, 3], [0, 1, 3]],
    "late": [[1, 2, 4], [0, 1]],
    "short": [[0, 1], [0, 1, 2, 3]],
    "one planet": [None],
    "one planet gaps": [[0, 3, 4, 7]],
    "three": [[0, 2], [0, 1, 2], [2, 3, 5]],
}
COUNTS = {"full": [3, 2], "one planet": [4], "gaps": [3, 3], "late": [3, 2],
          "short": [2, 4], "one planet gaps": [4], "three": [2, 3, 3]}


def small(name):
    """A symbol small compared with one period."""
    return A.sym(name, lo=F(-1, 10), hi=F(1, 10))


def numbers(pat):
    return [
        list(range(COUNTS[pat][j])) if p is None else list(p)
        for j, p in enumerate(PATTERNS[pat])
    ]


def observed(pat):
    """Increasing transit times: base + number * period + small offset."""
    out = []
    for j, inds in enumerate(numbers(pat)):
        P = A.pos("Q%d" % j)
        out.append([
            A.sym("T%d" % j) + P * i + P * small("d%d_%d" % (j, i))
            for i in inds
        ])
    return out


def lsq(x, y):
    """Ordinary least squares line: intercept, slope."""
    n = len(x)
    mx = F(sum(x), n)
    my = sum(y[1:], y[0]) / n
    sxx = sum((F(i) - mx) ** 2 for i in x)
    sxy = A.ZERO
    for i, v in zip(x, y):
        sxy = sxy + (F(i) - mx) * (v - my)
    slope = sxy / sxx
    return my - slope * mx, slope


def inds_arg(pat, kind):
    if all(p is None for p in PATTERNS[pat]):
        return {}
    r = []
    for p in numbers(pat):
        r.append(arr(p, kind, "int64") if kind != "list" else list(p))
    return {"transit_inds": r}


class Setup:
    """A timing-variation orbit and the specification of its ephemeris."""

    def __init__(self, ip, cfg):
        pat = cfg["pat"]
        self.nums = numbers(pat)
        n = self.n = len(self.nums)
        src = planet_args(n)
        kw = {}
        for k in ("Omega",):
            if cfg.get(k):
                kw[k] = src[k]
        if cfg.get("ecc"):
            kw["ecc"], kw["omega"] = src["ecc"], src["omega"]
        if cfg.get("incl"):
            kw[cfg["incl"]] = src[cfg["incl"]]
        if cfg.get("mp", True):
            kw["m_planet"] = src["m_planet"]
        for k in cfg.get("star", ("m_star", "r_star")):
            kw[k] = src[k]
        base = dict(kw)
        ek = cfg.get("kind", "pt")
        if cfg["mode"] == "times":
            self.tt = observed(pat)
            kw["transit_times"] = [arr(v, ek) for v in self.tt]
            ls = [lsq(x, y) for x, y in zip(self.nums, self.tt)]
            self.t0 = [z[0] for z in ls]
            self.ttv_period = [z[1] for z in ls]
            self.ttvs = [
                [v - (a + b * i) for i, v in zip(x, y)]
                for x, y, (a, b) in zip(self.nums, self.tt, ls)
            ]
            self.period = list(self.ttv_period)
            pd = cfg.get("period")
            if pd == "explicit":
                kw["period"] = src["period"]
                self.period = per_planet(src["period"], n)
            elif pd == "delta":
                dl = vec(n, "dlp")
                kw["delta_log_period"] = dl
                self.period = [
                    p * A.fn("exp", d) for p, d in zip(self.ttv_period, per_planet(dl, n))
                ]
        else:
            self.ttvs = [
                [A.pos("P%d" % j) * small("d%d_%d" % (j, i)) for i in x]
                for j, x in enumerate(self.nums)
            ]
            if cfg["mode"] == "zero":
                self.ttvs = [[A.ZERO for _ in x] for x in self.nums]
            kw["ttvs"] = [arr(v, ek) for v in self.ttvs]
            kw["period"] = src["period"]
            kw["t0"] = src["t0"]
            self.period = per_planet(src["period"], n)
            self.ttv_period = list(self.period)
            self.t0 = per_planet(src["t0"], n)
            self.tt = [
                [a + p * i + d for i, d in zip(x, v)]
                for x, v, a, p in zip(self.nums, self.ttvs, self.t0, self.period)
            ]
        kw.update(inds_arg(pat, cfg.get("inds", "pt")))
        if not cfg.get("given", True):
            kw.pop("transit_inds", None)
        self.kw = kw
        base["period"] = arr(self.period)
        base["t0"] = arr(self.t0)
        self.base = base
        self.all = []
        for j in range(n):
            got = dict(zip(self.nums[j], self.tt[j]))
            self.all.append([
                got.get(i, self.t0[j] + self.ttv_period[j] * i)
                for i in range(max(self.nums[j]) + 1)
            ])
        self.orbit = ip.call(kepler_class(ip, "TTVOrbit"), [], dict(kw))

    def times(self, kind="vec", tkind="np"):
        return times(kind, tkind)

    def model_time(self, j, t):
        """Listed transit nearest to t (boundaries midway)."""
        tts = self.all[j]
        edges = [(a + b) / 2 for a, b in zip(tts[:-1], tts[1:])]
        r = tts[0]
        for e, a, b in zip(edges, tts[:-1], tts[1:]):
            r = r + A.gt0(t - e) * (b - a)
        return r

    def warped(self, j, t):
        """The time at which the plain orbit is evaluated."""
        return self.t0[j] + t - self.model_time(j, t)


def windows(S, label="w", every=True):
    """Partitions of the time axis: one sample time in every window of
    nearest transits of every planet, off the transit on either side."""
    p = rint.partition_for([x for row in S.tt for x in row] + S.ttv_period + S.t0 + S.period, label)
    num = lambda x: p.env.value(A.ex(x))[0]
    for j in range(S.n):
        tts = [num(x) for x in S.all[j]]
        P = num(S.ttv_period[j])
        mids = [tts[0] - 2 * P] + [(a + b) / 2 for a, b in zip(tts[:-1], tts[1:])] + [tts[-1] + 2 * P]
        for k, tt in enumerate(tts):
            spots = [(mids[k] + 3 * tt) / 4, (mids[k + 1] * 3 + 2 * tt) / 5]
            if not every:
                spots = spots[k % 2:k % 2 + 1]
            for t in spots:
                yield rint.Partition(p.env.seed, t=t)


def boundaries(S, label="w"):
    """Partitions just before and just after every boundary between windows."""
    p = rint.partition_for([x for row in S.tt for x in row] + S.ttv_period + S.t0 + S.period, label)
    num = lambda x: p.env.value(A.ex(x))[0]
    for j in range(S.n):
        tts = [num(x) for x in S.all[j]]
        for a, b in zip(tts[:-1], tts[1:]):
            for f in ("-0.0002", "0.0002"):
                yield j, rint.Partition(p.env.seed, t=(a + b) / 2 + (b - a) * rint.mp.mpf(f))


def edges(S, half, label="w"):
    """Partitions on both sides of both ends of every transit window."""
    p = rint.partition_for([x for row in S.tt for x in row] + S.ttv_period + S.t0 + S.period + half, label)
    num = lambda x: p.env.value(A.ex(x))[0]
    for j in range(S.n):
        h = num(half[j])
        for k, tt in enumerate(S.all[j]):
            for f in ("-1.002", "-0.998", "0.998", "1.002") if k < 2 else ("-1.002", "0.998"):
                yield rint.Partition(p.env.seed, t=num(tt) + h * rint.mp.mpf(f))


def values(v, what):
    v = tn.lift(v)
    if v.ndim != 1:
        raise Fail("%s has %d dimensions" % (what, v.ndim))
    if v.axes[0].generic:
        raise Unsupported("%s has unknown length" % what)
    return list(v.data.flat)


def same_list(got, want, what):
    got = values(got, what)
    if len(got) != len(want):
        raise Fail("%s has %d entries, expected %d" % (what, len(got), len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        same(g, w, "%s[%d]" % (what, i))


@check("C18")
def c18(ck):
    ip = ck.ip()
    ck.rule(
        "TTV orbits are constructed abstractly for literal numbers of "
        "observed transits (2-4 per planet, 1-3 planets, contiguous and "
        "gapped transit numbers) at symbolic times or offsets; ephemeris, "
        "offsets, full transit list and periods are compared as normal forms "
        "with the least-squares line and its residuals."
    )
    dom = []
    for pat in PATTERNS:
        for mode in ("times", "ttvs"):
            for kind in ("pt", "np"):
                for period in ((None, "explicit", "delta") if mode == "times" else ("given",)):
                    for inds in (("pt", "np", "list") if pat == "gaps" else ("pt",)):
                        dom.append(dict(pat=pat, mode=mode, kind=kind, period=period, inds=inds))
    for c in dom:
        def go(c=c):
            S = Setup(ip, c)
            o = S.orbit
            n = S.n
            for nm, want in (("t0", S.t0), ("period", S.period), ("ttv_period", S.ttv_period)):
                for j, (g, w) in enumerate(zip(per_planet(att(ip, o, nm), n), want)):
                    same(g, w, "%s of planet %d" % (nm, j))
            for nm, want in (("transit_times", S.tt), ("ttvs", S.ttvs), ("all_transit_times", S.all)):
                v = list(ip.iterate(att(ip, o, nm)))
                if len(v) != n:
                    raise Fail("%s has %d entries for %d planets" % (nm, len(v), n))
                for j in range(n):
                    same_list(v[j], want[j], "%s of planet %d" % (nm, j))
            if c["mode"] == "times":
                # the offsets of a least-squares line sum to zero, also
                # weighted with the transit number
                for j, v in enumerate(ip.iterate(att(ip, o, "ttvs"))):
                    v = values(v, "ttvs")
                    same(sum(v[1:], v[0]), 0, "the sum of the offsets")
                    same(sum((i * x for i, x in zip(S.nums[j], v)), A.ZERO), 0, "the weighted sum of the offsets")
        ck.ob("ephemeris [%s]" % label(c), go, ip, TTV + "__init__", c["mode"])


METHODS = [
    ("get_%s_%s" % (b, q), {})
    for b in BODIES for q in ("position", "velocity", "acceleration")
] + [("get_radial_velocity", {}), ("get_radial_velocity", {"K": True}),
     ("get_relative_angles", {"parallax": True}), ("get_planet_position", {"parallax": True}),
     ("get_relative_position", {"parallax": True}), ("get_star_position", {"parallax": True}),
     ("get_relative_angles", {})]


def call_method(ip, o, nm, opts, t, n, **more):
    kw = dict(more)
    if opts.get("K"):
        kw["K"] = posv(n, "K")
    if opts.get("parallax"):
        kw["parallax"] = sc(A.pos("plx"))
    r = call(ip, o, nm, t, **kw)
    return list(r) if isinstance(r, (tuple, list)) else [r]


@check("C19")
def c19(ck):
    ip = ck.ip()
    ck.rule(
        "Every evaluation method of an abstract TTV orbit is compared with "
        "the same method of the plain Keplerian orbit of the same elements "
        "substituted at t0 plus the offset from the nearest listed transit, "
        "for scalar, vector and two-dimensional times; with zero offsets the "
        "two agree at the unchanged time."
    )
    cfgs = []
    for pat in PATTERNS:
        for mode in ("times", "ttvs"):
            cfgs.append(dict(pat=pat, mode=mode, ecc=mode == "ttvs" or pat == "gaps", incl="b", Omega=pat in ("gaps", "late")))
    if ck.thorough:
        cfgs += [dict(c, ecc=not c["ecc"], incl="incl", Omega=not c["Omega"]) for c in cfgs]
        cfgs += [dict(pat="gaps", mode="times", period=p, incl="b") for p in ("explicit", "delta")]
    else:
        cfgs += [dict(pat="gaps", mode="times", period="explicit", incl="b")]
    for c in cfgs:
        kinds = ("scalar", "vec", "nd") if c["pat"] in ("gaps", "one planet") or ck.thorough else ("vec",)
        for kind in kinds:
            for tk in ("np", "pt") if kind == "vec" else ("np",):
                for k, (nm, opts) in enumerate(METHODS):
                    if not ck.thorough:
                        if kind != "vec" and k not in (0, 5, 6, 9, 11):
                            continue
                        if kind == "vec" and c["pat"] not in ("gaps", "one planet") and k % 3 != cfgs.index(c) % 3:
                            continue
                    if tk == "pt" and nm not in ("get_relative_position", "get_radial_velocity"):
                        continue
                    def go(c=c, kind=kind, tk=tk, nm=nm, opts=opts):
                        S = Setup(ip, c)
                        for part in windows(S, every=ck.thorough):
                            with part:
                                S = Setup(ip, c)
                                k = build(ip, S.base)
                                t, ax = times(kind, tk)
                                got = call_method(ip, S.orbit, nm, opts, t, S.n)
                                ref = call_method(ip, k, nm, opts, t, S.n)
                                warp = [S.warped(j, A.sym("t")) for j in range(S.n)]
                                for q, (g, r) in enumerate(zip(got, ref)):
                                    g = columns(g, ax, S.n, nm)
                                    r = columns(r, ax, S.n, nm)
                                    for j in range(S.n):
                                        same(g[j], A.subs(r[j], {"t": warp[j]}), "%s component %d of planet %d" % (nm, q, j))
                    ck.ob("%s%s [%s,times=%s,%s]" % (nm, sorted(opts), label(c), kind, tk), go, ip, TTV + "_get_model_dt", "time warp")
    for pat in PATTERNS:
        for mode, period in (("times", None), ("times", "explicit"), ("times", "delta"), ("ttvs", None)):
            for kind in ("vec", "nd", "scalar") if ck.thorough or pat == "gaps" else ("vec",):
                def go(pat=pat, mode=mode, period=period, kind=kind):
                    c = dict(pat=pat, mode=mode, period=period, incl="b")
                    S = Setup(ip, c)
                    for j, part in boundaries(S, kind):
                        with part:
                            S = Setup(ip, c)
                            t, ax = times(kind)
                            got = columns(call(ip, S.orbit, "get_relative_position", t)[0], ax, S.n)
                            ref = columns(call(ip, build(ip, S.base), "get_relative_position", t)[0], ax, S.n)
                            same(got[j], A.subs(ref[j], {"t": S.warped(j, A.sym("t"))}), "the position next to a window boundary of planet %d" % j)
                ck.ob("boundaries [pat=%s,mode=%s,period=%s,times=%s]" % (pat, mode, period, kind), go, ip, TTV + "__init__", "window boundaries")
    for pat in ("full", "gaps", "one planet"):
        for ecc in (False, True):
            def go(pat=pat, ecc=ecc):
                S = Setup(ip, dict(pat=pat, mode="zero", ecc=ecc, incl="b", Omega=True))
                k = build(ip, S.base)
                t, ax = times()
                for part in windows(S, every=ck.thorough):
                    with part:
                        for nm, opts in METHODS:
                            for g, r in zip(call_method(ip, S.orbit, nm, opts, t, S.n), call_method(ip, k, nm, opts, t, S.n)):
                                for j, (x, y) in enumerate(zip(columns(g, ax, S.n), columns(r, ax, S.n))):
                                    same(x, y, "%s with zero offsets" % nm)
            ck.ob("zero offsets [%s,ecc=%s]" % (pat, ecc), go, ip, TTV + "_warp_times", "zero offsets")
    for pat in ("gaps", "one planet", "three"):
        for mode in ("times", "ttvs"):
            for texp in (None, "scalar", "vec"):
                def go(pat=pat, mode=mode, texp=texp):
                    c = dict(pat=pat, mode=mode, incl="b")
                    S = Setup(ip, c)
                    r = posv(S.n, "r")
                    te = A.pos("texp")
                    half = []
                    E = elements(ip, build(ip, S.base), S.n)
                    for j in range(S.n):
                        h = half_window(E, j, per_planet(r, S.n)[j])
                        half += [h] if not texp else [h + te / 2]
                    for part in edges(S, half):
                        with part:
                            in_transit_as_warped(ip, S, c, r, texp, te)
                ck.ob("in transit [%s,%s,texp=%s]" % (pat, mode, texp), go, ip, TTV + "_warp_times", "in transit")


def in_transit_as_warped(ip, S, c, r, texp, te):
    from .orbits import selection
    S = Setup(ip, c)
    t, ax = times()
    kw = {"r": r}
    if texp == "scalar":
        kw["texp"] = sc(te)
    elif texp:
        kw["texp"] = gen(te, ax[0])
    got = selection(call(ip, S.orbit, "in_transit", t, **kw), ax[0])
    E = elements(ip, build(ip, S.base), S.n)
    miss = A.ONE
    for j in range(S.n):
        one = in_window(E, j, per_planet(r, S.n)[j], te / 2 if texp else A.ZERO, S.warped(j, A.sym("t")) - S.t0[j])
        miss = miss * (1 - one)
    same(got, 1 - miss, "the selection of times")


def half_window(E, j, r):
    P, R = E["period"][j], E["r_star"][j]
    k = r / R
    si = A.sincos(E["incl"][j])[0]
    arg = (1 + k) ** 2 - E["b"][j] ** 2
    return P / (2 * A.PI) * A.fn("arcsin", R / (E["a"][j] * si) * A.power(arg, F(1, 2)))


def in_window(E, j, r, w, d):
    P = E["period"][j]
    h = half_window(E, j, r)
    dd = A.fn("mod", d + P / 2, P) - P / 2
    return (1 - A.gt0(-h - w - dd)) * (1 - A.gt0(dd - h - w))


def light_delay(ck):
    """C11 for orbits with timing variations."""
    from .orbits import check_delayed
    ip = ck.ip()
    for pat in ("gaps", "one planet") + (("full", "three") if ck.thorough else ()):
        for mode in ("times", "ttvs"):
            for body in BODIES + ("angles",):
                for plx in ((False, True) if body in ("relative", "angles") else (False,)):
                    def go(pat=pat, mode=mode, body=body, plx=plx):
                        c = dict(pat=pat, mode=mode, incl="b", Omega=True)
                        nm = "get_relative_angles" if body == "angles" else "get_%s_position" % body
                        zb = "relative" if body == "angles" else body
                        kw = {"parallax": sc(A.pos("plx"))} if plx else {}
                        for part in windows(Setup(ip, c), every=False):
                            with part:
                                S = Setup(ip, c)
                                t, ax = times()
                                got = [columns(x, ax, S.n) for x in call(ip, S.orbit, nm, t, light_delay=True, **kw)]
                                # undelayed motion about one transit, as a
                                # function of the offset from it
                                und = [columns(x, ax, S.n) for x in call(ip, S.orbit, nm, t, **kw)]
                                zs = columns(call(ip, S.orbit, "get_%s_position" % zb, t)[2], ax, S.n)
                                for q in range(len(und)):
                                    for j in range(S.n):
                                        check_delayed(got[q][j], und[q][j], zs[j], "%s component %d" % (nm, q))
                    ck.ob("timing variations: %s [%s,%s,parallax=%s]" % (body, pat, mode, plx), go, ip, "orbits.keplerian:KeplerianOrbit._get_retarded_position", "timing variations")


@check("C20")
def c20(ck):
    ip = ck.ip()
    ck.rule(
        "The function is interpreted with symbolic window, period and "
        "reference time; the returned vector must be a strictly increasing "
        "arithmetic enumeration t0 + n P over consecutive integers filtered by "
        "exactly the window, starting at or below and ending at or above it."
    )
    A.STRICT[0] = True
    f = ip.import_module("exoplanet.orbits.ttv").vars["compute_expected_transit_times"]
    for n in (None, 1, 2, 3):
        for kind in ("np", "list", "py"):
            if kind == "py" and n is not None or kind == "list" and n is None:
                continue
            def go(n=n, kind=kind):
                P, t0 = posv(n, "P"), vec(n, "t0_")
                a, b = A.sym("tmin"), A.sym("tmax")
                if kind == "list":
                    args = [tn.lift(sc(a, "py")), sc(b, "py"), [sc(x, "py") for x in per_planet(P, n)], [sc(x, "py") for x in per_planet(t0, n)]]
                else:
                    cv = lambda x: T(x.data, x.axes, kind, x.dtype)
                    args = [sc(a, "py"), sc(b, "py"), cv(P), cv(t0)]
                r = ip.call(f, args)
                out = list(ip.iterate(r))
                m = 1 if n is None else n
                if len(out) != m:
                    raise Fail("%d arrays returned for %d planets" % (len(out), m))
                for j in range(m):
                    enumerated(out[j], per_planet(P, n)[j], per_planet(t0, n)[j], a, b, "transit times of planet %d" % j)
            ck.ob("window [n=%s,%s]" % (n, kind), go, ip, "orbits.ttv:compute_expected_transit_times", "window")


def enumerated(v, P, t0, a, b, what):
    v = tn.lift(v)
    if v.ndim != 1:
        raise Fail("%s have %d dimensions" % (what, v.ndim))
    ax = v.axes[0]
    sel = A.ONE
    if ax.parent is not None:
        sel = ax.sel[0] if isinstance(ax.sel, (list, tuple)) else ax.sel
        base = ax.parent
    else:
        base = ax
    if base.n is not None:
        raise Unsupported("a literal number of transits")
    i = A.sym("i_%s" % (base.name or base.id), lo=0, flags=("int",))
    e = v.data.flat[0]
    # e(i) = t0 + (first + i) P with integer first
    step = A.subs(e, {i_name(base): i + 1}) - e
    same(step, P, "the step between %s" % what)
    first = (A.subs(e, {i_name(base): A.ZERO}) - t0) / P
    if not A.equal(A.floor(first), first):
        # integer-valued by random interpretation
        if not eq(A.floor(first), first):
            raise Fail("%s are not at whole numbers of periods: first number %s" % (what, show(first)))
    last = first + base.length - 1
    numbers_in_window(i_name(base), first, last, P, t0, a, b, sel, what)


def i_name(ax):
    return "i_%s" % (ax.name or ax.id)


def numbers_in_window(i, first, last, P, t0, a, b, sel, what):
    """Number k of the ephemeris is returned exactly when t0 + k P lies in the
    closed window: inside, outside, and with a transit exactly on an edge."""
    k, m = A.sym("k", flags=("int",)), A.sym("m", lo=-5, hi=5, flags=("int",))
    at = t0 + k * P
    got = A.subs(sel, {i: k - first}) * (1 - A.gt0(first - k)) * (1 - A.gt0(k - last))
    want = (1 - A.gt0(a - at)) * (1 - A.gt0(at - b))
    edge = t0 + m * P
    places = []
    for w, top in (("uw0", 9), ("uw1", 1)):
        w = A.sym(w, lo=0, hi=top, flags=("open",))
        places += [
            ("anywhere", {"tmax": a + P * w}, A.floor((a - t0) / P), range(-2, top + 3)),
            ("with a transit at its start", {"tmin": edge, "tmax": edge + P * w}, m, range(-1, top + 2)),
            ("with a transit at its end", {"tmin": edge - P * w, "tmax": edge}, m, range(-top - 1, 2)),
        ]
    for q in range(3):
        places.append(("with transits at both ends", {"tmin": edge, "tmax": edge + q * P}, m, range(-1, q + 2)))
    for place, sub, centre, js in places:
        for j in js:
            g, w = A.subs(A.subs(got, {"k": centre + j}), sub), A.subs(A.subs(want, {"k": centre + j}), sub)
            if not eq(g, w):
                raise Fail("%s: for a window %s, number %+d from there is %s" % (
                    what, place, j, "left out or returned wrongly: %s, expected %s" % (show(g), show(w))))
