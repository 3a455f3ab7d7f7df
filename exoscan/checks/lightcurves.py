"""Light curves: C21-C27."""

from fractions import Fraction as F

from .. import algebra as A
from .. import rint
from .. import tensor as tn
from ..harness import (
    Fail, arr, check_axes, expect_raise, gen, gen_nd, pairwise, same, same_t,
    sc, show,
)
from ..interp import Model
from ..tensor import T, Unsupported
from . import check
from .common import *  # noqa: F401,F403

LD = "light_curves.limb_dark:LimbDarkLightCurve."
SE = "light_curves.secondary_eclipse:SecondaryEclipseLightCurve."
IL = "light_curves.interpolated:"


def flux(u1, u2, b, k):
    """The documented law in terms of the occultation integrals."""
    s = [A.fn_raw("qsv%d" % i, (A.fn("abs", b), k)) for i in range(3)]
    g0, g1, g2 = 1 - u1 - F(3, 2) * u2, u1 + 2 * u2, -u2 / 4
    return (g0 * s[0] + g1 * s[1] + g2 * s[2]) / (A.PI * (1 - u1 / 3 - u2 / 6)) - 1


class Stub:
    """An arbitrary orbit: opaque coordinates and an opaque selection."""

    def __init__(self, n, tag="", squeeze=True, ax=None):
        self.n = n
        self.m = 1 if n is None else n
        self.tag = tag
        self.squeeze = squeeze
        self.r_star = sc(A.pos("R%s" % tag))
        self.calls = []

    def xyz(self, q, j, t, ld):
        return A.fn_raw("%s%s%s%d" % ("xyz"[q], self.tag, "_delayed" if ld else "", j), (t,))

    def picks(self, j, t, r, texp, ld):
        return A.gt0(A.fn_raw("window%s%s%d" % (self.tag, "_delayed" if ld else "", j),
                              (t, r, texp if texp is not None else A.ZERO)) - F(1, 2))

    def chosen(self, t, R, texp, ld):
        miss = A.ONE
        for j in range(self.m):
            miss = miss * (1 - self.picks(j, t, R[j], texp, ld))
        return 1 - miss

    def abs_getattr(self, ip, name):
        if name == "r_star":
            return self.r_star
        if name == "get_relative_position":
            return Model(lambda t, parallax=None, light_delay=False: self.position(ip, t, light_delay), name)
        if name == "in_transit":
            return Model(lambda t, r=None, texp=None, light_delay=False: self.transit(ip, t, r, texp, light_delay), name)
        from ..tensor import araise
        araise(AttributeError, "the orbit has no attribute %r" % name)

    def position(self, ip, t, ld):
        t = tn.lift(t)
        axes = tuple(t.axes)
        if not (self.squeeze and self.m == 1):
            axes = axes + (tn.literal_axis(self.m),)
        out = []
        for q in range(3):
            d = np.empty(tuple(a.size for a in axes), dtype=object)
            for k in np.ndindex(*t.data.shape):
                for j in range(self.m):
                    at = k if len(axes) == t.ndim else k + (j,)
                    d[at] = self.xyz(q, j, t.data[k], bool(ld))
            out.append(T(d, axes, "pt", "float64"))
        return tuple(out)

    def transit(self, ip, t, r, texp, ld):
        t = tn.lift(t)
        if t.ndim != 1:
            raise Fail("the selection is made from times of %d dimensions" % t.ndim)
        R = per_planet(r, self.n) if r is not None else [A.ZERO] * self.m
        te = tn.lift(texp) if texp is not None else None
        mask = np.empty(t.data.shape, dtype=object)
        for k in np.ndindex(*t.data.shape):
            if te is None:
                e = None
            elif te.ndim == 0:
                e = te.data[()]
            elif tn.same_axis(te.axes[0], t.axes[0]):
                e = te.data[k]
            else:
                raise Fail("the selection sees an exposure time that is not one per time")
            mask[k] = self.chosen(t.data[k], R, e, bool(ld))
        mask = T(mask, t.axes, "pt", "bool")
        pt = ip.modules["exoplanet.compat"].vars["tensor"]
        ar = ip.call(ip.getattr(pt, "arange"), [ip.getattr(t, "size")])
        return ip.getitem(ar, mask)


import numpy as np  # noqa: E402


def nodes(order, oversample):
    """(offsets in exposures, weights) of the documented quadrature."""
    n = oversample + (1 - oversample % 2)
    if n == 1:
        return [(F(0), F(1))]
    if order == 0:
        return [(F(2 * i + 1, 2 * n) - F(1, 2), F(1, n)) for i in range(n)]
    h = F(1, n - 1)
    xs = [-F(1, 2) + i * h for i in range(n)]
    if order == 1:
        return [(x, h * (F(1, 2) if i in (0, n - 1) else 1)) for i, x in enumerate(xs)]
    return [(x, h / 3 * (1 if i in (0, n - 1) else 4 if i % 2 else 2)) for i, x in enumerate(xs)]


def quadrature_facts(order, oversample):
    """The specification itself: weights sum to one, exactness."""
    ns = nodes(order, oversample)
    deg = 1 if order < 2 or len(ns) == 1 else 3
    for p in range(deg + 1):
        want = F(0) if p % 2 else F(1, (p + 1) * 2**p)
        if sum(w * x**p for x, w in ns) != want:
            return False
    return all(abs(x) <= F(1, 2) for x, _ in ns)


def light_curve(ip, n=2, u=("u1", "u2")):
    cls = ip.modules["exoplanet"].vars["LimbDarkLightCurve"]
    return ip.call(cls, [sc(A.sym(u[0])), sc(A.sym(u[1]))])


def body_flux(S, j, t, R, ld, u=("u1", "u2")):
    x, y, z = (S.xyz(q, j, t, ld) for q in range(3))
    Rs = S.r_star.data[()]
    b = A.power(x * x + y * y, F(1, 2)) / Rs
    return A.gt0(z) * flux(A.sym(u[0]), A.sym(u[1]), b, R[j] / Rs)


def expected(S, R, ld, t, texp=None, rule=None):
    out = []
    for j in range(S.m):
        if texp is None:
            out.append(body_flux(S, j, t, R, ld))
        else:
            v = A.ZERO
            for d, w in rule:
                v = v + w * body_flux(S, j, t + texp * d, R, ld)
            out.append(v)
    return out


def lc_axes(taxes, m):
    return tuple(taxes) + (tn.literal_axis(m),)


def cols(x, taxes, m, what="the light curve"):
    x = tn.lift(x)
    check_axes(x, lc_axes(taxes, m), what)
    return list(x.data.flat)


def radii(n, kind):
    r = posv(n, "r")
    return T(r.data, r.axes, kind, r.dtype)


@check("C21")
def c21(ck):
    ip = ck.ip()
    ck.rule(
        "The light-curve coefficients and flux are interpreted for symbolic "
        "limb darkening, separation and radius and compared with the "
        "normalised quadratic law over the (opaque) occultation integrals; "
        "without overlap the integrals' values pi, 2 pi / 3, 0 must give zero."
    )
    u1, u2 = A.sym("u1"), A.sym("u2")
    cls = ip.modules["exoplanet"].vars["LimbDarkLightCurve"]
    forms = {
        "pt": lambda: ip.call(cls, [sc(u1), sc(u2)]),
        "keywords": lambda: ip.call(cls, [], {"u1": sc(u1, "np"), "u2": sc(u2, "np")}),
        "float": lambda: ip.call(cls, [sc(u1, "py"), sc(u2, "py")]),
        "vector": lambda: ip.call(cls, [arr([u1, u2])]),
        "vector np": lambda: ip.call(cls, [arr([u1, u2], "np")]),
        "list": lambda: ip.call(cls, [[sc(u1, "py"), sc(u2, "py")]]),
    }
    shapes = ("scalar", "vec", "nd", "planets")
    for nm, mk in forms.items():
        for n in (None, 2):
            def go(mk=mk, n=n):
                S = Stub(n)
                t, ax = times()
                r = radii(n, "pt")
                R = per_planet(r, n)
                v = cols(call(ip, mk(), "get_light_curve", orbit=S, r=r, t=t, use_in_transit=False), ax, S.m)
                Rs = S.r_star.data[()]
                for j, g in enumerate(v):
                    x, y, z = (S.xyz(q, j, A.sym("t"), False) for q in range(3))
                    b = A.power(x * x + y * y, F(1, 2)) / Rs
                    same(g, A.gt0(z) * flux(u1, u2, b, R[j] / Rs), "the flux")
                    for q, w in zip(range(3), (A.PI, 2 * A.PI / 3, A.ZERO)):
                        g = replace(g, A.fn_raw("qsv%d" % q, (b, R[j] / Rs)), w)
                    same(g, A.ZERO, "the flux without overlap")
            ck.ob("light curve [%s,n=%s]" % (nm, n), go, ip, LD + "get_light_curve", "light curve")
    inner = cls.lookup("_compute_light_curve") is not None
    for nm, mk in forms.items() if inner else ():
        for shp in shapes:
            def go(mk=mk, shp=shp):
                lc = mk()
                b, k = A.sym("b", lo=0), A.pos("k")
                if shp == "scalar":
                    B, K = sc(b), sc(k)
                elif shp == "planets":
                    B, K = arr([A.sym("b%d" % i, lo=0) for i in range(3)]), arr([A.pos("k%d" % i) for i in range(3)])
                else:
                    ax = (taxis("T"),) if shp == "vec" else (taxis("T"), taxis("S"))
                    B, K = gen_nd(b, ax, "pt"), gen_nd(k, ax, "pt")
                r = call(ip, lc, "_compute_light_curve", B, K)
                check_axes(tn.lift(r), B.axes, "the flux")
                for g, x, y in zip(r.data.flat, B.data.flat, K.data.flat):
                    w = flux(u1, u2, x, y)
                    same(g, w, "the flux")
                    for s, v in zip(range(3), (A.PI, 2 * A.PI / 3, A.ZERO)):
                        at = A.fn_raw("qsv%d" % s, (A.fn("abs", x), y))
                        g = replace(g, at, v)
                    same(g, A.ZERO, "the flux without overlap")
            ck.ob("flux [%s,%s]" % (nm, shp), go, ip, LD + "_compute_light_curve", "flux")
    def go():
        u, v = A.sym("u1"), A.sym("u2")
        f = ip.import_module("exoplanet.light_curves.limb_dark").vars["get_cl"]
        c = ip.call(f, [sc(u), sc(v)])
        nrm = A.PI * (1 - u / 3 - v / 6)
        for g, w in zip(c.data.flat, (1 - u - F(3, 2) * v, u + 2 * v, -v / 4)):
            same(g, w / nrm, "a coefficient")
    if "get_cl" in ip.import_module("exoplanet.light_curves.limb_dark").vars:
        ck.ob("coefficients", go, ip, "light_curves.limb_dark:get_cl", "coefficients")
    def go():
        n0 = len(ip.events)
        ip.call(cls, [arr([u1, u2])])
        if not any(e.kind == "warning" and issubclass(e.category, (DeprecationWarning, FutureWarning)) for e in ip.events[n0:]):
            raise Fail("a coefficient vector gives no deprecation warning")
    ck.ob("vector warns", go, ip, LD + "__init__", "deprecation")
    for m in (1, 3):
        def go(m=m):
            def f():
                lc = ip.call(cls, [arr([A.sym("q%d" % i) for i in range(m)])])
                return call(ip, lc, "get_light_curve", orbit=Stub(None), r=sc(A.pos("r")), t=times()[0])
            expect_raise(ip, f, Exception, "a vector of %d coefficients" % m)
        ck.ob("vector of %d refused" % m, go, ip, LD + "__init__", "refusal")


def replace(x, at, v):
    """x with the single-atom expression ``at`` replaced by ``v``."""
    ((m, c),) = at.d.items()
    aid = m[0][0]
    out = A.ZERO
    for mm, cc in x.d.items():
        t = A.ex(cc)
        for a, e in mm:
            t = t * A.power(A.ex(v) if a == aid else A.atom_expr(A.ATOMS[a]), e)
        out = out + t
    return out


@check("C22")
def c22(ck):
    ip = ck.ip()
    ck.rule(
        "get_light_curve is interpreted for an arbitrary orbit (opaque "
        "coordinate functions of time) and for the package's orbits; each "
        "column must be the occultation flux at (sqrt(x^2+y^2), r) / R_star "
        "where z > 0 and zero elsewhere; scaling all lengths changes nothing."
    )
    for n in (2, None, 1, 3):
        for kind in ("vec", "scalar", "nd"):
            for rk in ("pt", "np"):
                for squeeze in (True, False):
                    if not squeeze and n not in (None, 1):
                        continue
                    def go(n=n, kind=kind, rk=rk, squeeze=squeeze):
                        S = Stub(n, squeeze=squeeze)
                        lc = light_curve(ip)
                        t, ax = times(kind, "pt" if rk == "pt" else "np")
                        r = radii(n, rk)
                        R = per_planet(r, n)
                        for ld in (False, True):
                            v = call(ip, lc, "get_light_curve", orbit=S, r=r, t=t, use_in_transit=False, light_delay=ld)
                            for j, (g, w) in enumerate(zip(cols(v, ax, S.m), expected(S, R, ld, A.sym("t")))):
                                same(g, w, "the flux of planet %d" % j)
                    ck.ob("any orbit [n=%s,times=%s,%s,squeeze=%s]" % (n, kind, rk, squeeze), go, ip, LD + "get_light_curve", "any orbit")
    for n in (2, None):
        def go(n=n):
            S, S2 = Stub(n), Stub(n)
            lc = light_curve(ip)
            t, ax = times()
            lam = A.pos("lam")
            r = radii(n, "pt")
            a = call(ip, lc, "get_light_curve", orbit=S, r=r, t=t, use_in_transit=False)
            S2.r_star = sc(A.pos("R") * lam)
            S2.xyz = lambda q, j, t, ld: lam * S.xyz(q, j, t, ld)
            r2 = tn.mapped(lambda e: e * lam, [r])
            b = call(ip, lc, "get_light_curve", orbit=S2, r=r2, t=t, use_in_transit=False)
            same_t(b, a, "the flux after scaling all lengths")
        ck.ob("length scale [n=%s]" % n, go, ip, LD + "get_light_curve", "scaling")
    for kls, n in (("KeplerianOrbit", 2), ("KeplerianOrbit", None), ("KeplerianOrbit", 1), ("SimpleTransitOrbit", 2), ("SimpleTransitOrbit", None)):
        for kind in ("vec", "scalar", "nd"):
            def go(kls=kls, n=n, kind=kind):
                if kls == "KeplerianOrbit":
                    o = build(ip, orbit_kwargs(dict(n=n, mass="a+P+rs", incl="b", ref="t0", ecc="omega" if kind == "vec" else None)))
                else:
                    src = planet_args(n)
                    o = build(ip, {k: src[k] for k in ("period", "duration", "b", "t0", "r_star", "ror")}, kls)
                lc = light_curve(ip)
                t, ax = times(kind)
                r = radii(n, "pt")
                m = 1 if n is None else n
                R = per_planet(r, n)
                v = cols(call(ip, lc, "get_light_curve", orbit=o, r=r, t=t, use_in_transit=False), ax, m)
                x, y, z = (columns(q, ax, n) for q in call(ip, o, "get_relative_position", t))
                Rs = per_planet(att(ip, o, "r_star"), n)
                for j in range(m):
                    b = A.power(x[j] * x[j] + y[j] * y[j], F(1, 2)) / Rs[j]
                    same(v[j], A.gt0(z[j]) * flux(A.sym("u1"), A.sym("u2"), b, R[j] / Rs[j]), "the flux of planet %d" % j)
            ck.ob("%s [n=%s,times=%s]" % (kls, n, kind), go, ip, LD + "get_light_curve", kls)
    full = {"orbit": Stub(None), "r": sc(A.pos("r")), "t": times()[0]}
    for k in full:
        def go(k=k):
            kw = {x: y for x, y in full.items() if x != k}
            expect_raise(ip, lambda: call(ip, light_curve(ip), "get_light_curve", **kw), ValueError, "a call without " + k)
        ck.ob("missing %s" % k, go, ip, LD + "get_light_curve", "missing arguments")


def texp_arg(kind, ax):
    te = A.pos("texp")
    if kind is None:
        return None
    if kind == "scalar":
        return sc(te)
    if kind == "float":
        return sc(te, "py")
    return gen_nd(te, ax, "np" if kind == "vector" else "pt")


@check("C23")
def c23(ck):
    ip = ck.ip()
    ck.rule(
        "With an exposure time the light curve of an arbitrary orbit is "
        "interpreted for literal oversampling factors and each order and "
        "compared with the weighted sum of instantaneous fluxes at the nodes "
        "of the documented rule; the rules' weights and moments are verified."
    )
    overs = (1, 2, 3, 4, 5, 7, 8) + ((6, 9, 10, 11, 15, 21) if ck.thorough else ())
    for order in (0, 1, 2):
        for ov in overs:
            def go(order=order, ov=ov):
                if not quadrature_facts(order, ov):
                    raise Unsupported("the specification's rule is not exact")
                for n, te, uit, kind in ((2, "scalar", False, "vec"), (None, "vector", False, "vec"), (1, "float", True, "vec"), (2, "tensor", True, "vec")):
                    S = Stub(n)
                    lc = light_curve(ip)
                    t, ax = times(kind)
                    r = radii(n, "pt")
                    R = per_planet(r, n)
                    v = call(ip, lc, "get_light_curve", orbit=S, r=r, t=t, texp=texp_arg(te, ax), oversample=ov, order=order, use_in_transit=uit)
                    want = expected(S, R, False, A.sym("t"), A.pos("texp"), nodes(order, ov))
                    pick = S.chosen(A.sym("t"), R, A.pos("texp"), False) if uit else A.ONE
                    for j, (g, w) in enumerate(zip(cols(v, ax, S.m), want)):
                        same(g, pick * w, "the integrated flux of planet %d (n=%s, exposure %s, shortcut %s)" % (j, n, te, uit))
            ck.ob("quadrature [order=%d,oversample=%d]" % (order, ov), go, ip, LD + "get_light_curve", "quadrature")
    def go():
        S = Stub(2)
        lc = light_curve(ip)
        t, ax = times()
        r = radii(2, "pt")
        a = call(ip, lc, "get_light_curve", orbit=S, r=r, t=t, texp=texp_arg("scalar", ax), use_in_transit=False)
        b = call(ip, lc, "get_light_curve", orbit=S, r=r, t=t, texp=texp_arg("scalar", ax), oversample=7, order=0, use_in_transit=False)
        same_t(a, b, "the default rule")
    ck.ob("defaults", go, ip, LD + "get_light_curve", "defaults")
    for n in (2, None):
        def go(n=n):
            S = Stub(n)
            lc = light_curve(ip)
            t, ax = times("nd")
            r = radii(n, "pt")
            R = per_planet(r, n)
            for te in ("scalar", "vector"):
                v = call(ip, lc, "get_light_curve", orbit=S, r=r, t=t, texp=texp_arg(te, ax), oversample=3, use_in_transit=False)
                for g, w in zip(cols(v, ax, S.m), expected(S, R, False, A.sym("t"), A.pos("texp"), nodes(0, 3))):
                    same(g, w, "the integrated flux on a grid of times")
        ck.ob("grid of times [n=%s]" % n, go, ip, LD + "get_light_curve", "grid of times")
    for order in (3, -1):
        def go(order=order):
            t, ax = times()
            for ov in (7, 1):
                expect_raise(ip, lambda: call(ip, light_curve(ip), "get_light_curve", orbit=Stub(None), r=sc(A.pos("r")), t=t, texp=sc(A.pos("texp")), order=order, oversample=ov), ValueError, "order %d with oversample %d" % (order, ov))
        ck.ob("order %d refused" % order, go, ip, LD + "get_light_curve", "refusal")
    for kls, n in (("KeplerianOrbit", 2), ("KeplerianOrbit", None), ("SimpleTransitOrbit", 2)):
        def go(kls=kls, n=n):
            if kls == "KeplerianOrbit":
                o = build(ip, orbit_kwargs(dict(n=n, mass="a+P+rs", incl="b", ref="t0")))
            else:
                src = planet_args(n)
                o = build(ip, {k: src[k] for k in ("period", "duration", "b", "t0", "r_star", "ror")}, kls)
            lc = light_curve(ip)
            t, ax = times()
            r = radii(n, "pt")
            one = call(ip, lc, "get_light_curve", orbit=o, r=r, t=t, use_in_transit=False)
            m = 1 if n is None else n
            one = cols(one, ax, m)
            for te in ("scalar", "vector"):
                v = cols(call(ip, lc, "get_light_curve", orbit=o, r=r, t=t, texp=texp_arg(te, ax), oversample=3, use_in_transit=False), ax, m)
                for j in range(m):
                    w = A.ZERO
                    for d, q in nodes(0, 3):
                        w = w + q * A.subs(one[j], {"t": A.sym("t") + d * A.pos("texp")})
                    same(v[j], w, "the integrated flux of planet %d" % j)
        ck.ob("%s [n=%s]" % (kls, n), go, ip, LD + "get_light_curve", "package orbits")


@check("C24")
def c24(ck):
    ip = ck.ip()
    ck.rule(
        "The light curve with the in-transit shortcut is interpreted for an "
        "arbitrary orbit and an arbitrary selection; the element at every "
        "time must be the selection's indicator times the element of the full "
        "evaluation, and the selection must be asked for the caller's times, "
        "radii, exposure and light delay."
    )
    for n in (2, None, 1, 3):
        for te in (None, "scalar", "float", "vector", "tensor"):
            for ld in (False, True):
                for uit in (None, True, False):
                    for tk in ("np", "pt"):
                        if tk == "pt" and (uit is False or te in ("scalar", "float")):
                            continue
                        def go(n=n, te=te, ld=ld, uit=uit, tk=tk):
                            S = Stub(n)
                            lc = light_curve(ip)
                            t, ax = times("vec", tk)
                            r = radii(n, "pt" if te != "vector" else "np")
                            R = per_planet(r, n)
                            kw = {} if uit is None else {"use_in_transit": uit}
                            if te is not None:
                                kw["texp"] = texp_arg(te, ax)
                                kw["oversample"] = 3
                            if ld:
                                kw["light_delay"] = True
                            v = call(ip, lc, "get_light_curve", orbit=S, r=r, t=t, **kw)
                            T_ = A.pos("texp") if te else None
                            want = expected(S, R, ld, A.sym("t"), T_, nodes(0, 3))
                            short = (not ld) if uit is None else uit
                            pick = S.chosen(A.sym("t"), R, T_, ld) if short else A.ONE
                            for j, (g, w) in enumerate(zip(cols(v, ax, S.m), want)):
                                same(g, pick * w, "the flux of planet %d" % j)
                        ck.ob("shortcut [n=%s,texp=%s,light_delay=%s,use_in_transit=%s,%s]" % (n, te, ld, uit, tk), go, ip, LD + "get_light_curve", "shortcut")
    for kls, n in (("KeplerianOrbit", 2), ("KeplerianOrbit", None), ("SimpleTransitOrbit", 2), ("SimpleTransitOrbit", None)):
        for te in (None, "scalar", "vector"):
            def go(kls=kls, n=n, te=te):
                from .orbits import selection
                if kls == "KeplerianOrbit":
                    o = build(ip, orbit_kwargs(dict(n=n, mass="a+P+rs", incl="b", ref="t0")))
                else:
                    src = planet_args(n)
                    o = build(ip, {k: src[k] for k in ("period", "duration", "b", "t0", "r_star", "ror")}, kls)
                lc = light_curve(ip)
                t, ax = times()
                r = radii(n, "pt")
                m = 1 if n is None else n
                kw = {"oversample": 3, "texp": texp_arg(te, ax)} if te else {}
                full = cols(call(ip, lc, "get_light_curve", orbit=o, r=r, t=t, use_in_transit=False, **kw), ax, m)
                short = cols(call(ip, lc, "get_light_curve", orbit=o, r=r, t=t, use_in_transit=True, **kw), ax, m)
                kw.pop("oversample", None)
                sel = selection(call(ip, o, "in_transit", t, r=r, **kw), ax[0])
                for j in range(m):
                    same(short[j], sel * full[j], "the flux of planet %d" % j)
            ck.ob("%s [n=%s,texp=%s]" % (kls, n, te), go, ip, LD + "get_light_curve", "package orbits")


def star_radii(ip, o, r):
    """The star's radius, once per planet."""
    q = tn.lift(att(ip, o, "r_star"))
    return tn.mapped(lambda a, b: a + 0 * b, [q, tn.lift(r)])


@check("C25")
def c25(ck):
    ip = ck.ip()
    ck.rule(
        "The secondary-eclipse light curve of an abstract Keplerian orbit is "
        "compared with (L1 + f L2) / (1 + f), L1 and L2 being the package's own "
        "limb-darkened light curves of the orbit and of the exchanged orbit "
        "under the same options."
    )
    from .orbits import exchanged
    cls = ip.modules["exoplanet"].vars["SecondaryEclipseLightCurve"]
    dom = pairwise({
        "n": [2, None, 1],
        "texp": [None, "scalar", "vector"],
        "order": [None, 0, 1, 2],
        "oversample": [None, 3, 5],
        "uit": [None, True, False],
        "ld": [False, True],
        "ecc": [None, "omega"],
        "u": ["list", "vector"],
    }, strength=2, keep=lambda c: not (c["uit"] and c["ld"]) and not (c["ecc"] and (c["uit"] is not False or c["ld"])))
    for c in dom:
        def go(c=c):
            n = c["n"]
            kwo = orbit_kwargs(dict(n=n, mass="P+ms+rs", incl="b", ref="t0", ecc=c["ecc"], mp=True))
            o = build(ip, kwo)
            t, ax = times()
            m = 1 if n is None else n
            kw = {}
            if c["texp"]:
                kw["texp"] = texp_arg(c["texp"], ax)
            for k in ("order", "oversample"):
                if c[k] is not None:
                    kw[k] = c[k]
            if c["uit"] is not None:
                kw["use_in_transit"] = c["uit"]
            if c["ld"]:
                kw["light_delay"] = True
            us = [[A.sym("u1"), A.sym("u2")], [A.sym("v1"), A.sym("v2")]]
            ua = [arr(u) if c["u"] == "vector" else [sc(x, "py") for x in u] for u in us]
            from .orbits import generic_partitions
            for part in generic_partitions(ip, kwo, n, c["ld"], 1):
                with part:
                    o = build(ip, kwo)
                    r = posv(n, "r")
                    l = ip.call(cls, [ua[0], ua[1], sc(A.pos("sbr"))])
                    got = cols(call(ip, l, "get_light_curve", orbit=o, r=r, t=t, **kw), ax, m)
                    o2 = exchanged(ip, o, r)
                    L1 = cols(call(ip, light_curve(ip), "get_light_curve", orbit=o, r=r, t=t, **kw), ax, m)
                    # the exchanged orbit has one star per planet
                    L2 = tn.lift(call(ip, light_curve(ip, u=("v1", "v2")), "get_light_curve", orbit=o2, r=star_radii(ip, o, r), t=t, **kw))
                    L2 = list(L2.data.flat)
                    Rs = per_planet(att(ip, o, "r_star"), n)
                    for j, R in enumerate(per_planet(r, n)):
                        f = A.pos("sbr") * (R / Rs[j]) ** 2
                        same(got[j], (L1[j] + f * L2[j]) / (1 + f), "the light curve of planet %d" % j)
        ck.ob("sum [%s]" % label(c), go, ip, SE + "get_light_curve", "flux-weighted sum")


@check("C26")
def c26(ck):
    ip = ck.ip()
    ck.rule(
        "The returned ratio k is interpreted for symbolic depth, impact "
        "parameter and coefficients; k^2 I(mu) / I_mean must be the depth, the "
        "Jacobian the derivative of the returned ratio."
    )
    u1, u2 = A.sym("u1"), A.sym("u2")
    for form in ("scalar", "vec", "planets", "scalar depth", "float"):
        for jac in (False, True):
            def go(form=form, jac=jac):
                lc = light_curve(ip)
                b, d = A.sym("b", lo=-1, hi=1), A.pos("delta")
                if form == "scalar":
                    B, D = sc(b), sc(d)
                elif form == "float":
                    B, D = sc(b, "py"), sc(d, "py")
                elif form == "vec":
                    B, D = gen(b, taxis("T"), "np"), gen(d, taxis("T"), "np")
                elif form == "planets":
                    B = arr([A.sym("b%d" % i, lo=-1, hi=1) for i in range(3)])
                    D = arr([A.pos("delta%d" % i) for i in range(3)])
                else:
                    B = arr([A.sym("b%d" % i, lo=-1, hi=1) for i in range(3)])
                    D = sc(d)
                r = call(ip, lc, "get_ror_from_approx_transit_depth", D, B, **({"jac": True} if jac else {}))
                if jac:
                    r, dr = ip.iterate(r)
                    check_axes(tn.lift(dr), B.axes, "the Jacobian")
                r = tn.lift(r)
                check_axes(r, B.axes, "the ratio")
                ds = list(np.broadcast_to(D.data, B.data.shape).flat)
                for i, (g, b_, d_) in enumerate(zip(r.data.flat, B.data.flat, ds)):
                    mu = A.power(1 - b_ * b_, F(1, 2))
                    I = 1 - u1 * (1 - mu) - u2 * (1 - mu) ** 2
                    same(g * g * I / (1 - u1 / 3 - u2 / 6), d_, "the depth of the returned ratio")
                    if jac:
                        nm = next(iter(A.symbols_of(d_)))
                        same(list(dr.data.flat)[i], A.diff(g, nm), "the Jacobian")
            ck.ob("depth [%s,jac=%s]" % (form, jac), go, ip, LD + "get_ror_from_approx_transit_depth", "depth")
