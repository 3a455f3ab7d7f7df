"""Properties of every component at once: C38 (purity), C40 (shapes)."""

import itertools
from collections import OrderedDict
from fractions import Fraction as F

import numpy as np

from .. import algebra as A
from .. import models
from .. import rint
from .. import tensor as tn
from ..harness import Fail, arr, gen, same, same_t, sc, show
from ..interp import Class, Func, Model, Module, Obj
from ..models import Quantity, UnitVal, own
from ..tensor import T, Unsupported
from . import check
from .common import BODIES, att, build, call, orbit_kwargs, planet_args, posv, taxis, times
from .distributions import Built, public
from .estimators import Hooks, Order, Results, Search, est, ranked, unit
from .lightcurves import Stub, light_curve, radii


# ---- snapshots -----------------------------------------------------------------
def freeze(v, seen):
    """A value to compare with later; mutable parts are copied."""
    if isinstance(v, T):
        return ("T", v, v.data.copy(), tuple(v.axes), v.dtype, dict(v.attrs) if v.attrs else {})
    if isinstance(v, Quantity):
        return ("Q", v, freeze(v.v, seen), v.unit)
    if id(v) in seen:
        return ("seen", v)
    if isinstance(v, (list, tuple)):
        seen.add(id(v))
        return ("list", v, [freeze(x, seen) for x in v])
    if isinstance(v, (set, frozenset)):
        return ("set", v, set(v))
    if isinstance(v, dict):
        seen.add(id(v))
        return ("dict", v, OrderedDict((k, freeze(x, seen)) for k, x in v.items()))
    if isinstance(v, Obj):
        seen.add(id(v))
        return ("obj", v, OrderedDict((k, freeze(x, seen)) for k, x in v.attrs.items()))
    return ("id", v)


def unchanged(s, now, what, out):
    """Paths at which a value differs from its snapshot."""
    k, old = s[0], s[1]
    if k == "T":
        if not isinstance(now, T) or now.data.shape != s[2].shape or len(now.axes) != len(s[3]):
            out.append(what + " is replaced")
            return
        for a, b in zip(now.data.flat, s[2].flat):
            if a is not b and not A.equal(a, b):
                out.append("%s changes from %s to %s" % (what, show(b, 60), show(a, 60)))
                return
        if old.kind == "pt" and now is old:
            for n, x in s[5].items():
                y = now.attrs.get(n)
                if y is not x and not (isinstance(x, (str, int)) and x == y):
                    out.append("the attribute %s of %s changes" % (n, what))
        return
    if k == "Q":
        if not isinstance(now, Quantity):
            out.append(what + " is replaced")
            return
        if now.unit.factor(s[3]).const() != 1 if not isinstance(now.unit, UnitVal) or now.unit is not s[3] else False:
            out.append("the unit of %s changes" % what)
        unchanged(s[2], now.v, what, out)
        return
    if k == "seen":
        return
    if k == "list":
        if not isinstance(now, (list, tuple)) or len(now) != len(s[2]):
            out.append(what + " has other elements")
            return
        for i, (x, y) in enumerate(zip(s[2], now)):
            unchanged(x, y, "%s[%d]" % (what, i), out)
        return
    if k == "set":
        if now != s[2]:
            out.append(what + " has other elements")
        return
    if k == "dict":
        if not isinstance(now, dict):
            out.append(what + " is replaced")
            return
        for n in now:
            if n not in s[2] and not (isinstance(n, str) and n.startswith("_")):
                out.append("%s gets the key %r" % (what, n))
        for n, x in s[2].items():
            if n not in now:
                out.append("%s loses the key %r" % (what, n))
            else:
                unchanged(x, now[n], "%s[%r]" % (what, n), out)
        return
    if k == "obj":
        if now is not old:
            out.append(what + " is replaced")
            return
        for n, x in s[2].items():
            if n not in now.attrs:
                out.append("%s loses the attribute %s" % (what, n))
            elif not n.startswith("_") or x[0] in ("T", "obj"):
                # a private cache may fill up; results are compared as well
                unchanged(x, now.attrs[n], "%s.%s" % (what, n), out)
        for n in now.attrs:
            if n not in s[2] and not n.startswith("_"):
                out.append("%s gets the attribute %s" % (what, n))
        return
    if now is not old and not (isinstance(old, (str, int, F, bool)) and now == old):
        out.append("%s changes from %s to %s" % (what, show_any(old), show_any(now)))


def show_any(v):
    return show(v, 60) if isinstance(v, (T, A.Expr)) else repr(v)[:60]


class Watch:
    """Caller inputs, existing objects and package state during a call."""

    def __init__(self, ip):
        self.ip = ip
        self.items = []
        self.owned = []
        self.start = len(ip.events)
        for mn, m in ip.modules.items():
            if not mn.startswith("exoplanet"):
                continue
            for n, v in m.vars.items():
                if isinstance(v, (list, dict, set, T)) and not n.startswith("_"):
                    self.own(v, "%s.%s" % (mn, n))
                    self.items.append((freeze(v, set()), (lambda m=m, n=n: m.vars.get(n)), "the package variable %s.%s" % (mn, n)))
                elif isinstance(v, (int, str, F, bool, type(None))) and not n.startswith("__"):
                    self.items.append((freeze(v, set()), (lambda m=m, n=n: m.vars.get(n)), "the package variable %s.%s" % (mn, n)))
                elif isinstance(v, Class):
                    for k, x in list(v.ns.items()):
                        if isinstance(x, (list, dict, set, T, int, str, F, bool, type(None))) and not k.startswith("__"):
                            self.own(x, "%s.%s" % (n, k))
                            self.items.append((freeze(x, set()), (lambda v=v, k=k: v.ns.get(k)), "the class attribute %s.%s" % (n, k)))

    def own(self, v, what):
        if isinstance(v, T):
            if v.owner is None and v.kind == "np":
                self.owned.append(v)
                own(v, what)
        elif isinstance(v, (list, dict, set)):
            if id(v) not in models.OWNED:
                self.owned.append(v)
                own(v, what)

    def deep(self, v, what, seen=None):
        seen = set() if seen is None else seen
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, Quantity):
            self.deep(v.v, what, seen)
            return
        self.own(v, what)
        if isinstance(v, (list, tuple)):
            for i, x in enumerate(v):
                self.deep(x, "%s[%d]" % (what, i), seen)
        elif isinstance(v, dict):
            for k, x in v.items():
                self.deep(x, "%s[%r]" % (what, k), seen)
        elif isinstance(v, Obj):
            for k, x in v.attrs.items():
                if not k.startswith("_") or isinstance(x, (T, Obj)):
                    self.deep(x, "%s.%s" % (what, k), seen)

    def given(self, v, what):
        self.deep(v, what)
        self.items.append((freeze(v, set()), (lambda: v), what))
        return v

    def finish(self):
        problems = []
        for e in self.ip.events[self.start:]:
            if e.kind == "mutate_input":
                problems.append("%s is modified in place (%s)" % (e.owner, e.site))
            elif e.kind == "global_write" and not str(e.name).startswith("_"):
                problems.append("%s of %s is assigned (%s)" % (e.name, e.module, e.site))
        for s, now, what in self.items:
            unchanged(s, now(), what, problems)
        for v in self.owned:
            if isinstance(v, T):
                v.owner = None
            else:
                models.OWNED.pop(id(v), None)
        if problems:
            raise Fail("; ".join(problems[:4]))


def results_equal(a, b, what):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            raise Fail("%s has other keys on the second call" % what)
        for k in a:
            results_equal(a[k], b[k], "%s[%r]" % (what, k))
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            raise Fail("%s has %d values instead of %d" % (what, len(b), len(a)))
        for i, (x, y) in enumerate(zip(a, b)):
            results_equal(x, y, "%s[%d]" % (what, i))
    elif isinstance(a, Quantity) and isinstance(b, Quantity):
        results_equal(a.v, b.conv(a.unit), what)
    elif isinstance(a, T) and isinstance(b, T):
        x, y = a.data, b.data
        if x.shape != y.shape:
            raise Fail("%s has another shape" % what)
        for p, q in zip(x.flat, y.flat):
            if p is not q:
                same(q, p, what)
    elif isinstance(a, (str, int, F, bool)) or a is None:
        if a != b:
            raise Fail("%s is %r instead of %r" % (what, b, a))


def give(v, form):
    """A parameter as an array, a list or a tensor."""
    t = tn.lift(v)
    if form == "pt":
        return T(t.data.copy(), t.axes, "pt", t.dtype)
    if form == "list":
        return [T(e, (), "py", t.dtype) for e in t.data.flat] if t.ndim else T(t.item(), (), "py", t.dtype)
    return T(t.data.copy(), t.axes, "np", t.dtype)


def orbit_calls(n, t, plx=True):
    """Every evaluation of an orbit: (label, method, positional, keyword)."""
    out = []
    for b in BODIES:
        out.append(("get_%s_position" % b, [t], {}))
        out.append(("get_%s_position" % b, [t], {"light_delay": True}))
        out.append(("get_%s_velocity" % b, [t], {}))
        out.append(("get_%s_acceleration" % b, [t], {}))
        out.append(("get_%s_position" % b, [t], {"parallax": sc(A.pos("plx"), "np")}))
    out.append(("get_relative_angles", [t], {}))
    out.append(("get_relative_angles", [t], {"parallax": sc(A.pos("plx")), "light_delay": True}))
    out.append(("get_radial_velocity", [t], {}))
    out.append(("get_radial_velocity", [t], {"K": give(posv(n, "K"), "np")}))
    out.append(("in_transit", [t], {}))
    out.append(("in_transit", [t], {"r": give(posv(n, "r"), "np"), "texp": sc(A.pos("texp"), "np")}))
    return out


def other_value(v):
    """The same kind of input with every symbol replaced by a second one."""
    if isinstance(v, A.Expr):
        m = {}
        for at in A.atoms_of(v).values():
            if at.kind == "sym" and at.name not in ("pi", "inf", "nan") and "bool" not in at.flags and not at.name.startswith("i_"):
                m[at.name] = A.sym(at.name + "7", lo=at.lo, hi=at.hi, flags=at.flags)
        return A.subs(v, m) if m else v
    if isinstance(v, T):
        d = np.empty(v.data.shape, dtype=object)
        for i in np.ndindex(*v.data.shape):
            d[i] = other_value(v.data[i])
        w = T(d, v.axes, v.kind, v.dtype)
        if v.attrs:
            w.attrs = dict(v.attrs)
        return w
    if isinstance(v, Quantity):
        return Quantity(other_value(v.v), v.unit)
    if isinstance(v, list):
        return [other_value(x) for x in v]
    if isinstance(v, tuple):
        return tuple(other_value(x) for x in v)
    if isinstance(v, dict):
        return {k: other_value(x) for k, x in v.items()}
    return v


def history(ip, make, calls, what, second=()):
    """Run the calls one after another, twice, on one object, with the calls
    on other inputs between; compare each with the same call on an object of
    its own."""
    second = list(second) + [(nm, other_value(a), other_value(k)) for nm, a, k in calls]
    W = Watch(ip)
    o = make(W)
    W.given(o, what)
    for i, (nm, a, k) in enumerate(calls):
        for j, x in enumerate(a):
            W.given(x, "the argument %d of %s" % (j, nm))
        W.given(k, "the keywords of %s" % nm)
    first = []
    for nm, a, k in calls:
        first.append(ip.call(ip.getattr(o, nm), list(a), dict(k)))
    between = [ip.call(ip.getattr(o, nm), list(a), dict(k)) for nm, a, k in second]
    again = [ip.call(ip.getattr(o, nm), list(a), dict(k)) for nm, a, k in calls[::-1]][::-1]
    W.finish()
    for (nm, a, k), x, y in zip(calls, first, again):
        results_equal(x, y, "%s(%s)" % (nm, ", ".join(k)))
    for (nm, a, k), x in zip(calls + second, first + between):
        y = ip.call(ip.getattr(make(None), nm), list(a), dict(k))
        results_equal(y, x, "%s(%s) after the other calls" % (nm, ", ".join(k)))


@check("C38")
def c38(ck):
    ck.rule(
        "Effect analysis: the public calls are interpreted with every caller "
        "array, list and dictionary, every attribute of the object evaluated "
        "and every package variable marked; writes to them (directly or "
        "through a view) are violations, their values are compared with a "
        "snapshot, and each result with the one from a fresh object, for a "
        "sequence of all calls in two orders."
    )
    ip = ck.ip()
    K = "orbits.keplerian:KeplerianOrbit"

    def given(W, v, what):
        return W.given(v, what) if W is not None else v

    # -- Keplerian orbits
    cfgs = [
        dict(mass="P+ms+rs", ecc="omega", incl="b", ref="t0", Omega=True, n=2),
        dict(mass="P+ms+rs", ecc="sincos", incl="incl", ref="t_periastron", n=2),
        dict(mass="a+P+rs", ecc=None, incl="b", ref=None, mp=False, n=2),
        dict(mass="P+rho+rs", ecc="omega", incl="b", ref="t0", n=None),
        dict(mass="a", ecc=None, incl=None, ref=None, mp=False, n=1),
        dict(mass="a+rho+ms", ecc="omega", incl="incl", ref="t0", Omega=True, n=1),
    ]

    def kepler(cfg, form, tform):
        def make(W):
            kw = {k: give(v, form if tn.lift(v).ndim else "pt" if form == "list" else form) for k, v in orbit_kwargs(cfg).items()}
            for k, v in kw.items():
                given(W, v, "the argument " + k)
            return build(ip, kw)
        t = times("vec", tform)[0]
        calls = orbit_calls(cfg["n"], t)
        with rint.Partition("purity"):
            history(ip, make, calls, "the orbit")

    for c in cfgs:
        for form, tform in (("np", "np"), ("pt", "pt"), ("list", "np")):
            ck.ob("Keplerian orbit [%s, %s, %s]" % (c["mass"] + ("+ecc" if c["ecc"] else ""), form, tform),
                  lambda a=(c, form, tform): kepler(*a), ip, K, "orbits")

    def duration(n):
        def make(W):
            src = planet_args(n)
            kw = {k: give(src[k], "np") for k in ("period", "t0", "b", "duration", "ror")}
            kw["r_star"] = sc(A.pos("rs"), "np")
            for k, v in kw.items():
                given(W, v, "the argument " + k)
            return build(ip, kw)
        t = times("vec", "np")[0]
        with rint.Partition("purity"):
            history(ip, make, [("get_relative_position", [t], {}), ("get_star_velocity", [t], {}), ("get_radial_velocity", [t], {})], "the orbit")
    for n in (2, None):
        ck.ob("orbit from the duration [n=%s]" % n, lambda n=n: duration(n), ip, K, "orbits")

    def quantities():
        U = lambda x: unit(ip, x)
        P, ms = A.pos("P0"), A.pos("ms")

        def make(W):
            kw = {"period": Quantity(sc(P * 24, "np"), U("hour")), "m_star": sc(ms, "np"),
                  "r_star": Quantity(sc(A.pos("rs") * 2, "np"), U("R_sun")), "m_planet": Quantity(arr([A.pos("mp0") * 300], "np"), U("M_earth"))}
            for k, v in kw.items():
                given(W, v, "the argument " + k)
            return build(ip, kw)
        t = times("vec", "np")[0]
        with rint.Partition("purity"):
            history(ip, make, [("get_star_velocity", [t], {}), ("get_radial_velocity", [t], {"output_units": ip.binop("truediv", U("km"), U("s"))})], "the orbit")
    ck.ob("orbit from quantities", quantities, ip, K, "orbits")

    # -- transit-timing orbits
    def ttv(cfg):
        from .ttv import Setup

        def make(W):
            S = Setup(ip, cfg)
            kw = dict(S.kw)
            for k, v in kw.items():
                if isinstance(v, list):
                    kw[k] = [give(x, cfg.get("form", "np")) if isinstance(x, T) else list(x) if isinstance(x, list) else x for x in v]
                given(W, kw[k], "the argument " + k)
            return ip.call(ip.getattr(ip.getattr(ip.modules["exoplanet"], "orbits"), "TTVOrbit"), [], dict(kw))
        t = times("vec", cfg.get("t", "np"))[0]
        S = Setup(ip, cfg)
        calls = [c for c in orbit_calls(S.n, t) if not c[2].get("light_delay") or c[0] == "get_relative_position"]
        with rint.Partition("purity"):
            history(ip, make, calls, "the orbit")
    for c in (dict(pat="gaps", mode="times", incl="b"), dict(pat="gaps", mode="ttvs", incl="b", ecc=True), dict(pat="gaps", mode="times", form="pt", t="pt", incl="b"),
              dict(pat="gaps", mode="times", period="delta", incl="b"), dict(pat="one planet", mode="times", incl="b")):
        ck.ob("TTV orbit [%s]" % ", ".join("%s=%s" % x for x in c.items()), lambda c=c: ttv(c), ip, "orbits.ttv:TTVOrbit", "orbits")

    # -- simple orbits
    def simple(n, form):
        def make(W):
            src = planet_args(n)
            kw = {k: give(src[k], form) for k in ("period", "duration", "t0", "b", "ror")}
            kw["r_star"] = sc(A.pos("rs"), "np")
            for k, v in kw.items():
                given(W, v, "the argument " + k)
            return build(ip, kw, "SimpleTransitOrbit")
        t = times("vec", "np")[0]
        calls = [("get_relative_position", [t], {}), ("get_planet_position", [t], {}), ("get_star_position", [t], {}),
                 ("in_transit", [t], {}), ("in_transit", [t], {"r": give(posv(n, "r"), "np"), "texp": sc(A.pos("texp"), "np")})]
        with rint.Partition("purity"):
            history(ip, make, calls, "the orbit")
    for n, form in itertools.product((2, None, 1), ("np", "pt")):
        ck.ob("simple orbit [n=%s, %s]" % (n, form), lambda a=(n, form): simple(*a), ip, "orbits.simple:SimpleTransitOrbit", "orbits")

    # -- light curves
    def lc_calls(orbit, n, t, r):
        texp = sc(A.pos("texp"), "np")
        vt = gen(A.pos("texp"), taxis("T"), "np")
        base = {"orbit": orbit, "r": r, "t": t}
        out = []
        for k in ({}, {"use_in_transit": False}, {"texp": texp, "oversample": 3}, {"texp": vt, "oversample": 3, "order": 1},
                  {"texp": texp, "oversample": 4, "order": 2, "use_in_transit": False}, {"light_delay": True}):
            out.append(("get_light_curve", [], dict(base, **k)))
        return out

    def limb(n, real, form):
        t = times("vec", "np")[0]
        r = give(radii(n, "pt"), form)
        if real == "kepler":
            o = build(ip, orbit_kwargs(dict(n=n, mass="a+P+rs", incl="b", ref="t0", ecc="omega")))
        elif real == "simple":
            src = planet_args(n)
            o = build(ip, {k: src[k] for k in ("period", "duration", "b", "t0", "r_star", "ror")}, "SimpleTransitOrbit")
        else:
            o = Stub(n)

        def make(W):
            return light_curve(ip, n)
        calls = lc_calls(o, n, t, r)
        more = lc_calls(Stub(n, "B"), n, t, r)[:3]
        if real:
            calls = calls[:5]
        with rint.Partition("purity"):
            history(ip, make, calls, "the light curve", more)
    for n in (2, None, 1):
        for real in (None, "kepler", "simple"):
            for form in ("np", "pt", "list"):
                if form == "list" and real:
                    continue
                ck.ob("limb-darkened light curve [n=%s, %s orbit, %s]" % (n, real or "any", form), lambda a=(n, real, form): limb(*a), ip,
                      "light_curves.limb_dark:LimbDarkLightCurve.get_light_curve", "light curves")

    def limb_init(form):
        W = Watch(ip)
        u = [sc(A.sym("u1"), "py"), sc(A.sym("u2"), "py")]
        if form == "np":
            u = arr([A.sym("u1"), A.sym("u2")], "np")
        cls = ip.getattr(ip.modules["exoplanet"], "LimbDarkLightCurve")
        lc = ip.call(cls, [W.given(u, "the limb darkening")])
        d, b = W.given(arr([A.pos("dep0"), A.pos("dep1")], "np"), "the depths"), W.given(arr([A.sym("b0"), A.sym("b1")], "np"), "the impact parameters")
        for jac in (False, True):
            call(ip, lc, "get_ror_from_approx_transit_depth", d, b, jac=jac)
        W.finish()
    for form in ("np", "list"):
        ck.ob("limb darkening given as %s" % form, lambda f=form: limb_init(f), ip, "light_curves.limb_dark:LimbDarkLightCurve", "light curves")

    def secondary(n):
        o = build(ip, orbit_kwargs(dict(n=n, mass="a+P+rs", incl="b", ref="t0")))
        t, r = times("vec", "np")[0], give(radii(n, "pt"), "np")

        def make(W):
            u = [sc(A.sym("u1"), "py"), sc(A.sym("u2"), "py")]
            v = [sc(A.sym("v1"), "py"), sc(A.sym("v2"), "py")]
            s = give(posv(n, "sb"), "np")
            for x, w in ((u, "u_primary"), (v, "u_secondary"), (s, "surface_brightness_ratio")):
                given(W, x, w)
            return ip.call(ip.getattr(ip.modules["exoplanet"], "SecondaryEclipseLightCurve"), [u, v, s])
        o2 = build(ip, other_value(orbit_kwargs(dict(n=n, mass="a+P+rs", incl="b", ref="t0"))))
        with rint.Partition("purity"):
            history(ip, make, lc_calls(o, n, t, r)[:5], "the light curve", lc_calls(o2, n, t, r)[:3])
    for n in (2, None, 1):
        ck.ob("secondary-eclipse light curve [n=%s]" % n, lambda n=n: secondary(n), ip, "light_curves.secondary_eclipse:SecondaryEclipseLightCurve", "light curves")

    def interpolated(n):
        from .interp import Base, Ephemeris

        o = Ephemeris(n)
        t = times("vec", "np")[0]
        cls = ip.import_module("exoplanet.light_curves.interpolated").vars["InterpolatedLightCurve"]

        def make(W):
            return ip.call(cls, [Base(n or 1), sc(3, "py", "int64")], {"num_planets": sc(n or 1, "py", "int64")})
        calls = [("get_light_curve", [], dict({"orbit": o, "r": give(posv(n, "r"), "np"), "t": t}, **k))
                 for k in ({}, {"texp": sc(A.pos("texp"), "np"), "oversample": 3}, {"light_delay": True})]
        o2 = Ephemeris(n)
        o2.period, o2.t0 = other_value(o.period), other_value(o.t0)
        more = [(nm, a, dict(k, orbit=o2)) for nm, a, k in calls]
        with rint.Partition("purity"):
            history(ip, make, calls, "the light curve", more)
    for n in (2, None, 1):
        ck.ob("interpolated light curve [n=%s]" % n, lambda n=n: interpolated(n), ip, "light_curves.interpolated:InterpolatedLightCurve", "light curves")

    def grid(form, fill, via):
        pts = [arr([A.ZERO, A.ONE, A.ex(2)], "np"), arr([A.ZERO, A.ex(3)], "np")]
        V = np.empty((3, 2), dtype=object)
        for i in np.ndindex(3, 2):
            V[i] = A.sym("v%d%d" % i)
        vals = give(T(V, (tn.literal_axis(3), tn.literal_axis(2)), "np", "float64"), form)
        X = gen(A.sym("x", lo=0, hi=2), taxis("T"), "np")
        Y = gen(A.sym("y", lo=0, hi=3), taxis("T"), "np")
        ts = tn.stack([X, Y], axis=1)
        kw = {} if fill is None else {"fill_value": sc(fill, "py")}
        mod = ip.import_module("exoplanet.interp")
        with rint.Partition("purity", x=F(1, 2), y=F(1)):
            if via == "class":
                def make(W):
                    for v, w in ((pts, "the grid"), (vals, "the values")):
                        given(W, v, w)
                    return ip.call(mod.vars["RegularGridInterpolator"], [pts, vals], dict(kw))
                history(ip, make, [("evaluate", [ts], {})], "the interpolator")
            else:
                W = Watch(ip)
                for v, w in ((pts, "the grid"), (vals, "the values"), (ts, "the coordinates")):
                    W.given(v, w)
                ip.call(mod.vars["regular_grid_interp"], [pts, vals, ts], dict(kw))
                W.finish()
    for form, fill, via in itertools.product(("np", "pt"), (None, F(7)), ("class", "function")):
        ck.ob("grid interpolation [%s, fill %s, %s]" % (form, fill, via), lambda a=(form, fill, via): grid(*a), ip, "interp:regular_grid_interp", "interpolation")

    # -- priors
    def prior(fn, args, kw, sub=None):
        W = Watch(ip)
        f = public(ip, fn) if sub is None else ip.getattr(ip.import_module(sub), fn)
        kw = kw() if callable(kw) else dict(kw)
        args = args() if callable(args) else list(args)
        for i, x in enumerate(args):
            W.given(x, "the argument %d" % i)
        W.given(kw, "the keyword arguments")
        Built(ip, f, list(args), dict(kw))
        W.finish()

    ecc = "exoplanet.distributions.eccentricity"
    two = lambda a, b: arr([A.sym(a, lo=0, hi=F(1, 2), flags=("open",)), A.sym(b, lo=0, hi=F(1, 2), flags=("open",))], "np")
    for nm, fn, args, kw, sub in [
        ("angle", "angle", ["x"], lambda: {"shape": [2], "initval": arr([A.sym("th0"), A.sym("th1")], "np")}, None),
        ("angle with a list", "angle", ["x"], lambda: {"shape": 2, "initval": [sc(A.sym("th0"), "py"), sc(A.sym("th1"), "py")]}, None),
        ("unit disk", "unit_disk", ["x", "y"], lambda: {"shape": 2, "initval": [two("p", "q"), two("r", "s")]}, None),
        ("limb darkening", "quad_limb_dark", ["u"], lambda: {"initval": two("p", "q")}, None),
        ("limb darkening with a list", "quad_limb_dark", ["u"], lambda: {"initval": [sc(F(3, 10), "py"), sc(F(1, 5), "py")]}, None),
        ("impact parameter", "impact_parameter", ["b", arr([A.pos("k0"), A.pos("k1")], "np")], lambda: {"shape": 2, "initval": two("p", "q")}, None),
        ("Kipping", "kipping13", ["e"], lambda: {"lower": sc(F(1, 10), "py"), "upper": sc(F(8, 10), "py"), "shape": 2, "initval": two("p", "q")}, ecc),
        ("Kipping, fixed", "kipping13", ["e"], lambda: {"fixed": True, "observed": two("p", "q")}, ecc),
        ("Van Eylen", "vaneylen19", ["e"], lambda: {"fixed": True, "shape": 2, "initval": two("p", "q")}, ecc),
        ("Van Eylen, multi", "vaneylen19", ["e"], lambda: {"multi": True, "lower": sc(F(1, 10), "py")}, ecc),
    ]:
        ck.ob("prior: " + nm, lambda a=(fn, args, kw, sub): prior(*a), ip, "distributions:" + fn, "priors")

    # -- estimators
    def estimator(fn):
        W = Watch(ip)
        n = 5
        t = W.given(arr([F(k) for k in range(8)], "np"), "the times")
        y = W.given(arr([A.sym("y%d" % k) for k in range(8)], "np"), "the data")
        e = W.given(arr([A.pos("s%d" % k) for k in range(8)], "np"), "the errors")
        ranks = (0, 2, 0, 1, 0)
        fr = [A.ex(k + 1) for k in range(n)]
        pw = ranked(ranks)

        def ls(name, b):
            return (arr(fr, "np"), arr([8 * v for v in pw], "np"))

        def bls(name, b):
            if name == "autoperiod":
                return arr([A.pos("per%d" % k) for k in range(3)], "np")
            d = {k: arr([A.sym("%s%d" % (k, i)) for i in range(n)], "np") for k in ("depth", "transit_time", "duration")}
            d.update(objective="likelihood", period=arr([1 / v for v in fr], "np"), power=arr(pw, "np"))
            return Results(d)
        fft = lambda x, n=None, **k: arr([A.sym("ft%d" % i) for i in range(16 if n is None else int(tn.lift(n).item().const()))], "np")
        with Hooks(ip, LombScargle=Search("LombScargle", ls).hook, BoxLeastSquares=Search("BoxLeastSquares", bls).hook,
                   interp=lambda x, *a: arr([A.sym("yy%d" % k) for k in range(14)], "np"), fft__fft=fft, fft__ifft=fft,
                   gaussian_filter=lambda a, s: arr(ranked((3, 1, 0, 1, 2, 1, 0, 1, 2, 1, 0, 0, 0, 0)), "np")), Order(ip):
            if fn == "find_peaks":
                f, p = W.given(arr(fr, "np"), "the frequencies"), W.given(arr(pw, "np"), "the powers")
                for k in (0, 2):
                    ip.call(est(ip, fn), [f, p], {"max_peaks": k})
            elif fn == "lomb_scargle_estimator":
                for k in ({}, {"min_period": sc(F(1, 2), "py"), "max_period": sc(F(4), "py")}, {"filter_period": sc(A.pos("pf"), "py")}):
                    if "filter_period" in k:
                        continue
                    ip.call(est(ip, fn), [t, y], dict(k, yerr=e))
            elif fn == "bls_estimator":
                dur = W.given(arr([A.pos("d0"), A.pos("d1")], "np"), "the durations")
                ip.call(est(ip, fn), [t, y], {"yerr": e, "duration": dur})
            elif fn == "autocorr_estimator":
                ip.call(est(ip, fn), [t, y], {"yerr": e})
            else:
                P, t0 = W.given([sc(A.pos("P0"), "py")], "the periods"), W.given(arr([A.sym("t0_0")], "np"), "the transit times")
                q = W.given(Quantity(arr([A.pos("s%d" % k) for k in range(8)], "np"), ip.binop("truediv", unit(ip, "m"), unit(ip, "s"))), "the errors")
                for k in ({}, {"yerr": e}, {"yerr": q}, {"t0s": t0, "yerr": e}):
                    ip.call(est(ip, fn), [P, t, y], k)
        W.finish()
    for fn in ("find_peaks", "lomb_scargle_estimator", "bls_estimator", "autocorr_estimator", "estimate_semi_amplitude", "estimate_minimum_mass"):
        ck.ob("estimator: " + fn, lambda f=fn: estimator(f), ip, "estimators:" + fn, "estimators")

    # -- package state: the same entry point for one set of inputs, another,
    #    and the first again; the second compared with a package in which it
    #    is the first to be used
    from .distributions import same_models, summary

    def turns(scenario, same_results=results_equal):
        with rint.Partition("purity"):
            a, b, c = scenario(ip, False), scenario(ip, True), scenario(ip, False)
            new = scenario(ck.ip(fresh=True), True)
        same_results(a, c, "the result after other inputs were used")
        same_results(new, b, "the result after other inputs were used")

    def orbit_turn(cls, kw, calls):
        def go(p, other):
            src = other_value(kw) if other else kw
            o = build(p, {k: give(v, "np") for k, v in src.items()}, cls)
            return [p.call(p.getattr(o, nm), [other_value(x) if other else x for x in a], dict(k)) for nm, a, k in calls]
        return go
    tt = times("vec", "np")[0]
    some = [("get_relative_position", [tt], {}), ("get_radial_velocity", [tt], {}), ("in_transit", [tt], {})]
    src = planet_args(2)
    for nm, sc_ in (
        ("Keplerian orbit", orbit_turn("KeplerianOrbit", orbit_kwargs(cfgs[0]), some)),
        ("circular orbit", orbit_turn("KeplerianOrbit", orbit_kwargs(cfgs[2]), some)),
        ("orbit from the duration", orbit_turn("KeplerianOrbit", {k: src[k] for k in ("period", "t0", "b", "duration", "ror")}, some)),
        ("simple orbit", orbit_turn("SimpleTransitOrbit", {k: src[k] for k in ("period", "t0", "b", "duration")}, some[::2])),
    ):
        ck.ob("in turn: " + nm, lambda s=sc_: turns(s), ip, K if "simple" not in nm else "orbits.simple:SimpleTransitOrbit", "package state")

    def lc_turn(which):
        def go(p, other):
            ch = other_value if other else (lambda v: v)
            o = Ephemeris_(2, ch) if which == "interpolated" else Stub(2, "B" if other else "")
            r, t = ch(give(radii(2, "pt"), "np")), ch(tt)
            u, v = [[sc(ch(A.sym(x + str(i))), "py") for i in (1, 2)] for x in "uv"]
            if which == "limb":
                c = p.call(p.getattr(p.modules["exoplanet"], "LimbDarkLightCurve"), [u])
            elif which == "secondary":
                o = build(p, ch(orbit_kwargs(dict(n=2, mass="a+P+rs", incl="b", ref="t0"))))
                c = p.call(p.getattr(p.modules["exoplanet"], "SecondaryEclipseLightCurve"), [u, v, ch(give(posv(2, "sb"), "np"))])
            else:
                from .interp import Base

                c = p.call(p.import_module("exoplanet.light_curves.interpolated").vars["InterpolatedLightCurve"],
                           [Base(2), sc(3, "py", "int64")], {"num_planets": sc(2, "py", "int64")})
            out = []
            for k in ({}, {"texp": sc(ch(A.pos("texp")), "np"), "oversample": 5 if other else 3}):
                out.append(p.call(p.getattr(c, "get_light_curve"), [], dict({"orbit": o, "r": r, "t": t}, **k)))
            if which == "limb":
                d, b = ch(arr([A.pos("dep0"), A.pos("dep1")], "np")), ch(arr([A.sym("b0"), A.sym("b1")], "np"))
                out.append(p.call(p.getattr(c, "get_ror_from_approx_transit_depth"), [d, b]))
            return out
        return go

    def Ephemeris_(n, ch):
        from .interp import Ephemeris

        o = Ephemeris(n)
        o.period, o.t0 = ch(o.period), ch(o.t0)
        return o
    for w, anchor in (("limb", "light_curves.limb_dark:LimbDarkLightCurve.get_light_curve"),
                      ("secondary", "light_curves.secondary_eclipse:SecondaryEclipseLightCurve.get_light_curve"),
                      ("interpolated", "light_curves.interpolated:InterpolatedLightCurve.get_light_curve")):
        ck.ob("in turn: %s light curve" % w, lambda w=w: turns(lc_turn(w)), ip, anchor, "package state")

    def fn_turn(module, name, args, kw=None):
        def go(p, other):
            ch = other_value if other else (lambda v: v)
            f = p.import_module("exoplanet." + module).vars[name]
            return p.call(f, [ch(a(p)) if callable(a) else ch(a) for a in args], ch(dict(kw or {})))
        return go
    angles, eccs = arr([A.sym("M0"), A.sym("M1")], "np"), arr([A.sym("e0", lo=0, hi=1), A.sym("e1", lo=0, hi=1)], "np")
    pts = [arr([A.ZERO, A.ONE, A.ex(2)], "np"), arr([A.ZERO, A.ex(3)], "np")]
    vals = T(np.array([[A.sym("v%d%d" % (i, j)) for j in range(2)] for i in range(3)], dtype=object),
             (tn.literal_axis(3), tn.literal_axis(2)), "np", "float64")
    at = tn.stack([gen(A.sym("x", lo=0, hi=2), taxis("T"), "np"), gen(A.sym("y", lo=0, hi=3), taxis("T"), "np")], axis=1)
    for nm, s_ in (
        ("true anomaly", fn_turn("orbits.keplerian", "get_true_anomaly", [angles, eccs])),
        ("semimajor axis from the duration", fn_turn("orbits.keplerian", "get_aor_from_transit_duration",
                                                     [give(posv(2, k), "np") for k in ("tau", "P", "b")], {"ror": give(posv(2, "k"), "np")})),
        ("grid interpolation", fn_turn("interp", "regular_grid_interp", [pts, vals, at])),
        ("unit conversion", fn_turn("units", "to_unit", [lambda p: Quantity(arr([A.pos("v0"), A.pos("v1")], "np"), unit(p, "km")), lambda p: unit(p, "m")])),
        ("minimum mass", fn_turn("estimators", "estimate_minimum_mass", [[sc(A.pos("P0"), "py")], arr([A.sym("T%d" % k) for k in range(4)], "np"),
                                                                     arr([A.sym("y%d" % k) for k in range(4)], "np")])),
    ):
        ck.ob("in turn: " + nm, lambda s=s_: turns(s), ip, None, "package state")

    def prior_turn(fn, args, kw, sub):
        def go(p, other):
            ch = other_value if other else (lambda v: v)
            f = public(p, fn) if sub is None else p.getattr(p.import_module(sub), fn)
            k = ch(kw() if callable(kw) else dict(kw))
            a = ch(args() if callable(args) else list(args))
            return summary(p, Built(p, f, list(a), dict(k)))
        return go
    for nm, fn, args, kw, sub in [
        ("angle", "angle", ["x"], lambda: {"shape": [2], "initval": arr([A.sym("th0"), A.sym("th1")], "np")}, None),
        ("unit disk", "unit_disk", ["x", "y"], lambda: {"shape": 2, "initval": [two("p", "q"), two("r", "s")]}, None),
        ("limb darkening", "quad_limb_dark", ["u"], lambda: {"initval": two("p", "q")}, None),
        ("impact parameter", "impact_parameter", ["b", arr([A.pos("k0"), A.pos("k1")], "np")], lambda: {"shape": 2, "initval": two("p", "q")}, None),
        ("Kipping", "kipping13", ["e"], lambda: {"lower": sc(A.sym("lo", lo=0, hi=F(1, 4)), "py"), "shape": 2}, ecc),
        ("Van Eylen", "vaneylen19", ["e"], lambda: {"shape": 2, "initval": two("p", "q")}, ecc),
    ]:
        ck.ob("in turn: prior " + nm, lambda a=(fn, args, kw, sub): turns(prior_turn(*a), lambda x, y, w: same_models(x, y)),
              ip, "distributions:" + fn, "package state")

    # -- small functions
    def functions():
        W = Watch(ip)
        mod = ip.import_module("exoplanet.orbits.keplerian").vars
        M, e = W.given(arr([A.sym("M0"), A.sym("M1")], "np"), "M"), W.given(arr([A.sym("e0", lo=0, hi=1), A.sym("e1", lo=0, hi=1)], "np"), "e")
        with rint.Partition("purity"):
            ip.call(mod["get_true_anomaly"], [M, e])
            a = [W.given(give(posv(2, k), "np"), k) for k in ("tau", "P", "b", "k")]
            ip.call(mod["get_aor_from_transit_duration"], a[:3], {"ror": a[3]})
        W.finish()
    ck.ob("orbit functions", functions, ip, K, "functions")

    def citations():
        W = Watch(ip)
        c = ip.import_module("exoplanet.citations").vars
        keys = W.given(["kipping13"], "the citations")
        m = ip.call(ip.getattr(ip.import_module("exoplanet.compat").vars["pm"], "Model"), [], {})
        ip.call(c["add_citations_to_model"], [keys], {"model": m})
        ip.call(c["add_citations_to_model"], [W.given(("pymc3",), "more citations")], {"model": m})
        a = ip.call(c["get_citations_for_model"], [], {"model": m})
        b = ip.call(c["get_citations_for_model"], [], {"model": m})
        if list(a) != list(b):
            raise Fail("the citations change between two calls")
        W.finish()
    ck.ob("citations", citations, ip, "citations:add_citations_to_model", "functions")

    def units():
        W = Watch(ip)
        u = ip.import_module("exoplanet.units").vars
        q = W.given(Quantity(arr([A.pos("v0"), A.pos("v1")], "np"), unit(ip, "km")), "the quantity")
        a = W.given(arr([A.pos("v0"), A.pos("v1")], "np"), "the array")
        ip.call(u["to_unit"], [q, unit(ip, "m")])
        ip.call(u["to_unit"], [a, unit(ip, "m")])
        ip.call(u["has_unit"], [q])
        p = arr([A.pos("v0"), A.pos("v1")])
        tagged = ip.call(u["with_unit"], [p, unit(ip, "km")])
        W.given(tagged, "the tagged tensor")
        ip.call(u["to_unit"], [tagged, unit(ip, "m")])
        ip.call(u["has_unit"], [tagged])
        W.finish()
    ck.ob("units", units, ip, "units:to_unit", "functions")


# ---- C39 -------------------------------------------------------------------------
class Traced:
    """Events of a call that evaluate, branch on or round tensor values."""

    BAD = {
        "tensor_truth": "branches on the value of a tensor",
        "eager_eval": "evaluates a tensor",
        "test_value": "reads the test value of a tensor",
        "gradient_cut": "blocks the gradient",
    }

    def __init__(self, ip, allow=(), rounding=False):
        self.ip = ip
        self.allow = allow
        self.rounding = rounding
        self.rounds = []

    def __enter__(self):
        self.start = len(self.ip.events)
        self.old = models.ROUNDED[0]
        models.ROUNDED[0] = lambda what, t: self.rounds.append((what, t.kind, self.ip.site(), t))
        return self

    def __exit__(self, et, ev, tb):
        models.ROUNDED[0] = self.old
        if et is not None:
            return False
        bad = ["%s (%s)" % (self.BAD[e.kind], e.site) for e in self.ip.events[self.start:] if e.kind in self.BAD and e.kind not in self.allow]
        if not self.rounding:
            bad += ["%s of %s (%s)" % (w, show(t, 60), s) for w, k, s, t in self.rounds]
        if bad:
            raise Fail("; ".join(bad[:3]))
        return False


def tensors(v, what):
    """Every number of a result is a double-precision tensor."""
    if isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            tensors(x, "%s[%d]" % (what, i))
        return
    if not isinstance(v, T) or v.kind != "pt":
        raise Fail("%s is not a tensor but %s" % (what, show_any(v)))
    if v.dtype != "float64":
        raise Fail("%s has type %s" % (what, v.dtype))
    for e in v.data.flat:
        for a in A.atoms_of(e).values():
            if isinstance(a.name, str) and (a.name.startswith("lossy_")):
                raise Fail("%s goes through %s" % (what, a.name))


def depends(v, names, what):
    """Every listed parameter appears in the result outside of comparisons
    and roundings, that is with a derivative."""
    have = set()
    seen = set()

    def walk(e):
        for i in {i for m in e.d for i, _ in m} - seen:
            seen.add(i)
            a = A.ATOMS[i]
            if a.kind == "sym":
                have.add(a.name)
            elif a.poly is not None:
                walk(a.poly)
            elif a.args:
                if a.name in ("gt", "floor", "eq0", "bool"):
                    continue
                for z in a.args:
                    if isinstance(z, A.Expr):
                        walk(z)
    for t in v if isinstance(v, (list, tuple)) else [v]:
        for e in t.data.flat:
            walk(e)
    miss = [n for n in names if n not in have]
    if miss:
        raise Fail("%s has no derivative with respect to %s" % (what, ", ".join(miss)))


@check("C39")
def c39(ck):
    ck.rule(
        "Every public evaluation is interpreted with tensor parameters; "
        "truth values, evaluations, test values, gradient blocks, roundings "
        "and integer or single-precision conversions of tensor values on any "
        "path are violations, the results must be double-precision tensors, "
        "and every parameter given must occur in them outside of comparisons."
    )
    K = "orbits.keplerian:KeplerianOrbit"
    for back, opts in (("pymc", {}), ("pymc3", None)):
        from .distributions import PM3

        ip = ck.ip(**(PM3 if opts is None else opts))

        def orbit(ip, cfg, tform, nm, k):
            with rint.Partition("smooth"):
                with Traced(ip):
                    o = build(ip, {a: give(v, "pt") for a, v in orbit_kwargs(cfg).items()})
                    r = ip.call(ip.getattr(o, nm), [times("vec", tform)[0]], dict(k))
                    tensors(r, nm)
        cfgs = [
            dict(mass="P+ms+rs", ecc="omega", incl="b", ref="t0", Omega=True, n=2),
            dict(mass="P+rho+rs", ecc="sincos", incl="incl", ref="t_periastron", n=2),
            dict(mass="a+P+rs", ecc=None, incl="b", ref="t0", mp=False, n=None),
            dict(mass="a", ecc=None, incl=None, ref=None, mp=False, n=1),
        ]
        for i, c in enumerate(cfgs):
            for nm, a, k in orbit_calls(c["n"], None):
                if nm == "in_transit":
                    continue
                for tform in ("np", "pt"):
                    if back == "pymc3" and (tform == "np" or i > 1):
                        continue
                    ck.ob("%s(%s) [%s, %s, %s]" % (nm, ", ".join(sorted(k)), c["mass"] + ("+ecc" if c["ecc"] else ""), tform, back),
                          lambda a=(ip, c, tform, nm, k): orbit(*a), ip, K + "." + nm, "orbits")

        def influence(ip, cfg):
            """Each parameter moves the relative position or the velocity."""
            n = cfg["n"]
            kw = {a: give(v, "pt") for a, v in orbit_kwargs(cfg).items()}
            o = build(ip, kw)
            t = times("vec", "pt")[0]
            out = []
            for nm in ("get_relative_position", "get_star_velocity"):
                r = ip.call(ip.getattr(o, nm), [t], {})
                out += list(r)
            names = set()
            for a, v in kw.items():
                if a == "r_star" or (a == "incl" and False):
                    continue
                for e in v.data.flat:
                    names |= set(A.symbols_of(e))
            depends(out, sorted(names | {"t"}), "the motion")
        for c in cfgs[:2]:
            ck.ob("parameters of the motion [%s, %s]" % (c["mass"], back), lambda a=(ip, c): influence(*a), ip, K, "orbits")

        def timing(ip, cfg, nm, k):
            from .ttv import Setup

            with rint.Partition("smooth"):
                with Traced(ip):
                    S = Setup(ip, cfg)
                    r = ip.call(ip.getattr(S.orbit, nm), [times("vec", "pt")[0]], dict(k))
                    tensors(r, nm)
        for c in (dict(pat="gaps", mode="times", incl="b"), dict(pat="gaps", mode="ttvs", incl="b", ecc=True), dict(pat="gaps", mode="times", period="delta", incl="b")):
            for nm, k in (("get_relative_position", {}), ("get_radial_velocity", {}), ("get_planet_position", {"light_delay": True}), ("get_star_acceleration", {})):
                ck.ob("TTV %s [%s, %s]" % (nm, ", ".join("%s=%s" % x for x in c.items()), back), lambda a=(ip, c, nm, k): timing(*a), ip, "orbits.ttv:TTVOrbit", "orbits")

        def simple(ip, n):
            src = planet_args(n)
            with Traced(ip, rounding=True):
                kw = {k: give(src[k], "pt") for k in ("period", "duration", "t0", "b", "ror", "r_star")}
                o = build(ip, kw, "SimpleTransitOrbit")
                r = ip.call(ip.getattr(o, "get_relative_position"), [times("vec", "pt")[0]], {})
                tensors(r, "the position")
        for n in (2, None):
            ck.ob("simple orbit [n=%s, %s]" % (n, back), lambda a=(ip, n): simple(*a), ip, "orbits.simple:SimpleTransitOrbit.get_relative_position", "orbits")

        def flux(ip, cls, n, k, real):
            with rint.Partition("smooth"):
                o = build(ip, orbit_kwargs(dict(n=n, mass="a+P+rs", incl="b", ref="t0", ecc="omega" if real == "eccentric" else None))) if real else Stub(n)
                with Traced(ip):
                    if cls == "LimbDarkLightCurve":
                        lc = light_curve(ip, n)
                    else:
                        P2 = lambda a: [sc(A.sym(a + "1")), sc(A.sym(a + "2"))]
                        lc = ip.call(ip.getattr(ip.modules["exoplanet"], cls), [P2("u"), P2("v"), posv(n, "sb")])
                    v = call(ip, lc, "get_light_curve", orbit=o, r=give(posv(n, "r"), "pt"), t=times("vec", "pt")[0], **k)
                    tensors(v, "the flux")
        for cls in ("LimbDarkLightCurve", "SecondaryEclipseLightCurve"):
            for n in (2, None):
                for real in ((None, "circular", "eccentric") if cls == "LimbDarkLightCurve" else ("circular", "eccentric")):
                    for k in ({}, {"use_in_transit": False}, {"texp": sc(A.pos("texp")), "oversample": 3}, {"texp": gen(A.pos("texp"), taxis("T"), "pt"), "oversample": 3, "order": 1, "use_in_transit": False}):
                        if real and k.get("use_in_transit") is not False:
                            continue  # the selection of times may compare and wrap
                        ck.ob("%s [n=%s, %s orbit, %s, %s]" % (cls, n, real or "any", "+".join(k) or "defaults", back), lambda a=(ip, cls, n, k, real): flux(*a), ip,
                              ("light_curves.limb_dark:" if cls[0] == "L" else "light_curves.secondary_eclipse:") + cls + ".get_light_curve", "light curves")

        def influence_flux(ip, n, texp):
            o = Stub(n)
            lc = light_curve(ip, n)
            r = posv(n, "r")
            k = {"texp": sc(A.pos("texp")), "oversample": 3} if texp else {}
            v = call(ip, lc, "get_light_curve", orbit=o, r=r, t=times("vec", "pt")[0], use_in_transit=False, **k)
            names = {"u1", "u2", "t", "R"} | {"r%d" % i for i in range(n or 1)} | ({"texp"} if texp else set())
            depends([v], sorted(names), "the flux")
        for n in (2, None):
            for texp in (False, True):
                ck.ob("parameters of the flux [n=%s, exposure %s, %s]" % (n, texp, back), lambda a=(ip, n, texp): influence_flux(*a), ip,
                      "light_curves.limb_dark:LimbDarkLightCurve.get_light_curve", "light curves")

        def interpolated(ip, n):
            from .interp import Base, Ephemeris

            cls = ip.import_module("exoplanet.light_curves.interpolated").vars["InterpolatedLightCurve"]
            with Traced(ip, rounding=True):
                lc = ip.call(cls, [Base(n or 1), sc(3, "py", "int64")], {"num_planets": sc(n or 1, "py", "int64")})
                with rint.Partition("smooth"):
                    v = call(ip, lc, "get_light_curve", orbit=Ephemeris(n), r=posv(n, "r"), t=times("vec", "pt")[0])
                tensors(v, "the flux")
        for n in (2, None):
            ck.ob("interpolated light curve [n=%s, %s]" % (n, back), lambda a=(ip, n): interpolated(*a), ip,
                  "light_curves.interpolated:InterpolatedLightCurve.get_light_curve", "light curves")

        def depth(ip, jac):
            with Traced(ip):
                v = call(ip, light_curve(ip), "get_ror_from_approx_transit_depth", posv(2, "dep"), give(planet_args(2)["b"], "pt"), jac=jac)
                tensors(v, "the radius ratio")
        for jac in (False, True):
            ck.ob("radius from the depth [jac=%s, %s]" % (jac, back), lambda a=(ip, jac): depth(*a), ip,
                  "light_curves.limb_dark:LimbDarkLightCurve.get_ror_from_approx_transit_depth", "light curves")

        def grid(ip, fill):
            V = np.empty((3, 2), dtype=object)
            for i in np.ndindex(3, 2):
                V[i] = A.sym("v%d%d" % i)
            pts = [arr([A.ZERO, A.ONE, A.ex(2)], "np"), arr([A.ZERO, A.ex(3)], "np")]
            X, Y = gen(A.sym("x", lo=0, hi=2), taxis("T"), "pt"), gen(A.sym("y", lo=0, hi=3), taxis("T"), "pt")
            mod = ip.import_module("exoplanet.interp").vars
            with rint.Partition("smooth", x=F(1, 2), y=F(1)):
                with Traced(ip, rounding=True):
                    r = ip.call(mod["regular_grid_interp"], [pts, T(V, (tn.literal_axis(3), tn.literal_axis(2)), "pt", "float64"), tn.stack([X, Y], axis=1)],
                                {} if fill is None else {"fill_value": sc(fill, "py")})
                    tensors(r, "the interpolated value")
            depends([r], ["x", "y"], "the interpolated value")
        for fill in (None, F(7)):
            ck.ob("grid interpolation [fill %s, %s]" % (fill, back), lambda a=(ip, fill): grid(*a), ip, "interp:regular_grid_interp", "interpolation")

        def prior(ip, fn, args, kw, sub, need):
            f = public(ip, fn) if sub is None else ip.getattr(ip.import_module(sub), fn)
            with Traced(ip):
                b = Built(ip, f, list(args), dict(kw))
                tensors(b.out, "the variable")
                for p in b.pots:
                    tensors(p.value, "the potential")
            out = [x for x in (b.out if isinstance(b.out, (list, tuple)) else [b.out])] + [p.value for p in b.pots]
            pars = [v for e in b.rvs for v in e.params.values() if isinstance(v, T)]
            depends(out + pars, need, "the prior")
        ecc = "exoplanet.distributions.eccentricity"
        lohi = {"lower": sc(A.sym("lo", lo=0, hi=F(1, 3), flags=("open",))), "upper": sc(A.sym("hi", lo=F(1, 2), hi=1, flags=("open",)))}
        for nm, fn, args, kw, sub, need in [
            ("angle", "angle", ["x"], {"shape": 2}, None, []),
            ("unit disk", "unit_disk", ["x", "y"], {"shape": 2}, None, []),
            ("limb darkening", "quad_limb_dark", ["u"], {}, None, []),
            ("impact parameter", "impact_parameter", ["b", posv(2, "k")], {"shape": 2}, None, ["k0", "k1"]),
            ("impact parameter, scalar", "impact_parameter", ["b", sc(A.pos("k"))], {}, None, ["k"]),
            ("Kipping", "kipping13", ["e"], {"fixed": True}, ecc, []),
            ("Kipping, hyper", "kipping13", ["e"], {}, ecc, []),
            ("Kipping, bounded", "kipping13", ["e"], dict(lohi, fixed=True), ecc, ["lo", "hi"]),
            ("Van Eylen", "vaneylen19", ["e"], {"fixed": True}, ecc, []),
            ("Van Eylen, hyper", "vaneylen19", ["e"], {}, ecc, []),
            ("Van Eylen, bounded", "vaneylen19", ["e"], dict(lohi, multi=True), ecc, ["lo", "hi"]),
        ]:
            ck.ob("prior: %s [%s]" % (nm, back), lambda a=(ip, fn, args, kw, sub, need): prior(*a), ip, "distributions:" + fn, "priors")

    def names():
        """Gradient-blocking names are not used anywhere in the package."""
        import ast
        import os

        from ..harness import SRC
        bad = []
        words = {"disconnected_grad", "zero_grad", "consider_constant", "grad_clip", "undefined_grad"}
        for root, _, fs in os.walk(os.path.join(SRC, "exoplanet")):
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(root, f)
                for n in ast.walk(ast.parse(open(p).read())):
                    w = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else n.name if isinstance(n, ast.alias) else None
                    if w in words:
                        bad.append("%s:%d :: the gradient is blocked by %s" % (os.path.relpath(p, os.path.dirname(SRC)), getattr(n, "lineno", 0), w))
        return bad
    ck.static("gradient-blocking operations", names(), None, "names")


# ---- C40 -------------------------------------------------------------------------
# shapes of the times: numbers are literal sizes, letters unknown ones
SHAPES = {
    "scalar": (), "vector": ("T",), "matrix": ("T", "S"), "one": (1,),
    "two": (2,), "three": (3,), "one by one": (1, 1), "row": (1, "T"),
    "column": ("T", 1), "two by two": (2, 2), "vector by two": ("T", 2),
    "two by one": (2, 1), "two by three": (2, 3),
}


def time_array(shape, tkind):
    """Times with one symbol per literal entry."""
    axes = tuple(taxis(s) if isinstance(s, str) else tn.literal_axis(s) for s in shape)
    lit = [a.n is not None for a in axes]
    if all(lit) and int(np.prod([a.n for a in axes] or [1])) == 1 or not any(lit):
        name = lambda k: "t"
    else:
        # one symbol per literal entry
        name = lambda k: "t" + "".join("xyz"[i] for i, l in zip(k, lit) if l)
    d = np.empty(tuple(a.size for a in axes), dtype=object)
    names = {}
    for k in np.ndindex(*d.shape):
        names[k] = name(k)
        d[k] = A.sym(names[k], lo=-6, hi=6)
    return T(d, axes, tkind, "float64"), names


def squeezed(axes):
    return tuple(a for a in axes if a.n != 1)


def own_names(names, j, n):
    """Symbols of the entry of planet j: those of the other planets are not
    among them."""
    import re

    out = set()
    for s in names:
        m = re.match(r"(?:t0_|[A-Za-z]+)(\d+)(?:_\d+)?$", s)
        if m and not (s.startswith("t0_") and len(s) == 3) and int(m.group(1)) != j:
            out.add(s)
    return out


def entries(v, t, tnames, n, what):
    """Shape S + (N,), unit-length axes squeezed; every entry has the symbols
    of its own time and its own planet only."""
    import re

    v = tn.lift(v)
    full = tuple(t.axes) + (() if n is None else (tn.literal_axis(n),))
    want = squeezed(full)
    if len(v.axes) != len(want) or not all(tn.same_axis(a, b) for a, b in zip(v.axes, want)):
        raise Fail("%s has shape %s for times of shape %s and %s, expected %s" % (
            what, list(v.axes), list(t.axes), "a scalar planet" if n is None else "%d planets" % n, list(want)))
    data = v.data.reshape(tuple(a.size for a in full))
    for k in np.ndindex(*data.shape):
        kt, j = (k, 0) if n is None else (k[:-1], k[-1])
        names = set(A.symbols_of(data[k]))
        other = own_names(names, j, n)
        if other:
            raise Fail("%s%s depends on %s, which belongs to another planet" % (what, list(k), sorted(other)[0]))
        times_ = {s for s in names if re.match(r"t[xyz]*$", s)}
        if times_ - {tnames[kt]}:
            raise Fail("%s%s depends on the time %s" % (what, list(k), sorted(times_)[0]))
        if tnames[kt] not in times_ and not (data[k].const() is not None or names <= {"plx"}):
            raise Fail("%s%s does not depend on its time" % (what, list(k)))
    return data


def components(r, what):
    if isinstance(r, (list, tuple)):
        return [("%s[%d]" % (what, i), x) for i, x in enumerate(r)]
    return [(what, r)]


@check("C40")
def c40(ck):
    ck.rule(
        "For every shape of times (scalar, unknown and literal lengths, "
        "lengths equal to the number of planets, unit-length axes) and one "
        "to three planets or a scalar one, every evaluation of the three "
        "kinds of orbit is interpreted; axes are compared with S + (N,) "
        "squeezed, every entry may contain only the symbols of its own time "
        "and planet, and equals the scalar-time result at that time."
    )
    ip = ck.ip()
    full = dict(mass="P+ms+rs", ecc="omega", incl="b", ref="t0", Omega=True)
    plain = dict(mass="a+P+rs", ecc=None, incl="incl", ref="t_periastron")
    lone = dict(mass="a", ecc=None, incl=None, ref=None, mp=False)

    def one(ip, cfg, shape, tkind, nm, k):
        n = cfg["n"]
        with rint.Partition("smooth"):
            o = build(ip, orbit_kwargs(cfg))
            t, names = time_array(SHAPES[shape], tkind)
            got = components(ip.call(ip.getattr(o, nm), [t], dict(k)), nm)
            ref = components(ip.call(ip.getattr(o, nm), [sc(A.sym("t"), tkind)], dict(k)), nm)
            for (w, g), (_, r) in zip(got, ref):
                m = 1 if n is None else n
                data = entries(g, t, names, n, w)
                r = entries(r, sc(A.sym("t")), {(): "t"}, n, w)
                for kk in np.ndindex(*data.shape):
                    kt, j = (kk, ()) if n is None else (kk[:-1], kk[-1:])
                    if k.get("light_delay") and names[kt] != "t":
                        continue
                    same(data[kk], A.subs(r[j], {"t": A.sym(names[kt], lo=-6, hi=6)}) if names[kt] != "t" else r[j], "%s%s" % (w, list(kk)))

    i = 0
    for cn, cfg in (("full", full), ("plain", plain), ("lone", lone)):
        for n in (None, 1, 2, 3):
            c = dict(cfg, n=n)
            for shape in SHAPES:
                for nm, a, k in orbit_calls(n, None):
                    if nm == "in_transit":
                        continue
                    i += 1
                    if not ck.thorough:
                        # the code paths do not depend on the parameters of
                        # the orbit: sample the product
                        if cn == "lone" and (n != 1 or shape not in ("scalar", "vector", "one", "two")):
                            continue
                        if cn == "plain" and shape not in ("vector", "two", "one", "three") and i % 3:
                            continue
                        if cn == "full" and n == 3 and shape not in ("three", "vector", "scalar") and i % 4:
                            continue
                        if k.get("light_delay") and (shape not in ("scalar", "vector", "one", "two", "two by two") or cn != "full"):
                            continue
                    tk = "pt" if i % 2 else "np"
                    ck.ob("%s(%s) [%s, n=%s, times %s]" % (nm, ", ".join(sorted(k)), cn, n, shape),
                          lambda a=(ip, c, shape, tk, nm, k): one(*a), ip, "orbits.keplerian:KeplerianOrbit." + nm, "keplerian")

    def timing(ip, cfg, shape, tkind, nm, k):
        from .ttv import Setup

        with rint.Partition("smooth"):
            S = Setup(ip, cfg)
            t, names = time_array(SHAPES[shape], tkind)
            for w, g in components(ip.call(ip.getattr(S.orbit, nm), [t], dict(k)), nm):
                entries(g, t, names, S.n, w)
    for pat in ("full", "one planet gaps", "three"):
        for mode in ("times", "ttvs"):
            for shape in SHAPES:
                n = {"full": 2, "one planet gaps": 1, "three": 3}[pat]
                for nm, a, k in orbit_calls(n, None):
                    if nm == "in_transit":
                        continue
                    i += 1
                    if not ck.thorough and i % 5 and not (shape in ("two", "one", "three") and nm in ("get_relative_position", "get_radial_velocity") and "light_delay" not in k):
                        continue
                    if not ck.thorough and k.get("light_delay") and (shape not in ("vector", "two", "one") or pat == "three"):
                        continue
                    c = dict(pat=pat, mode=mode, ecc=mode == "ttvs", incl="b", Omega=mode == "times")
                    ck.ob("TTV %s(%s) [%s, %s, times %s]" % (nm, ", ".join(sorted(k)), pat, mode, shape),
                          lambda a=(ip, c, shape, "pt" if i % 2 else "np", nm, k): timing(*a), ip, "orbits.ttv:TTVOrbit." + nm, "ttv")

    def simple(ip, n, shape, tkind):
        src = planet_args(n)
        with rint.Partition("smooth"):
            o = build(ip, {k: src[k] for k in ("period", "duration", "t0", "b", "ror", "r_star")}, "SimpleTransitOrbit")
            t, names = time_array(SHAPES[shape], tkind)
            x, y, z = ip.iterate(ip.call(ip.getattr(o, "get_relative_position"), [t], {}))
            entries(x, t, names, n, "x")
    for n in (None, 1, 2, 3):
        for shape in SHAPES:
            ck.ob("simple orbit [n=%s, times %s]" % (n, shape), lambda a=(ip, n, shape, "pt"): simple(*a), ip, "orbits.simple:SimpleTransitOrbit.get_relative_position", "simple")
