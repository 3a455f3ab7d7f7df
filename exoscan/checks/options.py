"""C45: every option that is accepted has an effect or is refused."""

import ast
import contextlib
import os
from fractions import Fraction as F

import numpy as np

from .. import algebra as A
from .. import models as md
from .. import rint
from .. import tensor as tn
from ..harness import SRC, Fail, arr, eq, gen, sc, show
from ..interp import Class, Func, Model, Obj
from ..models import Quantity, UnitVal
from ..tensor import AbsRaise, T, Unsupported
from . import check
from .common import (
    att, build, call, orbit_kwargs, per_planet, planet_args, posv, taxis,
    times, vec,
)
from .distributions import PM3, Built, public, summary
from .estimators import Hooks, Order, Results, Search, est, frequencies, ranked, unit
from .interp import Base, Ephemeris
from .lightcurves import Stub
from .registry import model_of, package_files, recorded


def selection(e):
    """The conditions a selection is made of."""
    if not isinstance(e, A.Expr):
        return [repr(e)]
    at = [a for a in A.atoms_of(e).values() if a.kind == "fn" and a.name in ("gt", "eq", "eq0")]
    return ["selection %d" % len(at)] + [x for a in sorted(at, key=lambda a: a.id) for x in a.args] + ([] if at else [e])


# ---- outcomes --------------------------------------------------------------------
def digest(v, seen=None):
    """A flat list of strings and abstract numbers."""
    seen = seen if seen is not None else set()
    if isinstance(v, Quantity):
        return ["quantity %s" % (v.unit,)] + digest(v.v, seen)
    if isinstance(v, T):
        out = ["array %s" % (tuple(repr(a) for a in v.axes),)]
        for a in v.axes:
            while a.parent is not None:
                for e in a.sel if isinstance(a.sel, (list, tuple)) else [a.sel]:
                    out += selection(e)
                a = a.parent
        u = v.attrs.get("__exoplanet_unit__") if v.attrs else None
        if u is not None:
            out += ["unit %r" % (u,), A.ex(getattr(u, "scale", 0))]
        return out + ["dtype " + str(v.dtype)] + list(v.data.flat)
    if isinstance(v, A.Expr):
        return [v]
    if isinstance(v, UnitVal):
        return ["unit", A.ex(v.scale), str(sorted(v.dims.items()))]
    if isinstance(v, Results):
        return digest(v.d, seen)
    if isinstance(v, (list, tuple)):
        return ["list %d" % len(v)] + [y for x in v for y in digest(x, seen)]
    if isinstance(v, dict):
        return ["dict"] + [y for k in v for y in ["key %s" % (k,)] + digest(v[k], seen)]
    if isinstance(v, (set, frozenset)):
        return ["set"] + sorted(map(str, v))
    if isinstance(v, (int, F)) and not isinstance(v, bool):
        return [A.ex(v)]
    if v is None or isinstance(v, (str, bool)):
        return [repr(v)]
    return [type(v).__name__]


def outcome(thunk):
    try:
        return ("value", digest(thunk()))
    except AbsRaise as e:
        return ("raise", getattr(e.exc, "__name__", str(e.exc)), str(e))


def differ(a, b):
    if a[0] != b[0]:
        return True
    if a[0] == "raise":
        return a[1:] != b[1:]
    x, y = a[1], b[1]
    if len(x) != len(y):
        return True
    for p, q in zip(x, y):
        if isinstance(p, str) or isinstance(q, str):
            if not (isinstance(p, str) and isinstance(q, str) and p == q):
                return True
        elif p is not q and not eq(p, q):
            return True
    return False


def refusal(o):
    """An error that says the option is not supported."""
    return o[0] == "raise"


OMIT = object()


class Cases:
    def __init__(self, ck):
        self.ck = ck
        self.known = {}  # "module:callable" -> parameters covered

    def add(self, ip, target, run, base, options, group, tag="", cases=True):
        """run(ip, kw): the observed values.  options: parameter ->
        alternatives to the value in base; an alternative is a value or a
        (changes to base, value) pair; OMIT leaves the parameter out."""
        cover = self.known.setdefault(target, set())
        for p, alts in options.items():
            cover.add(p)
            for i, alt in enumerate(alts if isinstance(alts, list) else [alts]):
                b = dict(base() if callable(base) else base)
                v = alt
                if isinstance(alt, tuple) and len(alt) == 2 and isinstance(alt[0], dict):
                    b.update(alt[0])
                    b = {k: x for k, x in b.items() if x is not OMIT}
                    v = alt[1]
                w = {k: x for k, x in b.items()}
                if v is OMIT:
                    w.pop(p, None)
                else:
                    w[p] = v

                def go(ip=ip, run=run, b=b, w=w, p=p):
                    with rint.Partition("options") if cases else contextlib.nullcontext():
                        x = outcome(lambda: run(ip, dict(b)))
                        y = outcome(lambda: run(ip, dict(w)))
                    if x[0] == "raise":
                        raise Unsupported("the reference call raises %s: %s" % (x[1], x[2]))
                    if not differ(x, y):
                        raise Fail("%s has no effect and is not refused" % p)
                self.ck.ob("%s of %s%s [%d, %s]" % (p, target.split(":")[1], tag, i, ip.backend), go, ip, target, group)

    def refused(self, ip, target, run, base, p, v, group):
        """The option must be refused."""
        self.known.setdefault(target, set()).add(p)

        def go():
            with rint.Partition("options"):
                x = outcome(lambda: run(ip, dict(base)))
                y = outcome(lambda: run(ip, dict(base, **{p: v})))
            if x[0] == "raise":
                raise Unsupported("the reference call raises %s: %s" % (x[1], x[2]))
            if y[0] != "raise" and not differ(x, y):
                raise Fail("%s has no effect and is not refused" % p)
        self.ck.ob("%s of %s [refused, %s]" % (p, target.split(":")[1], ip.backend), go, ip, target, group)

    def excepted(self, target, *params):
        """Documented: these have nothing to act on."""
        self.known.setdefault(target, set()).update(params)


def other(v, name):
    """Another unknown value of the same kind and shape."""
    t = tn.lift(v)
    d = np.empty(t.data.shape, dtype=object)
    for k in np.ndindex(*d.shape):
        d[k] = t.data[k] * A.sym("q_" + name, lo=F(101, 100), hi=F(51, 50))
    return T(d, t.axes, t.kind, t.dtype)


# ---- public callables ------------------------------------------------------------
def signatures():
    """(module, callable, parameters, function node) of the public callables."""
    out = []
    for n, p in package_files():
        tree = ast.parse(open(p).read())
        short = n.replace("exoplanet.", "", 1)
        for node in tree.body:
            if isinstance(node, ast.FunctionDef) and not node.name.startswith("_"):
                out.append((short, node.name, node, p))
            elif isinstance(node, ast.ClassDef) and not node.name.startswith("_"):
                for m in node.body:
                    if isinstance(m, ast.FunctionDef) and (m.name == "__init__" or not m.name.startswith("_")):
                        out.append((short, node.name + "." + m.name, m, p))
    return out


def params(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg not in ("self", "cls") and not x.arg.startswith("_")]


def mentions(node, name):
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "locals":
            return True
    return False


@check("C45")
def c45(ck):
    ck.rule(
        "For every parameter of every public callable, the callable is "
        "interpreted with two values of that parameter (or with and without "
        "it) on inputs where it applies; results, created variables, recorded "
        "citations and the arguments that reach the underlying objects must "
        "differ, or the call must raise. Parameters that are not in the table "
        "of cases must at least be read by the function."
    )
    C = Cases(ck)
    K = "orbits.keplerian:KeplerianOrbit"
    TV = "orbits.ttv:TTVOrbit"
    t = lambda kind="vec", k="pt": times(kind, k)[0]
    t2 = lambda: gen(A.sym("t") + A.sym("late", lo=F(1, 100), hi=F(1, 50)), taxis("T"), "pt")

    fn = lambda f: (lambda ip, kw: ip.call(f, [], kw))

    def backend(back, opts):
        ip = ck.ip(**opts)

        # -- orbits
        def observe(ip, kw, cls="KeplerianOrbit"):
            m = model_of(ip)
            depth = len(ip.model_stack)
            given = kw.get("model")
            ip.model_stack.append(m)
            try:
                o = build(ip, kw, cls)
            finally:
                del ip.model_stack[depth:]
            out = [recorded(ip, m)]
            if given is not None:
                out.append(recorded(ip, given))
            for k in ("a", "period", "rho_star", "r_star", "m_star", "m_planet", "t0", "t_periastron", "incl", "b"):
                out.append(att(ip, o, k))
            if cls == "TTVOrbit":
                out += [list(ip.iterate(att(ip, o, k))) for k in ("transit_times", "all_transit_times", "ttvs")]
            for nm in ("get_relative_position", "get_star_velocity"):
                out.append(list(ip.iterate(call(ip, o, nm, t()))))
            return out
        full = dict(mass="P+ms+rs", ecc="omega", incl="b", ref="t0", Omega=True, n=2)
        A2 = planet_args(2)
        un = lambda n: unit(ip, n)
        dur = {k: A2[k] for k in ("period", "duration", "b", "ror", "r_star")}
        o = {}
        for k in orbit_kwargs(full):
            o[k] = [other(A2[k], k)]
        for k in ("m_planet", "Omega", "ecc", "b", "m_star", "r_star", "t0"):
            o[k].append(OMIT)
        plain = orbit_kwargs(full)
        o["a"] = [({"a": A2["a"], "m_star": OMIT}, other(A2["a"], "a")), ({"a": A2["a"], "period": OMIT}, other(A2["a"], "a"))]
        o["t_periastron"] = [({"t0": OMIT}, A2["t_periastron"]), ({"t0": OMIT, "t_periastron": A2["t_periastron"]}, other(A2["t_periastron"], "tp"))]
        o["incl"] = [({"b": OMIT}, A2["incl"]), ({"b": OMIT, "incl": A2["incl"]}, other(A2["incl"], "incl"))]
        o["rho_star"] = [({"m_star": OMIT, "rho_star": A2["rho_star"]}, other(A2["rho_star"], "rho"))]
        sw, cw = (tn.mapped(lambda e, i=i: A.sincos(e)[i], [A2["omega"]], kind="pt") for i in (0, 1))
        s2, c2 = (tn.mapped(lambda e, i=i: A.sincos(e + A.sym("dw", flags=("angle",)))[i], [A2["omega"]], kind="pt") for i in (0, 1))
        o["sin_omega"] = [({"omega": OMIT, "sin_omega": sw, "cos_omega": cw}, s2), ({"omega": OMIT, "sin_omega": sw, "cos_omega": cw}, OMIT)]
        o["cos_omega"] = [({"omega": OMIT, "sin_omega": sw, "cos_omega": cw}, c2), ({"omega": OMIT, "sin_omega": sw, "cos_omega": cw}, OMIT)]
        o["model"] = [model_of(ip)]
        C.add(ip, K + ".__init__", observe, plain, o, "orbits")
        C.add(ip, K + ".__init__", observe, dur, {k: [other(A2[k], k)] for k in dur}, "orbits", " (duration, circular)")
        ed = dict(dur, ecc=A2["ecc"], omega=A2["omega"], m_star=A2["m_star"])
        ed.pop("b")
        C.add(ip, K + ".__init__", observe, ed, {k: [other(A2[k], k)] for k in ed}, "orbits", " (duration, eccentric)")
        C.add(ip, K + ".__init__", observe, dict(plain, m_planet_units=un("M_earth")), {"m_planet_units": [un("M_jup")]}, "orbits", " (units)")
        rho = {k: v for k, v in plain.items() if k != "m_star"}
        C.add(ip, K + ".__init__", observe, dict(rho, rho_star=A2["rho_star"]), {"rho_star_units": [ip.binop("truediv", un("M_sun"), ip.binop("pow", un("R_sun"), 3))]}, "orbits", " (units)")

        def method(nm, cfg=full):
            def run(ip, kw):
                ob = build(ip, orbit_kwargs(cfg))
                kw = dict(kw)
                r = call(ip, ob, nm, kw.pop("t"), **kw)
                return list(r) if isinstance(r, (tuple, list)) else [r]
            return run
        plx = sc(A.pos("plx"), "py")
        for nm in ("get_planet_position", "get_star_position", "get_relative_position", "get_relative_angles"):
            C.add(ip, "%s.%s" % (K, nm), method(nm), {"t": t()}, {"t": [t2()], "parallax": [plx, ({"parallax": plx}, other(plx, "plx")), ({"light_delay": True}, plx)],
                  "light_delay": [True, ({"parallax": plx}, True)]}, "evaluation")
        for nm in ["get_%s_%s" % (b, q) for b in ("planet", "star", "relative") for q in ("velocity", "acceleration")]:
            C.add(ip, "%s.%s" % (K, nm), method(nm), {"t": t()}, {"t": [t2()]}, "evaluation")
        kms = ip.binop("truediv", un("km"), un("s"))
        Kv = posv(2, "K")
        for cfg, tag in ((full, ""), (dict(mass="P+ms+rs", n=2), " (circular)")):
            C.add(ip, K + ".get_radial_velocity", method("get_radial_velocity", cfg), {"t": t()}, {"t": [t2()], "K": [Kv, ({"K": Kv}, other(Kv, "K"))], "output_units": [kms]}, "evaluation", tag)
            r2 = posv(2, "r")
            tx = sc(A.pos("texp"), "py")
            C.add(ip, K + ".in_transit", method("in_transit", cfg), {"t": t(), "r": r2}, {"t": [t2()], "r": [other(r2, "r"), OMIT], "texp": [tx, ({"texp": tx}, other(tx, "texp")),
                  gen(A.pos("texp"), taxis("T"), "pt")], "light_delay": [True]}, "evaluation", tag, cases=False)

        # -- timing variations
        def tkw(mode):
            from .ttv import inds_arg, observed, small

            src = planet_args(2)
            kw = {k: src[k] for k in ("Omega", "ecc", "omega", "b", "m_planet", "m_star", "r_star")}
            if mode == "times":
                kw["transit_times"] = [arr(v, "pt") for v in observed("gaps")]
            else:
                kw["ttvs"] = [arr([small("d%d_%d" % (j, i)) for i in range(3)], "pt") for j in range(2)]
                kw["period"], kw["t0"] = src["period"], src["t0"]
            kw.update(inds_arg("gaps", "pt"))
            return kw

        def timing(ip, kw):
            return observe(ip, kw, "TTVOrbit")
        from .ttv import observed, small
        for mode in ("times", "ttvs"):
            base = tkw(mode)
            o = {k: [other(base[k], k)] for k in ("Omega", "ecc", "omega", "b", "m_planet", "m_star", "r_star")}
            for k in ("Omega", "ecc", "b", "m_planet", "m_star"):
                o[k].append(OMIT)
            o["incl"] = [({"b": OMIT}, A2["incl"])]
            o["model"] = [model_of(ip)]
            o["transit_inds"] = [[arr(v, "pt", "int64") for v in ([0, 1, 3], [0, 1, 2])], OMIT]
            if mode == "times":
                o["transit_times"] = [[other(v, "tt") for v in base["transit_times"]]]
                o["period"] = [A2["period"]]
                o["delta_log_period"] = [vec(2, "dlp")]
                o["t0"] = [A2["t0"]]
                o["t_periastron"] = [A2["t_periastron"]]
                o["ttvs"] = [tkw("ttvs")["ttvs"]]
            else:
                o["ttvs"] = [[other(v, "ttv") for v in base["ttvs"]]]
                o["period"] = [other(base["period"], "period"), OMIT]
                o["t0"] = [other(base["t0"], "t0"), OMIT]
                o["delta_log_period"] = [vec(2, "dlp")]
                o["transit_times"] = [tkw("times")["transit_times"]]
            C.add(ip, TV + ".__init__", timing, base, o, "orbits", " (%s)" % mode)
        cet = ip.import_module("exoplanet.orbits.ttv").vars["compute_expected_transit_times"]
        lit = {"min_time": sc(F(1), "py"), "max_time": sc(F(12), "py"), "period": arr([F(2), F(5, 2)], "np"), "t0": arr([F(1, 2), F(1)], "np")}
        C.add(ip, "orbits.ttv:compute_expected_transit_times", lambda ip, kw: list(ip.iterate(ip.call(cet, [], kw))), lit,
              {"min_time": [sc(F(5), "py")], "max_time": [sc(F(8), "py")], "period": [arr([F(3), F(5, 2)], "np")], "t0": [arr([F(1, 3), F(1)], "np")]}, "orbits")

        # -- simple orbits
        S = "orbits.simple:SimpleTransitOrbit"
        sk = {k: A2[k] for k in ("period", "duration", "t0", "b", "ror", "r_star")}

        def simple(nm):
            def run(ip, kw):
                ob = build(ip, sk, "SimpleTransitOrbit")
                kw = dict(kw)
                r = call(ip, ob, nm, kw.pop("t"), **kw)
                return list(r) if isinstance(r, (tuple, list)) else [r]
            return run

        def simple_orbit(ip, kw):
            ob = build(ip, kw, "SimpleTransitOrbit")
            return [list(ip.iterate(call(ip, ob, "get_relative_position", t())))] + [att(ip, ob, k) for k in ("period", "duration", "t0", "b", "r_star")]
        o = {k: [other(sk[k], k)] + ([OMIT] if k not in ("period", "duration") else []) for k in sk}
        C.add(ip, S + ".__init__", simple_orbit, sk, o, "simple orbits")
        for nm in ("get_relative_position", "get_planet_position"):
            C.add(ip, "%s.%s" % (S, nm), simple(nm), {"t": t()}, {"t": [t2()], "light_delay": [True]}, "simple orbits")
        # the star is at the origin at all times
        C.excepted(S + ".get_star_position", "t", "light_delay")
        C.add(ip, S + ".in_transit", simple("in_transit"), {"t": t()}, {"t": [t2()], "r": [posv(2, "r"), ({"r": posv(2, "r")}, other(posv(2, "r"), "r"))],
              "texp": [sc(A.pos("texp"), "py"), ({"r": posv(2, "r")}, sc(A.pos("texp"), "py"))], "light_delay": [True]}, "simple orbits", cases=False)

        def velocity(nm):
            def go(ip=ip, nm=nm):
                ob = build(ip, sk, "SimpleTransitOrbit")
                r = outcome(lambda: call(ip, ob, nm, t()))
                if r[0] != "raise":
                    raise Fail("%s of a simple orbit returns a value" % nm)
            return go
        for nm, ps in (("get_planet_velocity", ("t",)), ("get_star_velocity", ("t",)), ("get_radial_velocity", ("t", "output_units"))):
            C.known.setdefault("%s.%s" % (S, nm), set()).update(ps)
            ck.ob("%s of a simple orbit is refused [%s]" % (nm, back), velocity(nm), ip, "%s.%s" % (S, nm), "simple orbits")

        # -- functions of orbits
        mod = ip.import_module("exoplanet.orbits.keplerian").vars
        M, e = arr([A.sym("M0"), A.sym("M1")]), arr([A.sym("e0", lo=0, hi=1), A.sym("e1", lo=0, hi=1)])
        C.add(ip, "orbits.keplerian:get_true_anomaly", fn(mod["get_true_anomaly"]), {"M": M, "e": e}, {"M": [other(M, "M")], "e": [other(e, "e")]}, "functions")
        d = {"duration": posv(2, "tau"), "period": posv(2, "P"), "b": A2["b"], "ror": posv(2, "k")}
        C.add(ip, "orbits.keplerian:get_aor_from_transit_duration", fn(mod["get_aor_from_transit_duration"]), d,
              dict({k: [other(d[k], k)] for k in d}, ror=[other(d["ror"], "ror"), OMIT]), "functions")

        # -- light curves
        exo = ip.import_module("exoplanet")
        LD = "light_curves.limb_dark:LimbDarkLightCurve"
        SE = "light_curves.secondary_eclipse:SecondaryEclipseLightCurve"

        def curve(cls, names):
            def run(ip, kw):
                m = model_of(ip)
                depth = len(ip.model_stack)
                ip.model_stack.append(m)
                try:
                    lc = ip.call(ip.getattr(exo, cls), [], kw)
                finally:
                    del ip.model_stack[depth:]
                out = [recorded(ip, m)] + ([recorded(ip, kw["model"])] if kw.get("model") is not None else [])
                orbit = Stub(2) if cls == "LimbDarkLightCurve" else build(ip, orbit_kwargs(full))
                return out + [call(ip, lc, "get_light_curve", orbit=orbit, r=posv(2, "r"), t=t(), use_in_transit=False)]
            return run
        one = {"u1": sc(A.sym("u1")), "u2": sc(A.sym("u2"))}
        C.add(ip, LD + ".__init__", curve("LimbDarkLightCurve", one), one, {"u1": [sc(A.sym("v1"))], "u2": [sc(A.sym("v2"))], "model": [model_of(ip)]}, "light curves")
        P2 = lambda a: [sc(A.sym(a + "1")), sc(A.sym(a + "2"))]
        two = {"u_primary": P2("u"), "u_secondary": P2("v"), "surface_brightness_ratio": posv(2, "sb")}
        C.add(ip, SE + ".__init__", curve("SecondaryEclipseLightCurve", two), two, {"u_primary": [P2("w")], "u_secondary": [P2("w")],
              "surface_brightness_ratio": [other(posv(2, "sb"), "sb")], "model": [model_of(ip)]}, "light curves")

        def flux(cls):
            def run(ip, kw):
                if cls == "LimbDarkLightCurve":
                    lc = ip.call(ip.getattr(exo, cls), list(one.values()))
                else:
                    lc = ip.call(ip.getattr(exo, cls), list(two.values()))
                return [call(ip, lc, "get_light_curve", **kw)]
            return run
        te = sc(A.pos("texp"), "py")
        for cls, where in (("LimbDarkLightCurve", LD), ("SecondaryEclipseLightCurve", SE)):
            L = cls[0] == "L"
            ob = (lambda tag="": Stub(2, tag)) if L else (lambda tag="": build(ip, dict(orbit_kwargs(full), **({"t0": other(A2["t0"], "t0")} if tag else {}))))
            base = {"orbit": ob(), "r": posv(2, "r"), "t": t(), "use_in_transit": False}
            fine = {"texp": te, "oversample": 3}
            o = {"orbit": [ob("B"), None], "r": [other(posv(2, "r"), "r"), OMIT], "t": [t2(), OMIT], "texp": [te, (dict(texp=te), other(te, "te"))],
                 "oversample": [(fine, 5), (fine, OMIT)], "order": [(fine, 1), (fine, 2), (dict(fine, order=1), 2), (fine, 3)],
                 "light_delay": [True, (fine, True)]}
            if L:
                C.add(ip, where + ".get_light_curve", flux(cls), base, {"use_in_transit": [True, ({"texp": te}, True), OMIT]}, "light curves", cases=False)
            else:
                C.known.setdefault(where + ".get_light_curve", set()).add("use_in_transit")
            C.add(ip, where + ".get_light_curve", flux(cls), base, o, "light curves")

        class Probe:
            """A base light curve that shows what it is asked for."""

        def eclipse_selection(ip=ip):
            """use_in_transit reaches the primary light curve."""
            asked = []
            real = ip.getattr(ip.getattr(exo, "LimbDarkLightCurve"), "get_light_curve")
            for v in (True, False, None):
                S2 = Spy(build(ip, orbit_kwargs(full)))
                lc = ip.call(ip.getattr(exo, "SecondaryEclipseLightCurve"), list(two.values()))
                with rint.Partition("options"):
                    try:
                        call(ip, lc, "get_light_curve", orbit=S2, r=posv(2, "r"), t=t(), **({} if v is None else {"use_in_transit": v}))
                    except (AbsRaise, Unsupported):
                        if not S2.names:
                            raise
                asked.append("in_transit" in S2.names)
            if asked[0] == asked[1]:
                raise Fail("use_in_transit has no effect")
        ck.ob("use_in_transit of SecondaryEclipseLightCurve.get_light_curve [%s]" % back, eclipse_selection, ip, SE + ".get_light_curve", "light curves")

        def depth(ip, kw):
            lc = ip.call(ip.getattr(exo, "LimbDarkLightCurve"), list(one.values()))
            r = call(ip, lc, "get_ror_from_approx_transit_depth", **kw)
            return list(r) if isinstance(r, tuple) else [r]
        dd = {"delta": posv(2, "dep"), "b": A2["b"]}
        C.add(ip, LD + ".get_ror_from_approx_transit_depth", depth, dd, {"delta": [other(dd["delta"], "dep")], "b": [other(A2["b"], "b")], "jac": [True]}, "light curves")
        lm = ip.import_module("exoplanet.light_curves.limb_dark").vars
        C.add(ip, "light_curves.limb_dark:get_cl", fn(lm["get_cl"]), one, {"u1": [sc(A.sym("v1"))], "u2": [sc(A.sym("v2"))]}, "light curves")
        qa = {"c": arr([A.sym("c%d" % i) for i in range(3)]), "b": gen(A.sym("b"), taxis("T"), "pt"), "r": gen(A.pos("r"), taxis("T"), "pt")}
        C.add(ip, "light_curves.limb_dark:quad_limbdark_light_curve", fn(lm["quad_limbdark_light_curve"]), qa, {k: [other(v, k)] for k, v in qa.items()}, "light curves")

        # -- interpolated light curves
        IL = "light_curves.interpolated:InterpolatedLightCurve"
        icls = ip.import_module("exoplanet.light_curves.interpolated").vars["InterpolatedLightCurve"]

        def interpolated(ip, kw):
            kw = dict(kw)
            base = kw.get("base_light_curve")
            lc = ip.call(icls, [], kw)
            r = call(ip, lc, "get_light_curve", orbit=Ephemeris(2), r=posv(2, "r"), t=t())
            return [r, len(base.calls)]

        class Base2(Base):
            def abs_getattr(self, ip, name):
                f = Base.abs_getattr(self, ip, name)
                return Model(lambda *a, **k: tn.mapped(lambda x: x * 2, [ip.call(f, list(a), k)]), name)
        C.add(ip, IL + ".__init__", interpolated, lambda: {"base_light_curve": Base(2), "num_phase": sc(3, "py", "int64"), "num_planets": sc(2, "py", "int64")},
              {"base_light_curve": [Base2(2)], "num_phase": [sc(5, "py", "int64")], "num_planets": [OMIT, sc(1, "py", "int64")]}, "interpolated")

        def asked(ip, kw):
            base = Base(2)
            lc = ip.call(icls, [base, sc(3, "py", "int64")], {"num_planets": sc(2, "py", "int64")})
            r = call(ip, lc, "get_light_curve", **kw)
            return [r] + [{k: v for k, v in c.items() if k != "orbit"} for c in base.calls]

        class Ephemeris2(Ephemeris):
            def __init__(self, n):
                Ephemeris.__init__(self, n)
                self.t0 = other(self.t0, "t0")
        C.add(ip, IL + ".get_light_curve", asked, {"orbit": Ephemeris(2), "r": posv(2, "r"), "t": t()},
              {"orbit": [Ephemeris2(2)], "r": [other(posv(2, "r"), "r")], "t": [t2()], "texp": [te], "oversample": [5], "order": [2], "use_in_transit": [True, False], "light_delay": [True]}, "interpolated")
        im = ip.import_module("exoplanet.light_curves.interpolated").vars
        C.excepted("light_curves.interpolated:interp")

        # -- grids
        def V(tag):
            d = np.empty((3,), dtype=object)
            d[:] = [A.sym("%s%d" % (tag, i)) for i in range(3)]
            return T(d, (tn.literal_axis(3),), "pt", "float64")
        x = lambda s=0: gen(A.sym("x", lo=0, hi=1) + s, (taxis("T")), "pt")
        col = lambda v: tn.stack([v], axis=1)
        g0, g1 = [arr([F(0), F(3), F(9)], "np")], [arr([F(0), F(4), F(9)], "np")]
        gm = ip.import_module("exoplanet.interp").vars
        fv = sc(F(7), "py")
        base = {"points": g0, "values": V("v"), "coords": col(x())}
        o = {"points": [g1], "values": [V("w")], "coords": [col(x(1))], "fill_value": [({"coords": col(x(20))}, fv), ({"coords": col(x(20)), "fill_value": fv}, sc(F(8), "py"))]}
        C.add(ip, "interp:regular_grid_interp", fn(gm["regular_grid_interp"]), base, o, "grids")

        def grid(ip, kw):
            kw = dict(kw)
            c = kw.pop("coords")
            return call(ip, ip.call(gm["RegularGridInterpolator"], [], kw), "evaluate", c)
        C.add(ip, "interp:RegularGridInterpolator.__init__", grid, base, {k: v for k, v in o.items() if k != "coords"}, "grids")
        C.add(ip, "interp:RegularGridInterpolator.evaluate", lambda ip, kw: call(ip, ip.call(gm["RegularGridInterpolator"], [g0, V("v")]), "evaluate", kw["t"]),
              {"t": col(x())}, {"t": [col(x(1))]}, "grids")

        # -- priors
        ik = "initval" if back == "pymc" else "testval"

        def prior(f):
            def run(ip, kw):
                other_model = kw.get("model")
                b = Built(ip, f, [], kw, elsewhere=other_model is not None)
                s = summary(ip, b)
                names = sorted(s[0]), [[str(s[0][k][0])] + [y for q in sorted(s[0][k][1]) for y in [q] + list(s[0][k][1][q])] + [str(s[0][k][2]), str(s[0][k][3]) if s[0][k][3] is None else list(s[0][k][3])] for k in sorted(s[0])]
                return [names, dict(s[1]), {k: list(v) for k, v in s[2].items()}, list(s[3]), sorted(s[4])] + ([sorted(recorded(ip, other_model))] if other_model is not None else [])
            return run
        half = lambda n=None: sc(F(1, 3), "np") if n is None else arr([F(1, 3)] * n, "np")
        D, E = "distributions.distributions:", "distributions.eccentricity:"
        C.add(ip, D + "angle", prior(public(ip, "angle")), {"name": "x"}, {"name": ["y"], "regularization": [None, sc(F(3), "py"), sc(A.pos("reg"))], "shape": [2], ik: [half()]}, "priors")
        C.add(ip, D + "unit_disk", prior(public(ip, "unit_disk")), {"name_x": "x", "name_y": "y"}, {"name_x": ["p"], "name_y": ["p"], "shape": [2], ik: [arr([F(1, 5), F(1, 4)], "np")]}, "priors")
        C.add(ip, D + "quad_limb_dark", prior(public(ip, "quad_limb_dark")), {"name": "u"}, {"name": ["w"], "shape": [(2, 3)], ik: [arr([F(1, 5), F(1, 4)], "np")]}, "priors")
        ib = {"name": "b", "ror": posv(2, "k"), "shape": 2}
        C.add(ip, D + "impact_parameter", prior(public(ip, "impact_parameter")), ib, {"name": ["c"], "ror": [other(posv(2, "k"), "k")], "shape": [(3, 2)], ik: [half(2)]}, "priors")
        em = ip.import_module("exoplanet.distributions.eccentricity").vars
        lo, hi = sc(A.sym("lo", lo=0, hi=F(1, 3), flags=("open",))), sc(A.sym("hi", lo=F(1, 2), hi=1, flags=("open",)))
        for f, extra in (("kipping13", {"long": [({"fixed": True}, False), ({"fixed": True, "long": True}, False), ({"fixed": False, "long": True}, False), ({"fixed": False}, False)]}),
                         ("vaneylen19", {"multi": [({"fixed": True}, True), ({"fixed": False}, True)]})):
            o = {"name": ["f"], "fixed": [False], "lower": [lo, ({"lower": lo}, sc(F(1, 5), "py")), ({"fixed": False}, lo), ({"upper": hi}, lo)],
                 "upper": [hi, ({"upper": hi}, sc(F(4, 5), "py")), ({"fixed": False}, hi), ({"lower": lo}, hi)], "model": [model_of(ip)], "shape": [2], ik: [half(), ({"fixed": False}, half())]}
            o.update(extra)
            C.add(ip, E + f, prior(em[f]), {"name": "e", "fixed": True}, o, "priors")

        # -- units, tools
        um = ip.import_module("exoplanet.units").vars
        q = lambda: arr([A.pos("v0")])
        C.add(ip, "units:with_unit", lambda ip, kw: [ip.call(um["to_unit"], [ip.call(um["with_unit"], [other(kw["obj"], "u"), kw["unit"]]), un("m")])], {"obj": q(), "unit": un("km")},
              {"obj": [other(q(), "v")], "unit": [un("cm")]}, "tools")
        C.add(ip, "units:to_unit", lambda ip, kw: [ip.call(um["to_unit"], [ip.call(um["with_unit"], [other(kw["obj"], "u"), un("km")]), kw["target"]])], {"obj": q(), "target": un("m")},
              {"obj": [other(q(), "v")], "target": [un("cm")]}, "tools")
        C.add(ip, "units:has_unit", lambda ip, kw: [ip.call(um["has_unit"], [kw["obj"]])], {"obj": q()}, {"obj": [ip.call(um["with_unit"], [q(), un("km")])]}, "tools")
        tm = ip.import_module("exoplanet.utils").vars
        C.add(ip, "utils:as_tensor_variable", fn(tm["as_tensor_variable"]), {"x": arr([F(1), F(2)], "np")}, {"x": [arr([F(1), F(3)], "np")], "dtype": ["int64", "float32"]}, "tools")

        def dep(ip, kw):
            f = ip.call(tm["deprecated"], [], kw)
            n0 = len(ip.events)
            ip.call(ip.call(f, [Model(lambda: None, "inner")]), [])
            return [str(getattr(x, "message", "")) for x in ip.events[n0:] if x.kind == "warning"]
        C.add(ip, "utils:deprecated", dep, {}, {"alternate": ["new"]}, "tools")

        def warned(ip, kw):
            n0 = len(ip.events)
            ip.call(tm["deprecation_warning"], [], kw)
            return [str(getattr(x, "message", "")) for x in ip.events[n0:] if x.kind == "warning"]
        C.add(ip, "utils:deprecation_warning", warned, {"msg": "one"}, {"msg": ["two"]}, "tools")
        cm = ip.import_module("exoplanet.citations").vars
        both = [model_of(ip), model_of(ip)]

        def note(ip, kw):
            for m in both:
                m.attrs.pop("__citations__", None)
            depth = len(ip.model_stack)
            ip.model_stack.append(both[0])
            try:
                ip.call(cm["add_citations_to_model"], [], kw)
            finally:
                del ip.model_stack[depth:]
            return [recorded(ip, m) for m in both]
        C.add(ip, "citations:add_citations_to_model", note, {"citations": ["astropy"]}, {"citations": [["starry"]], "model": [both[1]]}, "tools")

        def text(ip, kw):
            m = model_of(ip)
            ip.call(cm["add_citations_to_model"], [["astropy", "starry"]], {"model": m})
            w = model_of(ip)
            ip.call(cm["add_citations_to_model"], [["kipping13"]], {"model": w})
            depth = len(ip.model_stack)
            ip.model_stack.append(m)
            kw = dict(kw)
            if kw.get("model"):
                kw["model"] = w
            try:
                return list(ip.iterate(ip.call(cm["get_citations_for_model"], [], kw)))
            finally:
                del ip.model_stack[depth:]
        C.add(ip, "citations:get_citations_for_model", text, {}, {"model": ["other"], "width": [40]}, "tools")

    backend("pymc", {})
    backend("pymc3", PM3)

    # -- estimators (independent of the back end)
    ip = ck.ip()
    n = 5
    fr = frequencies(n)
    pw = ranked((0, 2, 0, 1, 0))
    tt = arr([F(k) for k in range(8)], "np")
    yy = arr([A.sym("y%d" % k) for k in range(8)], "np")
    ss = arr([A.pos("s%d" % k) for k in range(8)], "np")
    ES = "estimators:"
    C.add(ip, ES + "find_peaks", lambda ip, kw: ordered(ip, lambda: ip.call(est(ip, "find_peaks"), [], kw)),
          {"freq": arr(fr, "np"), "power": arr(pw, "np")}, {"freq": [other(arr(fr, "np"), "f")], "power": [arr(ranked((0, 1, 0, 2, 0)), "np")], "max_peaks": [1, 2, ({"max_peaks": 1}, 2)]}, "estimators")

    def lomb(ip, kw):
        def results(name, b):
            if name == "autofrequency":
                return arr(fr, "np")
            if name == "power":
                return arr(pw, "np")
            return (arr(fr, "np"), arr(pw, "np"))
        st = Search("LombScargle", results)
        with Hooks(ip, LombScargle=st.hook), Order(ip):
            r = ip.call(est(ip, "lomb_scargle_estimator"), [], kw)
            return [list(st.made), [list(c) for c in st.calls], ip.getitem(r, "periodogram"), ip.getitem(r, "peaks")]
    num = lambda v: sc(F(v), "py")
    C.add(ip, ES + "lomb_scargle_estimator", lomb, {"x": tt, "y": yy}, {"x": [other(tt, "x")], "y": [other(yy, "y")], "yerr": [ss], "min_period": [num(2)], "max_period": [num(30)],
          "filter_period": [sc(A.pos("pf"), "py")], "max_peaks": [1, 0], "samples_per_peak": [7]}, "estimators")

    def box(ip, kw):
        def results(name, b):
            if name == "autoperiod":
                return arr([A.pos("per%d" % k) for k in range(3)], "np")
            d = {k: arr([A.sym("%s%d" % (k, i)) for i in range(n)], "np") for k in ("depth", "transit_time", "duration", "depth_err", "depth_snr", "log_likelihood")}
            d.update(objective="likelihood", period=arr([1 / v for v in frequencies(n, down=True)], "np"), power=arr(pw, "np"))
            return Results(d)
        st = Search("BoxLeastSquares", results)
        with Hooks(ip, BoxLeastSquares=st.hook), Order(ip):
            r = ip.call(est(ip, "bls_estimator"), [], kw)
            return [list(st.made), [list(c) for c in st.calls], ip.getitem(r, "peaks")]
    C.add(ip, ES + "bls_estimator", box, {"x": tt, "y": yy}, {"x": [other(tt, "x")], "y": [other(yy, "y")], "yerr": [ss], "duration": [num(F(1, 3))], "min_period": [num(2)], "max_period": [num(30)],
          "objective": ["snr"], "method": ["slow"], "oversample": [20], "minimum_n_transit": [2]}, "estimators")

    def auto(ip, kw):
        seen = []
        ac = ranked((3, 1, 0, 1, 2, 1, 0, 1, 2, 1, 0, 0, 0, 0))

        def interp(x, *a):
            seen.append([x] + list(a))
            return arr([A.sym("yy%d" % k) for k in range(tn.lift(x).data.size)], "np")

        def fft(x, n=None, **k):
            seen.append([x, n])
            return arr([A.sym("ft%d" % i) for i in range(16 if n is None else int(tn.lift(n).item().const()))], "np")

        def smooth(a, s, **k):
            seen.append([a, s])
            z = (ac * 8)[:tn.lift(a).data.size]
            return arr(z, "np")
        with Hooks(ip, interp=interp, fft__fft=fft, fft__ifft=fft, gaussian_filter=smooth), Order(ip):
            r = ip.call(est(ip, "autocorr_estimator"), [], kw)
            return seen + [ip.getitem(r, "autocorr"), ip.getitem(r, "peaks")]
    x8 = arr([F(k) for k in range(8)], "np")
    C.add(ip, ES + "autocorr_estimator", auto, {"x": x8, "y": yy}, {"x": [arr([F(2 * k) for k in range(8)], "np")], "y": [other(yy, "y")], "yerr": [ss], "min_period": [num(3)], "max_period": [num(1)],
          "oversample": [num(3)], "smooth": [num(3)], "max_peaks": [1, 0]}, "estimators")
    em = ip.import_module("exoplanet.estimators").vars
    C.add(ip, ES + "next_pow_two", lambda ip, kw: [ip.call(em["next_pow_two"], [], kw)], {"n": sc(5, "py", "int64")}, {"n": [sc(17, "py", "int64")]}, "estimators")

    def acf(ip, kw):
        seen = []
        fft = lambda x, n=None, **k: (seen.append([x, n]), arr([A.sym("ft%d" % i) for i in range(16)], "np"))[1]
        with Hooks(ip, fft__fft=fft, fft__ifft=fft):
            return seen + [ip.call(em["autocorr_function"], [], kw), seen]
    C.add(ip, ES + "autocorr_function", acf, {"x": yy}, {"x": [other(yy, "y")]}, "estimators")
    P = {"periods": [sc(A.pos("P0"), "py")], "x": arr([A.sym("x%d" % k) for k in range(4)], "np"), "y": arr([A.sym("y%d" % k) for k in range(4)], "np")}
    s4 = arr([A.pos("s%d" % k) for k in range(4)], "np")
    o = {"periods": [[sc(A.pos("P1"), "py")]], "x": [other(P["x"], "x")], "y": [other(P["y"], "y")], "yerr": [s4], "t0s": [arr([A.sym("t0_0")], "np")]}
    C.add(ip, ES + "estimate_semi_amplitude", fn(em["estimate_semi_amplitude"]), P, o, "estimators")
    C.add(ip, ES + "estimate_minimum_mass", fn(em["estimate_minimum_mass"]), P, dict(o, m_star=[sc(F(2), "py"), sc(A.pos("ms"), "py")]), "estimators")

    # -- parameters without a case of their own
    skip = {"orbits.dur_to_ecc"}
    for short, name, node, path in signatures():
        bad = []
        covered = C.known.get("%s:%s" % (short, name), set())
        if short in skip:
            continue
        for p in params(node):
            if p not in covered and not mentions(node, p):
                bad.append("%s:%d :: the parameter %s of %s is never read" % (os.path.relpath(path, os.path.dirname(SRC)), node.lineno, p, name))
        ck.static("parameters of %s:%s" % (short, name), bad, "%s:%s" % (short, name), "signatures")


class Spy:
    """An orbit that notes which of its methods are called."""

    def __init__(self, o):
        self.o = o
        self.names = []

    def abs_getattr(self, ip, name):
        self.names.append(name)
        return ip.getattr(self.o, name)


def ordered(ip, thunk):
    with Order(ip):
        return thunk()
