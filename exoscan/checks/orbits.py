"""Keplerian orbits: C01-C16."""

import contextlib
import itertools
from fractions import Fraction as F

from .. import algebra as A
from .. import models as md
from .. import rint
from .. import tensor as tn
from ..harness import (
    Fail, angle, arr, check_axes, eq, expect_raise, gen, gen_nd, pairwise,
    same, same_t, sc, show,
)
from ..interp import Obj
from ..tensor import AbsRaise, T, Unsupported
from . import check
from .common import *  # noqa: F401,F403
from .common import BODIES, MASS

KEP = "orbits.keplerian:KeplerianOrbit."

U = md.UNITS
G_SPEC = md.G_SI * U["M_sun"].scale * A.power(U["day"].scale, 2) / A.power(U["R_sun"].scale, 3)
GCC = U["M_sun"].scale / A.power(U["R_sun"].scale, 3) / 1000
C_SPEC = md.C_SI * 86400 / U["R_sun"].scale
AU_PER_RSUN = U["R_sun"].scale / U["au"].scale
RV_MS = U["R_sun"].scale / 86400


def mass_spec(given, n):
    """Masses, radius, density implied by the given arguments (spec)."""


# ---------------------------------------------------------------------------


@check("C01")
def c01(ck):
    ip = ck.ip()
    ck.rule(
        "For every accepted way of giving period/semimajor axis/stellar "
        "mass/radius/density (x planet mass given or not x scalar, one, two, "
        "three planets x eccentric or not) the constructor is interpreted "
        "over symbolic inputs and Kepler's third law, the density relation, "
        "the documented defaults, the given values and the barycentric axes "
        "are compared as normal forms."
    )
    cases = []
    for m in MASS:
        for mp in (True, False):
            for n in (2, None, 1, 3):
                for e in (None, "omega"):
                    cases.append(dict(mass=m, mp=mp, n=n, ecc=e))
    if not ck.thorough:
        cases = [c for c in cases if c["n"] in (2, None)] + [
            c for c in cases if c["n"] in (1, 3) and c["mp"] and c["ecc"] is None
        ]
    for c in cases:
        def go(c=c):
            kw = orbit_kwargs(c)
            o = build(ip, kw)
            check_c01(ip, o, c["n"], kw)
        ck.ob("third law and density [%s]" % label(c), go, ip, KEP + "__init__", "parameterisations")
    for n in (2, None, 1):
        for rs in (True, False):
            for k in (True, False):
                def go(n=n, rs=rs, k=k):
                    src = planet_args(n)
                    kw = dict(period=src["period"], duration=src["duration"], b=src["b"], m_planet=src["m_planet"])
                    if rs:
                        kw["r_star"] = src["r_star"]
                    if k:
                        kw["ror"] = src["ror"]
                    o = build(ip, kw)
                    kw.pop("duration"); kw.pop("b"); kw.pop("ror", None)
                    check_c01(ip, o, n, kw)
                ck.ob("third law and density [duration,n=%s,r_star=%s,ror=%s]" % (n, rs, k), go, ip, KEP + "__init__", "duration")
    if True:
        # mixed per-planet / per-system broadcasting
        for kws in ({"period": 2, "m_star": 2, "r_star": None}, {"a": 2, "rho_star": 2},
                    {"period": 2, "rho_star": 2, "r_star": 2}):
            def go(kws=kws):
                kw = {k: posv(v, k) for k, v in kws.items()}
                kw["m_planet"] = posv(2, "mp")
                o = build(ip, kw)
                check_c01(ip, o, 2, kw)
            ck.ob("third law and density [vector %s]" % "+".join(kws), go, ip, KEP + "__init__", "vector stars")


def check_c01(ip, o, n, kw):
    E = elements(ip, o, n)
    rng = range(1 if n is None else n)
    nn = per_planet(att(ip, o, "n"), n)
    a_s = per_planet(att(ip, o, "a_star"), n)
    a_p = per_planet(att(ip, o, "a_planet"), n)
    m_t = per_planet(att(ip, o, "m_total"), n)
    for k in ("period", "a", "m_planet", "a_star", "a_planet"):
        if n is not None and k in ("period", "a") :
            check_axes(tn.lift(att(ip, o, k)), (tn.literal_axis(n),), k)
    for j in rng:
        P, a, ms, mp, rs, rho = (E[k][j] for k in ("period", "a", "m_star", "m_planet", "r_star", "rho_star"))
        same(a ** 3 * 4 * A.PI ** 2, G_SPEC * (ms + mp) * P ** 2, "4 pi^2 a^3")
        same(rho, ms / (F(4, 3) * A.PI * rs ** 3) * GCC, "rho_star")
        same(nn[j], 2 * A.PI / P, "the mean motion")
        same(m_t[j], ms + mp, "the total mass")
        same(a_s[j], a * mp / (ms + mp), "a_star")
        same(a_p[j], -a * ms / (ms + mp), "a_planet")
        for k, v in kw.items():
            if k in E:
                same(E[k][j], per_planet(v, n)[j], "the given " + k)
        if "m_planet" not in kw:
            same(mp, 0, "the default planet mass")
        two = "a" in kw and "period" in kw
        dur = "period" in kw and "a" not in kw and not any(s in kw for s in ("m_star", "rho_star")) and "duration" in o.attrs.get("jacobians", {})
        if "r_star" not in kw and "m_star" not in kw:
            same(rs, 1, "the default stellar radius")
        if not two and not dur and not any(s in kw for s in ("m_star", "r_star", "rho_star")):
            same(ms, 1, "the default stellar mass")


# ---------------------------------------------------------------------------


@check("C02")
def c02(ck):
    ip = ck.ip()
    ck.rule(
        "The constructor is interpreted for every subset of "
        "{period, a, m_star, r_star, rho_star}, of the eccentricity "
        "arguments, of {incl, b, duration} and of the reference times; each "
        "subset must end in ValueError exactly when the documentation calls "
        "it contradictory or incomplete, and otherwise every given argument "
        "must be the orbit's attribute."
    )
    src = planet_args(2)
    V = ValueError

    def kept(o, kw):
        for k, v in kw.items():
            if k in ("sin_omega", "cos_omega", "ror"):
                continue
            if k == "duration" and "ecc" not in kw:
                continue
            got = per_planet(att(ip, o, k), 2)
            want = per_planet(v, 2)
            for g, w in zip(got, want):
                same(g, w, "the given %s" % k)

    def case(names, ok, extra=None, why=""):
        kw = {k: src[k] for k in names if k not in ("sin_omega", "cos_omega")}
        s, c = sincos_of(src["omega"])
        if "sin_omega" in names:
            kw["sin_omega"] = s
        if "cos_omega" in names:
            kw["cos_omega"] = c
        nm = "{%s}" % ",".join(names)

        def go():
            if ok:
                o = build(ip, kw)
                kept(o, kw)
            else:
                expect_raise(ip, lambda: build(ip, kw), V, "the parameter set " + nm)
        ck.ob("%s %s" % ("accept" if ok else "reject", nm), go, ip, KEP + "__init__", "accept" if ok else "reject")

    stars = ("m_star", "r_star", "rho_star")
    for r in range(6):
        for sub in itertools.combinations(("period", "a") + stars, r):
            s = set(sub)
            st = s & set(stars)
            if not s & {"period", "a"}:
                ok = False
            elif {"period", "a"} <= s:
                ok = not st & {"m_star", "rho_star"}
            else:
                ok = st not in ({"m_star"}, {"r_star"}, set(stars))
            case(sub, ok)
    base = ("period", "m_star", "r_star")
    for r in range(5):
        for sub in itertools.combinations(("ecc", "omega", "sin_omega", "cos_omega"), r):
            s = set(sub)
            if "ecc" not in s:
                if s:
                    continue
                ok = True
            else:
                both = {"sin_omega", "cos_omega"} <= s
                if "omega" in s and both:
                    ok = False
                elif "omega" in s:
                    if s & {"sin_omega", "cos_omega"}:
                        continue  # undocumented
                    ok = True
                else:
                    ok = both
            for tail in ((), ("b",), ("incl",)):
                case(base + sub + tail, ok)
    for ecc in ((), ("ecc", "omega"), ("ecc", "sin_omega", "cos_omega")):
        for r in range(4):
            for sub in itertools.combinations(("incl", "b", "duration"), r):
                s = set(sub)
                if ecc:
                    case(base + ecc + sub, len(s) <= 1)
                elif "duration" in s:
                    case(("period",) + sub + ("ror",), s == {"b", "duration"})
                    case(("period", "r_star") + sub + ("ror",), s == {"b", "duration"})
                    case(("period", "m_star") + sub + ("ror",), False)
                    case(("period", "rho_star") + sub + ("ror",), False)
                    case(("a", "r_star") + sub + ("ror",), False)
                    case(("a", "period", "r_star") + sub + ("ror",), False)
                    case(sub + ("ror",), False)
                else:
                    case(base + sub, len(s) <= 1)
        for r in range(3):
            for sub in itertools.combinations(("t0", "t_periastron"), r):
                for tail in ((), ("b",), ("incl", "Omega")):
                    case(base + ecc + sub + tail, len(sub) < 2)
    # The full product of the four groups of arguments: a combination is
    # accepted exactly when every group is, with the rules of a circular
    # orbit's duration on top.
    def scale_ok(s, circular_duration):
        st = s & set(stars)
        if circular_duration:
            return "period" in s and "a" not in s and not st & {"m_star", "rho_star"}
        if not s & {"period", "a"}:
            return False
        if {"period", "a"} <= s:
            return not st & {"m_star", "rho_star"}
        return st not in ({"m_star"}, {"r_star"}, set(stars))

    eccs = [(), ("ecc",), ("ecc", "omega"), ("ecc", "sin_omega", "cos_omega"),
            ("ecc", "omega", "sin_omega", "cos_omega"), ("ecc", "sin_omega"), ("ecc", "cos_omega")]
    good = {("ecc", "omega"), ("ecc", "sin_omega", "cos_omega"), ()}
    geoms = [g for r in range(5) for g in itertools.combinations(("incl", "b", "duration", "ror"), r)]
    refs = [(), ("t0",), ("t_periastron",), ("t0", "t_periastron")]
    rest = [(), ("Omega",), ("m_planet",), ("Omega", "m_planet")]
    s_w, c_w = sincos_of(src["omega"])
    full = dict(src, sin_omega=s_w, cos_omega=c_w)

    def product(scale, ecc, tails):
        for g, (geom, ref, more) in enumerate(tails):
            names = scale + ecc + geom + ref + more
            places = set(geom) & {"incl", "b", "duration"}
            circular = not ecc and "duration" in geom
            ok = (scale_ok(set(scale), circular) and ecc in good and len(ref) < 2
                  and (places == {"b", "duration"} if circular else len(places) <= 1))
            kw = {k: full[k] for k in names}
            nm = "{%s}" % ",".join(names)
            if not ok:
                expect_raise(ip, lambda: build(ip, kw), V, "the parameter set " + nm)
                continue
            try:
                kept(build(ip, kw), {k: v for k, v in kw.items() if k != "duration" or not circular})
            except AbsRaise as e:
                raise Fail("the parameter set %s is refused: %s" % (nm, e.exc))

    n = 0
    for r in range(6):
        for scale in itertools.combinations(("period", "a") + stars, r):
            for ecc in eccs:
                tails = []
                for geom in geoms:
                    for ref in refs:
                        n += 1
                        chosen = rest if ck.thorough else [rest[(n + n // 4 + ck.seed) % 4]]
                        tails += [(geom, ref, more) for more in chosen]
                ck.ob("all combinations with {%s} and {%s}" % (",".join(scale), ",".join(ecc)),
                      lambda scale=scale, ecc=ecc, tails=tails: product(scale, ecc, tails),
                      ip, KEP + "__init__", "full product")
    for sub in ((), ("b",), ("t0",), ("ecc", "omega")):
        def go(sub=sub):
            kw = {k: src[k] for k in base + sub}
            expect_raise(ip, lambda: build(ip, kw, "TTVOrbit"), V, "a TTV orbit without times or offsets")
        ck.ob("reject TTV orbit {%s}" % ",".join(sub), go, ip, "orbits.ttv:TTVOrbit.__init__", "reject")


# ---------------------------------------------------------------------------


def tag(ip, v, unit):
    units = ip.import_module("exoplanet.units")
    return ip.call(units.vars["with_unit"], [v, unit])


def all_attrs(o):
    out = {}
    for k, v in o.attrs.items():
        if v is None or isinstance(v, (T, int, F)):
            out[k] = v
    return out


def compare_orbits(ip, o1, o2, what):
    a1, a2 = all_attrs(o1), all_attrs(o2)
    for k in a1:
        if k not in a2:
            raise Fail("%s: attribute %s is missing" % (what, k))
        if (a1[k] is None) != (a2[k] is None):
            raise Fail("%s: attribute %s differs" % (what, k))
        if a1[k] is not None:
            same_t(a1[k], a2[k], "%s: attribute %s" % (what, k), shape=False)
    j1, j2 = o1.attrs.get("jacobians"), o2.attrs.get("jacobians")
    if isinstance(j1, dict) and isinstance(j2, dict):
        for k in j1:
            for q in j1[k]:
                same_t(j1[k][q], j2[k][q], "%s: jacobian d %s / d %s" % (what, q, k), shape=False)


@check("C03")
def c03(ck):
    ip = ck.ip()
    ck.rule(
        "Tags are interpreted with a symbolic unit (an arbitrary scale of the "
        "right dimension) and with named units; the tagged orbit's attributes "
        "and Jacobians must equal, as normal forms, those of the orbit built "
        "from the converted untagged values."
    )
    dims = {
        "period": ({"s": 1}, U["day"]), "duration": ({"s": 1}, U["day"]),
        "a": ({"m": 1}, U["R_sun"]), "r_star": ({"m": 1}, U["R_sun"]),
        "m_star": ({"kg": 1}, U["M_sun"]), "m_planet": ({"kg": 1}, U["M_sun"]),
        "rho_star": ({"kg": 1, "m": -3}, U["g"].combine(_cube(U["cm"]), -1)),
    }
    base_units = {"period": U["day"], "duration": U["day"], "a": U["R_sun"], "r_star": U["R_sun"],
                  "m_star": U["M_sun"], "m_planet": U["M_sun"], "rho_star": dims["rho_star"][1]}
    sets = [
        ("period", "m_star", "r_star", "m_planet", "b"),
        ("a", "rho_star", "m_planet", "incl"),
        ("period", "rho_star", "r_star"),
        ("period", "a", "r_star", "m_planet", "b"),
        ("period", "a", "m_planet"),
        ("a", "rho_star", "m_star"),
        ("period", "duration", "b", "ror", "r_star", "m_planet"),
        ("period", "duration", "b", "r_star"),
        ("period", "duration", "b", "ror"),
        ("period", "m_star", "r_star", "ecc", "omega", "duration", "ror"),
        ("a", "rho_star", "ecc", "omega", "duration"),
        ("period", "a", "ecc", "omega", "b", "t_periastron"),
    ]
    for n in (2, None):
        src = planet_args(n)
        for names in sets:
            taggable = [k for k in names if k in dims]
            subsets = [(k,) for k in taggable] + [tuple(taggable)]
            for sub in subsets:
                def go(names=names, sub=sub, n=n, src=src):
                    kw = {k: src[k] for k in names}
                    kt, ku = dict(kw), dict(kw)
                    for k in sub:
                        q = A.pos("scale_" + k)
                        unit = md.UnitVal(q, dims[k][0], "unit_" + k)
                        f = q / base_units[k].scale
                        v = fresh(src[k])
                        kt[k] = tag(ip, v, unit)
                        ku[k] = tn.mapped(lambda e: e * f, [src[k]], kind="pt")
                    compare_orbits(ip, build(ip, kt), build(ip, ku), "tagged " + ",".join(sub))
                ck.ob("tags on %s of {%s} n=%s" % ("+".join(sub), ",".join(names), n), go, ip, KEP + "__init__", "tagged orbits")
    named = {"period": "hour", "m_planet": "M_earth", "a": "au", "r_star": "R_jup", "m_star": "kg"}
    src = planet_args(2)
    for k, un in named.items():
        names = {"period": sets[0], "m_planet": sets[0], "a": sets[1], "r_star": sets[0], "m_star": sets[0]}[k]

        def go(k=k, un=un, names=names):
            kw = {q: src[q] for q in names}
            kt, ku = dict(kw), dict(kw)
            kt[k] = tag(ip, fresh(src[k]), U[un])
            f = U[un].scale / base_units[k].scale
            ku[k] = tn.mapped(lambda e: e * f, [src[k]], kind="pt")
            compare_orbits(ip, build(ip, kt), build(ip, ku), "%s in %s" % (k, un))
        ck.ob("named unit %s for %s" % (un, k), go, ip, KEP + "__init__", "named units")
    # Deprecated keywords
    for kwname, k, names in (("m_planet_units", "m_planet", sets[0]), ("rho_star_units", "rho_star", sets[1]),
                             ("rho_star_units", "rho_star", sets[2])):
        for n in (2, None):
            def go(kwname=kwname, k=k, names=names, n=n):
                s = planet_args(n)
                kw = {q: s[q] for q in names}
                q = A.pos("scale_" + k)
                unit = md.UnitVal(q, dims[k][0], "u")
                kt, ku = dict(kw), dict(kw)
                kt[k] = fresh(s[k])
                kt[kwname] = unit
                f = q / base_units[k].scale
                ku[k] = tn.mapped(lambda e: e * f, [s[k]], kind="pt")
                e0 = len(ip.events)
                o = build(ip, kt)
                if not any(e.kind == "warning" and e.category is DeprecationWarning for e in ip.events[e0:]):
                    raise Fail("%s emits no DeprecationWarning" % kwname)
                compare_orbits(ip, o, build(ip, ku), kwname)
            ck.ob("deprecated keyword %s {%s} n=%s" % (kwname, ",".join(names), n), go, ip, KEP + "__init__", "deprecated keywords")

        def go2(kwname=kwname, k=k, names=names):
            kw = {q: src[q] for q in names}
            unit = md.UnitVal(A.pos("scale_" + k), dims[k][0], "u")
            kw[k] = tag(ip, fresh(src[k]), unit)
            kw[kwname] = unit
            expect_raise(ip, lambda: build(ip, kw), TypeError, "a tag and " + kwname)
        ck.ob("tag and %s" % kwname, go2, ip, KEP + "__init__", "double tags")
    units = ip.import_module("exoplanet.units")
    f_with, f_has, f_to = (units.vars[x] for x in ("with_unit", "has_unit", "to_unit"))
    un = md.UnitVal(A.pos("su"), {"m": 1}, "u1")
    tg = md.UnitVal(A.pos("st"), {"m": 1}, "u2")
    for kind, mk in (("tensor", lambda: fresh(posv(2, "x"))), ("array", lambda: fresh(posv(2, "x"), "np")),
                     ("scalar", lambda: F(3, 2)), ("list", lambda: [F(1), F(2)])):
        def go(mk=mk):
            v = ip.call(f_with, [mk(), un])
            if ip.truth(ip.call(f_has, [v])) is not True:
                raise Fail("a tagged value has no unit")
            expect_raise(ip, lambda: ip.call(f_with, [v, tg]), TypeError, "tagging twice")
            r = ip.call(f_to, [v, tg])
            x = tn.lift(mk())
            same_t(r, tn.mapped(lambda e: e * un.scale / tg.scale, [x]), "the converted value")
        ck.ob("tagging a %s" % kind, go, ip, "units:with_unit", "tagging")

        def go3(mk=mk):
            x = mk()
            if ip.truth(ip.call(f_has, [x])) is not False:
                raise Fail("an untagged value has a unit")
            r = ip.call(f_to, [x, tg])
            same_t(r, tn.lift(x), "an untagged value after conversion")
        ck.ob("untagged %s unchanged" % kind, go3, ip, "units:to_unit", "tagging")

    def go4():
        v = ip.call(f_with, [fresh(posv(2, "x")), un])
        bad = md.UnitVal(A.pos("st2"), {"s": 1}, "u3")
        try:
            ip.call(f_to, [v, bad])
        except AbsRaise:
            return
        raise Fail("an incompatible unit is accepted")
    ck.ob("incompatible unit refused", go4, ip, "units:to_unit", "tagging")


def _cube(u):
    return md.UnitVal(A.power(u.scale, 3), {k: 3 * v for k, v in u.dims.items()}, u.name + "^3")


def fresh(t, kind=None):
    return T(t.data.copy(), t.axes, kind or t.kind, t.dtype)


# ---------------------------------------------------------------------------


def motion_configs(ck, **k):
    return configs(ck.thorough, **k)


@check("C04")
def c04(ck):
    ip = ck.ip()
    ck.rule(
        "Over a covering array of constructor configurations the star, planet "
        "and relative outputs at a symbolic time are compared as normal "
        "forms: planet - star = relative and m_star x planet + m_planet x "
        "star = 0 per planet and component, for position, velocity and "
        "acceleration."
    )
    for i, c in enumerate(motion_configs(ck)):
        kind = ("vec", "matrix", "scalar")[i % 3]
        for q in ("position", "velocity", "acceleration"):
            def go(c=c, q=q, kind=kind):
                o = build(ip, orbit_kwargs(c))
                t, ax = times(kind)
                E = elements(ip, o, c["n"])
                r = {b: call(ip, o, "get_%s_%s" % (b, q), t) for b in BODIES}
                for k in range(3):
                    col = {b: columns(r[b][k], ax, c["n"], "%s %s" % (b, q)) for b in BODIES}
                    for j in range(len(col["star"])):
                        same(col["planet"][j] - col["star"][j], col["relative"][j],
                             "%s component %d: planet - star" % (q, k))
                        same(col["planet"][j] * E["m_planet"][j] + col["star"][j] * E["m_star"][j], 0,
                             "%s component %d: mass-weighted sum" % (q, k))
            ck.ob("%s [%s]" % (q, label(c)), go, ip, KEP + "get_planet_" + q, q)


@check("C05")
def c05(ck):
    ip = ck.ip()
    ck.rule(
        "The abstract position at symbolic time is differentiated term by "
        "term (Kepler's equation included) and compared with the abstract "
        "velocity, the velocity with the acceleration, per body, component "
        "and planet over a covering array of configurations."
    )
    for i, c in enumerate(motion_configs(ck)):
        kind = ("matrix", "vec", "scalar")[i % 3]
        for b in BODIES:
            for lo, hi in (("position", "velocity"), ("velocity", "acceleration")):
                def go(c=c, b=b, lo=lo, hi=hi, kind=kind):
                    o = build(ip, orbit_kwargs(c))
                    t, ax = times(kind)
                    x = call(ip, o, "get_%s_%s" % (b, lo), t)
                    v = call(ip, o, "get_%s_%s" % (b, hi), t)
                    if len(tuple(x)) != 3 or len(tuple(v)) != 3:
                        raise Fail("three components expected")
                    for k in range(3):
                        cx = columns(x[k], ax, c["n"])
                        cv = columns(v[k], ax, c["n"])
                        for j in range(len(cx)):
                            same(cv[j], A.diff(cx[j], "t"), "%s %s component %d" % (b, hi, k))
                ck.ob("%s %s is the derivative of %s [%s]" % (b, hi, lo, label(c)), go, ip, KEP + "get_%s_%s" % (b, hi), hi)


@check("C06")
def c06(ck):
    ip = ck.ip()
    ck.rule(
        "The abstract radial velocity equals minus the derivative of the "
        "documented line-of-sight coordinate of the star times the unit "
        "factor (m/s, named and symbolic units), and with given "
        "semi-amplitudes the closed form; both routes agree for K = K_dyn."
    )
    units = [(None, RV_MS, "m/s"), (U["km"].combine(U["s"], -1), RV_MS / 1000, "km/s"),
             (md.UnitVal(A.pos("su"), {"m": 1, "s": -1}, "u"), RV_MS / A.pos("su"), "any")]
    for c in motion_configs(ck, n=(2, None, 1)):
        for un, f, ul in units:
            def go(c=c, un=un, f=f):
                o = build(ip, orbit_kwargs(c))
                t, ax = times()
                E = elements(ip, o, c["n"])
                kw = {} if un is None else {"output_units": un}
                rv = columns(call(ip, o, "get_radial_velocity", t, **kw), ax, c["n"], "radial velocity")
                for j in range(len(rv)):
                    z = unit_position(E, j, A.sym("t"))[2] * scales(E, j)["star"]
                    same(rv[j], -f * A.diff(z, "t"), "the radial velocity")
            ck.ob("dynamical route in %s [%s]" % (ul, label(c)), go, ip, KEP + "get_radial_velocity", "dynamical")

        def go(c=c):
            for turn in (units, units[::-1]):
                o = build(ip, orbit_kwargs(c))
                t, ax = times()
                got = []
                for un, f, ul in turn:
                    rv = columns(call(ip, o, "get_radial_velocity", t, **({} if un is None else {"output_units": un})), ax, c["n"], "radial velocity")
                    got.append([x / f for x in rv])
                for (un, f, ul), g in zip(turn[1:], got[1:]):
                    for x, y in zip(got[0], g):
                        same(y, x, "the radial velocity in %s after one in %s, rescaled" % (ul, turn[0][2]))
        ck.ob("one orbit, units in turn [%s]" % label(c), go, ip, KEP + "get_radial_velocity", "dynamical")
        for kk in ("vector", "scalar", "array", "with units", "dynamical K"):
            def go(c=c, kk=kk):
                kw = orbit_kwargs(c)
                o = build(ip, kw)
                t, ax = times()
                n = c["n"]
                E = elements(ip, o, n)
                m = 1 if n is None else n
                extra = {}
                if kk == "scalar":
                    K = sc(A.pos("K"), "np")
                    Ks = [A.pos("K")] * m
                elif kk == "dynamical K":
                    Ks = []
                    for j in range(m):
                        e = E["ecc"][j]
                        Ks.append(
                            RV_MS * 2 * A.PI / E["period"][j] * scales(E, j)["star"]
                            * A.sincos(E["incl"][j])[0] * A.power(1 - e * e, F(-1, 2)))
                    K = arr(Ks) if n is not None else sc(Ks[0])
                else:
                    K = posv(n, "K")
                    if kk == "array":
                        K = fresh(K, "np")
                    Ks = per_planet(K, n)
                if kk == "with units":
                    extra["output_units"] = units[1][0]
                rv = columns(call(ip, o, "get_radial_velocity", t, K=K, **extra), ax, n, "radial velocity")
                dyn = None
                if kk == "dynamical K":
                    dyn = columns(call(ip, o, "get_radial_velocity", t), ax, n)
                for j in range(m):
                    s, cf = anomaly(E, j, A.sym("t"))
                    sw, cw = A.sincos(E["omega"][j])
                    want = Ks[j] * (cw * cf - sw * s + E["ecc"][j] * cw)
                    same(rv[j], want, "the radial velocity for K")
                    if dyn:
                        same(rv[j], dyn[j], "the two routes")
            ck.ob("given K (%s) [%s]" % (kk, label(c)), go, ip, KEP + "get_radial_velocity", "given K")


@check("C07")
def c07(ck):
    ip = ck.ip()
    ck.rule(
        "Positions are interpreted at t0 + k P for a symbolic integer k, "
        "rotated back by the node angle and compared with (0, -b R_star, "
        "r sin i); the impact parameter relation is compared for every way "
        "of giving it."
    )
    k = A.sym("epoch", flags=("int",))
    for c in configs(ck.thorough, n=(2, None)):
        def go(c=c):
            kw = orbit_kwargs(c)
            o = build(ip, kw)
            n = c["n"]
            E = elements(ip, o, n)
            m = 1 if n is None else n
            for j in range(m):
                e = E["ecc"][j]
                sw, cw = A.sincos(E["omega"][j])
                si, ci = A.sincos(E["incl"][j])
                same(E["b"][j] * E["r_star"][j] * (1 + e * sw), E["a"][j] * ci * (1 - e * e), "b R (1 + e sin w)")
                if c["incl"] is None:
                    same(E["b"][j], 0, "the default impact parameter")
                    same(E["incl"][j], A.PI / 2, "the default inclination")
                elif c["incl"] == "b":
                    same(E["b"][j], per_planet(kw["b"], n)[j], "the given impact parameter")
                else:
                    same(E["incl"][j], per_planet(kw["incl"], n)[j], "the given inclination")
        ck.ob("impact parameter relation [%s]" % label(c), go, ip, KEP + "__init__", "b and inclination")

        def go(c=c):
            kw = orbit_kwargs(c)
            o = build(ip, kw)
            n = c["n"]
            E = elements(ip, o, n)
            m = 1 if n is None else n
            for j in range(m):
                tt = E["t0"][j] + k * E["period"][j]
                if c["ref"] is None:
                    tt = k * E["period"][j]
                x = call(ip, o, "get_relative_position", sc(tt))
                X, Y, Z = (columns(q, (), n)[j] for q in x)
                sW, cW = A.sincos(E["Omega"][j])
                e = E["ecc"][j]
                sw, cw = A.sincos(E["omega"][j])
                si, ci = A.sincos(E["incl"][j])
                r = E["a"][j] * (1 - e * e) / (1 + e * sw)
                same(cW * X + sW * Y, 0, "the position along the line of nodes at transit")
                same(-sW * X + cW * Y, -E["b"][j] * E["r_star"][j], "the impact parameter at transit")
                same(Z, r * si, "the line-of-sight position at transit")
        ck.ob("conjunction at t0 + k P [%s]" % label(c), go, ip, KEP + "get_relative_position", "conjunction")


def always(pred_expr_pairs, what, points=40):
    """lo < x < hi on random points of the abstract inputs."""
    for x, lo, hi in pred_expr_pairs:
        good = 0
        for k in range(200):
            env = rint.Env("b%d" % k)
            try:
                v = env.expr(A.ex(x))
                a = env.expr(A.ex(lo))
                b = env.expr(A.ex(hi))
            except (rint.Invalid, ZeroDivisionError, ValueError):
                continue
            good += 1
            if not (a < v < b):
                raise Fail("%s is out of range" % what)
            if good >= points:
                break
        if good < 4:
            raise Unsupported("no valid point for the range of %s" % what)


@check("C08")
def c08(ck):
    ip = ck.ip()
    ck.rule(
        "The two reference times are compared through the true anomaly at "
        "transit (sin f = cos omega, cos f = sin omega); every output is "
        "compared with itself one symbolic period later."
    )
    for c in configs(ck.thorough, n=(2, None)):
        def go(c=c):
            kw = orbit_kwargs(c)
            o = build(ip, kw)
            n = c["n"]
            E = elements(ip, o, n)
            for j in range(1 if n is None else n):
                s, cf = anomaly(E, j, E["t0"][j])
                sw, cw = A.sincos(E["omega"][j])
                same(s, cw, "sin of the true anomaly at t0")
                same(cf, sw, "cos of the true anomaly at t0")
                for q in ("t0", "t_periastron"):
                    if c["ref"] == q:
                        same(E[q][j], per_planet(kw[q], n)[j], "the given " + q)
                if c["ref"] is None:
                    same(E["t0"][j], 0, "the default t0")
                d = (E["t0"][j] - E["t_periastron"][j]) / E["period"][j]
                always([(d, A.ex(-1), A.ONE)], "the offset between transit and periastron")
        ck.ob("reference times [%s]" % label(c), go, ip, KEP + "__init__", "reference times")

        def go(c=c):
            kw = orbit_kwargs(c)
            o = build(ip, kw)
            n = c["n"]
            t, ax = times()
            E = elements(ip, o, n)
            outs = []
            for b in BODIES:
                for q in ("position", "velocity", "acceleration"):
                    for x in call(ip, o, "get_%s_%s" % (b, q), t):
                        outs.append(("%s %s" % (b, q), columns(x, ax, n)))
            outs.append(("radial velocity", columns(call(ip, o, "get_radial_velocity", t), ax, n)))
            outs.append(("K radial velocity", columns(call(ip, o, "get_radial_velocity", t, K=posv(n, "K")), ax, n)))
            for nm, col in outs:
                for j, x in enumerate(col):
                    y = A.subs(x, {"t": A.sym("t") + E["period"][j]})
                    same(y, x, "%s one period later" % nm)
        ck.ob("periodic [%s]" % label(c), go, ip, KEP + "_get_true_anomaly", "periodicity")


@check("C09")
def c09(ck):
    ip = ck.ip()
    ck.rule(
        "Star, planet and relative positions at a symbolic time are compared, "
        "component by component, with the documented rotation of the "
        "Keplerian ellipse written from the orbit's elements; omitted node "
        "angle and sin/cos of omega are compared with their explicit forms."
    )
    for c in configs(ck.thorough):
        for b in BODIES:
            def go(c=c, b=b):
                o = build(ip, orbit_kwargs(c))
                n = c["n"]
                t, ax = times()
                E = elements(ip, o, n)
                x = call(ip, o, "get_%s_position" % b, t)
                cols = [columns(q, ax, n) for q in x]
                if len(cols) != 3:
                    raise Fail("three components expected")
                for j in range(len(cols[0])):
                    p = unit_position(E, j, A.sym("t"))
                    s = scales(E, j)[b]
                    for k in range(3):
                        same(cols[k][j], p[k] * s, "%s position component %d" % (b, k))
            ck.ob("%s position [%s]" % (b, label(c)), go, ip, KEP + "get_%s_position" % b, b)
    for n in (2, None):
        for ecc in (None, "omega", "sincos"):
            def go(n=n, ecc=ecc):
                kw = orbit_kwargs(dict(n=n, mass="a+P+rs", ecc=ecc, incl="incl", ref="t0"))
                o1 = build(ip, kw)
                o2 = build(ip, dict(kw, Omega=zeros(n)))
                t, ax = times()
                for b in BODIES:
                    for q in ("position", "velocity", "acceleration"):
                        for x, y in zip(call(ip, o1, "get_%s_%s" % (b, q), t), call(ip, o2, "get_%s_%s" % (b, q), t)):
                            same_t(x, y, "%s %s without node angle" % (b, q))
            ck.ob("omitted node angle is zero [n=%s,ecc=%s]" % (n, ecc), go, ip, KEP + "_rotate_vector", "node angle")

        def go(n=n):
            for inc in (None, "b", "incl"):
                for ref in ("t0", "t_periastron"):
                    k1 = orbit_kwargs(dict(n=n, mass="P+ms+rs", ecc="omega", incl=inc, ref=ref))
                    k2 = orbit_kwargs(dict(n=n, mass="P+ms+rs", ecc="sincos", incl=inc, ref=ref))
                    o1, o2 = build(ip, k1), build(ip, k2)
                    t, ax = times()
                    for b in BODIES:
                        for q in ("position", "velocity", "acceleration"):
                            for x, y in zip(call(ip, o1, "get_%s_%s" % (b, q), t), call(ip, o2, "get_%s_%s" % (b, q), t)):
                                same_t(x, y, "%s %s from sin and cos of omega" % (b, q))
                    w1, w2 = per_planet(att(ip, o1, "omega"), n), per_planet(att(ip, o2, "omega"), n)
                    for a_, b_ in zip(w1, w2):
                        for x, y in zip(A.sincos(a_), A.sincos(b_)):
                            same(x, y, "omega from its sine and cosine")
        ck.ob("sin/cos omega equals omega [n=%s]" % n, go, ip, KEP + "__init__", "omega forms")

        for sw, cw in ((-1, 0), (1, 0), (0, 1), (0, -1)):
            # (the cosine of the rounded -pi/2 is not zero: only the pair of a
            # sine and a cosine can be exactly at the apastron)
            for form in ("sincos", "omega") if sw >= 0 else ("sincos",):
                def go(n=n, sw=sw, cw=cw, form=form):
                    kw = orbit_kwargs(dict(n=n, mass="a+P+rs", ecc="omega", incl="incl", ref="t0"))
                    if form == "sincos":
                        del kw["omega"]
                        kw["sin_omega"], kw["cos_omega"] = sc(A.ex(sw)), sc(A.ex(cw))
                    else:
                        kw["omega"] = {(-1, 0): -A.PI / 2, (1, 0): A.PI / 2, (0, 1): A.ZERO, (0, -1): A.PI}[sw, cw]
                        kw["omega"] = sc(kw["omega"])
                    o = build(ip, kw)
                    e, a, t0 = (per_planet(kw[k], n) for k in ("ecc", "a", "t0"))
                    inc = per_planet(kw["incl"], n)
                    for j in range(len(e)):
                        x = call(ip, o, "get_relative_position", sc(t0[j]))
                        col = [per_planet(q, n)[j] for q in x]
                        r = a[j] * (1 - e[j] * e[j]) / (1 + e[j] * sw)
                        si, ci = A.sincos(inc[j])
                        same(col[0], 0, "the sky-plane separation along the nodes at the reference transit")
                        same(col[1], -r * ci, "the separation across the nodes at the reference transit")
                        same(col[2], r * si, "the distance towards the observer at the reference transit")
                ck.ob("periastron along an axis (%d, %d) by %s [n=%s]" % (sw, cw, form, n), go, ip, KEP + "__init__", "omega forms")

        def go(n=n):
            tk = ip.import_module("exoplanet.orbits.keplerian")
            f = tk.vars["get_true_anomaly"]
            M, e = vec(n, "M"), vec(n, "e", lo=0, hi=1)
            r = ip.call(f, [M, e])
            for q, m_, e_ in zip(per_planet(r, n), per_planet(M, n), per_planet(e, n)):
                s, c_ = A.kepler(m_, e_)
                sf, cf = A.sincos(q)
                h = A.power(s * s + c_ * c_, F(1, 2))
                same(sf * h, s, "sin of the true anomaly")
                same(cf * h, c_, "cos of the true anomaly")
        ck.ob("true anomaly function [n=%s]" % n, go, ip, "orbits.keplerian:get_true_anomaly", "true anomaly")


def zeros(n):
    return sc(0) if n is None else arr([0] * n)


@check("C10")
def c10(ck):
    ip = ck.ip()
    ck.rule(
        "For each configuration the orbit without eccentricity and the orbit "
        "with ecc = 0, omega = 0 are interpreted side by side and all "
        "evaluation methods and derived attributes compared as normal forms."
    )
    dom = {
        "mass": ["P+ms+rs", "a+P", "a+P+rs", "a", "P+rho"],
        "mp": [True, False],
        "incl": [None, "incl", "b"],
        "Omega": [None, True],
        "ref": [None, "t0", "t_periastron"],
        "n": [2, None, 1],
    }
    skip = {"ecc", "omega", "sin_omega", "cos_omega"}
    for c in pairwise(dom, strength=3 if ck.thorough else 2):
        def pair(c=c):
            kw = orbit_kwargs(c)
            n = c["n"]
            o1 = build(ip, kw)
            o2 = build(ip, dict(kw, ecc=zeros(n), omega=zeros(n)))
            return o1, o2

        def go(c=c, pair=pair):
            o1, o2 = pair()
            for k, v in all_attrs(o1).items():
                if k in skip or v is None:
                    continue
                w = o2.attrs.get(k)
                if w is None:
                    raise Fail("attribute %s is missing" % k)
                same_t(v, w, "attribute " + k, shape=False)
        ck.ob("attributes [%s]" % label(c), go, ip, KEP + "__init__", "attributes")

        def go(c=c, pair=pair):
            o1, o2 = pair()
            t, ax = times()
            for b in BODIES:
                for q in ("position", "velocity", "acceleration"):
                    nm = "get_%s_%s" % (b, q)
                    for x, y in zip(call(ip, o1, nm, t), call(ip, o2, nm, t)):
                        same_t(x, y, nm)
            same_t(call(ip, o1, "get_radial_velocity", t), call(ip, o2, "get_radial_velocity", t), "radial velocity")
            K = posv(c["n"], "K")
            same_t(call(ip, o1, "get_radial_velocity", t, K=K), call(ip, o2, "get_radial_velocity", t, K=K), "radial velocity for K")
            p = sc(A.pos("plx"))
            for x, y in zip(call(ip, o1, "get_relative_angles", t, parallax=p), call(ip, o2, "get_relative_angles", t, parallax=p)):
                same_t(x, y, "relative angles")
        ck.ob("motion [%s]" % label(c), go, ip, KEP + "_get_position", "motion")

        def go(c=c, pair=pair):
            t, ax = times()
            for part in generic_partitions(ip, orbit_kwargs(c), c["n"], True):
                with part:
                    o1, o2 = pair()
                    for b in BODIES:
                        nm = "get_%s_position" % b
                        for x, y in zip(call(ip, o1, nm, t, light_delay=True), call(ip, o2, nm, t, light_delay=True)):
                            same_t(x, y, nm + " with light delay")
        ck.ob("light delay [%s]" % label(c), go, ip, KEP + "_get_retarded_position", "light delay")


# ---------------------------------------------------------------------------


def second_order_delay(z):
    """c d = -z(t - d) to second order, and to first order."""
    v = A.diff(z, "t")
    acc = A.diff(v, "t")
    c = C_SPEC
    lin = -z / (c - v)
    if A.zero_test(acc):
        return lin, lin
    quad = (-(c - v) + A.power((c - v) ** 2 - 2 * acc * z, F(1, 2))) / acc
    return quad, lin


def delayed_alternatives(x, z):
    quad, lin = second_order_delay(z)
    return [A.subs(x, {"t": A.sym("t") - d}) for d in (quad, lin)]


def check_delayed(got, und, z, what, slow=False):
    """got is the undelayed number und at the emission time; slow: a partition
    where the acceleration vanishes numerically (first order allowed)."""
    alts = delayed_alternatives(und, z)
    if eq(got, alts[0]) or (slow and eq(got, alts[1])):
        return
    raise Fail("%s is %s, expected the undelayed number at the second-order emission time, %s" % (what, show(got, 120), show(alts[0], 120)))


def generic_partitions(ip, kw, n, light_delay, count=2):
    """Partitions for comparisons of delayed positions; without light delay
    nothing is compared element-wise and the whole domain is analysed."""
    if not light_delay:
        return [contextlib.nullcontext()]
    o = build(ip, kw)
    t, ax = times()
    xs = [e for b in BODIES for e in columns(call(ip, o, "get_%s_position" % b, t)[2], ax, n)]
    return [rint.partition_for(xs, "pq"[i]) for i in range(count)]


def delay_partitions(exprs, thorough=False):
    """Partitions with an appreciable and with a vanishing acceleration."""
    yield rint.partition_for(exprs, "p"), False
    yield rint.partition_for(exprs, "q"), False
    u = 10**9
    slow = {"a0": 10**6, "a1": 10**6, "P0": 100 * u, "P1": 100 * u, "tp0": 13 * u, "tp1": 31 * u, "t0_0": 17 * u, "t0_1": 29 * u, "t": 9 * u}
    yield rint.partition_for(exprs, "slow", **slow), True


@check("C11")
def c11(ck):
    ip = ck.ip()
    ck.rule(
        "With light delay the abstract position must be the undelayed "
        "abstract position of the same body substituted at t - d, d being the "
        "root of the second-order expansion of c d = -z(t - d) built from the "
        "undelayed line-of-sight coordinate and its derivatives; checked per "
        "body, component, planet, with and without parallax."
    )
    dom = {
        "mass": ["a+P", "P+ms+rs"],
        "ecc": [None, "omega", "sincos"],
        "incl": [None, "incl", "b"],
        "Omega": [None, True],
        "ref": [None, "t0", "t_periastron"],
        "n": [2, None, 1],
        "parallax": [None, True],
        "body": ["star", "planet", "relative", "angles"],
    }
    cfgs = pairwise(dom, strength=3 if ck.thorough else 2)
    for c in cfgs:
        def go(c=c):
            n = c["n"]
            t, ax = times()
            kw = {}
            if c["parallax"]:
                kw["parallax"] = sc(A.pos("plx"))
            nm = "get_relative_angles" if c["body"] == "angles" else "get_%s_position" % c["body"]
            body = "relative" if c["body"] == "angles" else c["body"]
            o = build(ip, orbit_kwargs(dict(c)))
            zs = columns(call(ip, o, "get_%s_position" % body, t)[2], ax, n)
            for part, slow in delay_partitions(zs, ck.thorough):
                with part:
                    o = build(ip, orbit_kwargs(dict(c)))
                    zs = columns(call(ip, o, "get_%s_position" % body, t)[2], ax, n)
                    und = [columns(x, ax, n) for x in call(ip, o, nm, t, **kw)]
                    dl = [columns(x, ax, n) for x in call(ip, o, nm, t, light_delay=True, **kw)]
                    for k in range(len(und)):
                        for j in range(len(zs)):
                            check_delayed(dl[k][j], und[k][j], zs[j], "%s component %d" % (nm, k), slow)
        ck.ob("%s [%s]" % (c["body"], label(c)), go, ip, KEP + "_get_retarded_position", c["body"])
    from . import ttv
    ttv.light_delay(ck)


@check("C12")
def c12(ck):
    ip = ck.ip()
    ck.rule(
        "Positions with a symbolic parallax are compared with the R_sun "
        "positions times parallax times au per R_sun, with and without light "
        "delay; relative angles with sqrt(X^2+Y^2) and atan2(Y, X) of the "
        "relative position under the same options."
    )
    for c in configs(ck.thorough, n=(2, None)):
        for ld in (False, True):
            if ld and c["mass"] not in ("a+P", "a+P+rs", "P+ms+rs"):
                continue
            def go(c=c, ld=ld):
                n = c["n"]
                t, ax = times()
                p = sc(A.pos("plx"), "np")
                for part in generic_partitions(ip, orbit_kwargs(c), n, ld):
                  with part:
                    o = build(ip, orbit_kwargs(c))
                    for b in BODIES:
                        x = call(ip, o, "get_%s_position" % b, t, light_delay=ld)
                        y = call(ip, o, "get_%s_position" % b, t, parallax=p, light_delay=ld)
                        for k in range(3):
                            for u_, v_ in zip(columns(x[k], ax, n), columns(y[k], ax, n)):
                                same(v_, u_ * A.pos("plx") * AU_PER_RSUN, "%s position with parallax" % b)
            ck.ob("parallax [%s,light_delay=%s]" % (label(c), ld), go, ip, KEP + "_get_position", "parallax")

            def go(c=c, ld=ld):
                n = c["n"]
                t, ax = times()
                for part, p in itertools.product(generic_partitions(ip, orbit_kwargs(c), n, ld), (None, sc(A.pos("plx")))):
                  with part:
                    o = build(ip, orbit_kwargs(c))
                    kw = {} if p is None else {"parallax": p}
                    x = call(ip, o, "get_relative_position", t, light_delay=ld, **kw)
                    r = call(ip, o, "get_relative_angles", t, light_delay=ld, **kw)
                    X, Y = columns(x[0], ax, n), columns(x[1], ax, n)
                    rho, th = columns(r[0], ax, n), columns(r[1], ax, n)
                    for j in range(len(X)):
                        same(rho[j], A.power(X[j] ** 2 + Y[j] ** 2, F(1, 2)), "the separation")
                        want = A.fn("arctan2", Y[j], X[j])
                        if not A.equal(th[j], want):
                            s1, c1 = A.sincos(th[j])
                            h = A.power(X[j] ** 2 + Y[j] ** 2, F(1, 2))
                            same(s1 * h, Y[j], "sin of the position angle x separation")
                            same(c1 * h, X[j], "cos of the position angle x separation")
            ck.ob("relative angles [%s,light_delay=%s]" % (label(c), ld), go, ip, KEP + "get_relative_angles", "relative angles")


def exchanged(ip, o, r):
    """The orbit the secondary-eclipse light curve builds from o."""
    lc = ip.modules["exoplanet"].vars["SecondaryEclipseLightCurve"]
    made = []
    ip.on_instance = lambda obj: made.append(obj)
    try:
        flip = o.cls.lookup("_flip")
        if flip is not None:
            ip.on_instance = None
            return call(ip, o, "_flip", r)
        l = ip.call(lc, [[sc(A.sym("u1")), sc(A.sym("u2"))], [sc(A.sym("v1")), sc(A.sym("v2"))], sc(A.pos("sbr"))])
        t, ax = times()
        call(ip, l, "get_light_curve", orbit=o, r=r, t=t, use_in_transit=False)
    finally:
        ip.on_instance = None
    orbs = [x for x in made if any(getattr(b, "name", "") == "KeplerianOrbit" for b in x.cls.mro)]
    if not orbs:
        raise Unsupported("the exchanged orbit was not found")
    return orbs[-1]


@check("C13")
def c13(ck):
    ip = ck.ip()
    ck.rule(
        "The exchanged orbit is built abstractly and its relative position "
        "compared, as normal forms, with the negative of the original's; "
        "masses, radius, period, inclination, total mass and axis compared."
    )
    for c in configs(ck.thorough, n=(2, None, 1)):
        if c["mass"] in ("a+rho+ms",) and not ck.thorough:
            pass
        def go(c=c):
            kw = orbit_kwargs(dict(c, mp=True))
            n = c["n"]
            o = build(ip, kw)
            r = posv(n, "r")
            o2 = exchanged(ip, o, r)
            E, E2 = elements(ip, o, n), elements(ip, o2, n)
            R = per_planet(r, n)
            for j in range(1 if n is None else n):
                same(E2["m_star"][j], E["m_planet"][j], "the central mass")
                same(E2["m_planet"][j], E["m_star"][j], "the orbiting mass")
                same(E2["r_star"][j], R[j], "the central radius")
                same(E2["period"][j], E["period"][j], "the period")
                same(E2["incl"][j], E["incl"][j], "the inclination")
                same(E2["a"][j], E["a"][j], "the semimajor axis")
            t, ax = times()
            for ld in (False,):
                x = call(ip, o, "get_relative_position", t)
                y = call(ip, o2, "get_relative_position", t)
                for k in range(3):
                    for p, q in zip(columns(x[k], ax, n), columns(y[k], ax, n)):
                        same(q, -p, "the relative position component %d" % k)
        ck.ob("exchange [%s]" % label(c), go, ip, KEP + "_flip", "exchange")


# ---------------------------------------------------------------------------


def nearest_offset(E, j, t):
    P = E["period"][j]
    return A.fn("mod", t - E["t0"][j] + P / 2, P) - P / 2


def selection(x, ax, what="the selection"):
    """Indicator by which an index vector selects from its time axis."""
    x = tn.lift(x)
    if x.dtype not in ("int64", "bool"):
        raise Fail("%s is not an integer vector but %s" % (what, x.dtype))
    if x.ndim != 1:
        raise Fail("%s has %d dimensions" % (what, x.ndim))
    a = x.axes[0]
    if x.idx is None:
        raise Unsupported("%s is not an index vector the domain tracks" % what)
    base = x.idx.parent or x.idx
    if not tn.same_axis(base, ax):
        raise Fail("%s indexes another axis" % what)
    if x.idx.parent is None:
        return A.ONE
    return x.idx.sel[0]


def half_width(texp):
    return A.ZERO if texp is None else texp / 2


def same_indicator(got, want, what, centre=None, edges=(), period=None):
    """Equality of two selections of times; where the indicators differ in
    form they are compared on both sides of the edges."""
    if rint.prob_equal(got, want) is False:
        raise Fail("%s is %s, expected %s" % (what, show(got), show(want)))
    if A.equal(got, want):
        return
    ok = eq(got, want)
    if ok and centre is not None:
        for width in (F(1, 4), F(1, 100)):
            for edge in edges:
                u = A.sym("u_edge", lo=-width, hi=width)
                n = A.sym("n_edge", lo=-3, hi=3, flags=("int",))
                t = centre + n * period + edge * (1 + u)
                r = rint.prob_equal(A.subs(got, {"t": t}), A.subs(want, {"t": t}), points=24)
                if r is False:
                    ok = False
    if not ok:
        raise Fail("%s is %s, expected %s" % (what, show(got), show(want)))


@check("C14")
def c14(ck):
    ip = ck.ip()
    A.STRICT[0] = False
    ck.rule(
        "The selection is tracked as an indicator over the symbolic time axis "
        "and compared with the indicator of |offset from nearest transit| "
        "within the contact interval widened by half the exposure time, for "
        "any planet; contact anomalies are opaque functions of the orbit "
        "(compiled solver) whose arguments are compared too."
    )
    dom = {
        "mass": ["P+ms+rs", "a+P", "a+P+rs"],
        "ecc": [None, "omega", "sincos"],
        "incl": [None, "incl", "b"],
        "Omega": [None, True],
        "ref": [None, "t0", "t_periastron"],
        "n": [2, None, 1, 3],
        "texp": [None, "scalar", "vector", "tensor", "float"],
        "r": [None, "vector", "scalar"],
        "tk": ["np", "pt"],
    }
    for c in pairwise(dom, strength=3 if ck.thorough else 2):
        def go(c=c):
            n = c["n"]
            m = 1 if n is None else n
            o = build(ip, orbit_kwargs({k: v for k, v in c.items() if k not in ("texp", "r", "tk")}))
            E = elements(ip, o, n)
            t, ax = times("vec", c["tk"])
            te = A.pos("texp")
            kw = {}
            if c["texp"] == "scalar":
                kw["texp"] = sc(te, "pt")
            elif c["texp"] == "float":
                kw["texp"] = sc(te, "py")
            elif c["texp"] == "vector":
                kw["texp"] = gen(te, ax[0], "np")
            elif c["texp"] == "tensor":
                kw["texp"] = gen(te, ax[0], "pt")
            if c["r"] == "vector":
                r = posv(n, "r")
                kw["r"] = r
                R = per_planet(r, n)
            elif c["r"] == "scalar":
                kw["r"] = sc(A.pos("r"), "np")
                R = [A.pos("r")] * m
            else:
                R = [A.ZERO] * m
            res = call(ip, o, "in_transit", t, **kw)
            sel = selection(res, ax[0])
            miss = A.ONE
            flags = []
            where = []
            w = half_width(te if c["texp"] else None)
            for j in range(m):
                d = nearest_offset(E, j, A.sym("t"))
                P, Rs = E["period"][j], E["r_star"][j]
                if E["circ"]:
                    k = R[j] / Rs
                    si = A.sincos(E["incl"][j])[0]
                    arg = (1 + k) ** 2 - E["b"][j] ** 2
                    h = P / (2 * A.PI) * A.fn("arcsin", Rs / (E["a"][j] * si) * A.power(arg, F(1, 2)))
                    lo, hi = -h, h
                else:
                    sw, cw = A.sincos(E["omega"][j])
                    si, ci = A.sincos(E["incl"][j])
                    args = (E["a"][j], E["ecc"][j], cw, sw, ci, si, Rs + R[j])
                    nn = 2 * A.PI / P
                    M0 = nn * (E["t0"][j] - E["t_periastron"][j])
                    tl = wrap((A.fn_raw("contact_left", args) - M0) / nn, P)
                    tr = wrap((A.fn_raw("contact_right", args) - M0) / nn, P)
                    lo = A.switch(A.gt0(tl), tl - P, tl)
                    hi = A.switch(A.gt0(-tr), tr + P, tr)
                    flags.append(A.eq0(A.fn_raw("contact_flag", args)))
                where.append((E["t0"][j], (lo - w, hi + w), P))
                inside = (1 - A.gt0(lo - w - d)) * (1 - A.gt0(d - hi - w))
                inside = A.gt0(d - lo + w) * A.gt0(hi + w - d) if A.STRICT[0] else inside
                miss = miss * (1 - inside)
            want = 1 - miss
            ids = [f.d and list(f.d)[0][0][0] for f in flags]
            if flags and not set(ids) <= set(A.atoms_of(sel)):
                found = A.ONE
                for f in flags:
                    found = found * f
                want = found * want + 1 - found
                ids = []
            for bad in itertools.product((0, 1), repeat=len(ids)):
                if not any(bad):
                    continue
                g = sel
                for i, v in zip(ids, bad):
                    g = A.cofactor(g, i, 1 - v)
                if g.const() != 1 and not (rint.prob_equal(g, A.ONE, points=64) and A.equal(g, A.ONE)):
                    raise Fail("where the contacts of planets %s cannot be found the selection is %s" % (
                        [j for j, v in enumerate(bad) if v], show(g)))
            for i in ids:
                sel = A.cofactor(sel, i, 1)
            for centre, edges, P in where:
                same_indicator(sel, want, "the selection of times", centre, edges, P)
        ck.ob("window [%s]" % label(c), go, ip, KEP + "in_transit", "window")
    for ecc in (None, "omega"):
        def go(ecc=ecc):
            o = build(ip, orbit_kwargs(dict(n=2, mass="a+P+rs", ecc=ecc, incl="b")))
            t, ax = times()
            expect_raise(ip, lambda: call(ip, o, "in_transit", t, light_delay=True), NotImplementedError, "light delay")
        ck.ob("light delay refused [ecc=%s]" % ecc, go, ip, KEP + "in_transit", "refusal")


def wrap(x, P):
    return A.fn("mod", x + P / 2, P) - P / 2


# ---------------------------------------------------------------------------


@check("C15")
def c15(ck):
    ip = ck.ip()
    ck.rule(
        "The duration relation is compared as normal forms on the attributes "
        "of the orbit built from a duration (circular: semimajor axis; "
        "eccentric: impact parameter), for scalar and vector inputs, tensors, "
        "arrays and lists, with and without radius ratio."
    )
    for n in (2, None, 1):
        for ror in (True, False):
            for rs in (True, False):
                for form in ("tensor", "array", "list"):
                    if form == "list" and n is None:
                        continue
                    def go(n=n, ror=ror, rs=rs, form=form):
                        src = planet_args(n)
                        kw = dict(period=src["period"], duration=src["duration"], b=src["b"])
                        if ror:
                            kw["ror"] = src["ror"]
                        kw = {k: reform(v, form) for k, v in kw.items()}
                        if rs:
                            kw["r_star"] = src["r_star"]
                        e0 = len(ip.events)
                        o = build(ip, kw)
                        warned = any(e.kind == "warning" for e in ip.events[e0:])
                        if warned == ror:
                            raise Fail("a missing radius ratio must warn" if not ror else "unexpected warning")
                        E = elements(ip, o, n)
                        for j in range(1 if n is None else n):
                            k = per_planet(src["ror"], n)[j] if ror else A.ZERO
                            T_ = per_planet(src["duration"], n)[j]
                            s, c_ = A.sincos(A.PI * T_ / E["period"][j])
                            ar = E["a"][j] / E["r_star"][j]
                            same(ar ** 2 * s ** 2, (1 + k) ** 2 - E["b"][j] ** 2 * c_ ** 2, "(a/R)^2 sin^2")
                            same(E["b"][j], per_planet(src["b"], n)[j], "b")
                            # direct statement: T is the first-to-fourth contact duration
                            si2 = 1 - A.sincos(E["incl"][j])[1] ** 2
                            same(ar ** 2 * si2 * s ** 2, (1 + k) ** 2 - E["b"][j] ** 2, "the contact condition")
                    ck.ob("circular [n=%s,ror=%s,r_star=%s,%s]" % (n, ror, rs, form), go, ip, KEP + "__init__", "circular")
        for ror in (True, False):
            for c in (dict(mass="P+ms+rs"), dict(mass="a+P+rs"), dict(mass="a"), dict(mass="P+rho")):
                for ecc in ("omega", "sincos"):
                    for mp in (True, False):
                        def go(n=n, ror=ror, c=c, ecc=ecc, mp=mp):
                            src = planet_args(n)
                            kw = orbit_kwargs(dict(c, n=n, ecc=ecc, incl="duration", mp=mp))
                            if ror:
                                kw["ror"] = src["ror"]
                            o = build(ip, kw)
                            E = elements(ip, o, n)
                            for j in range(1 if n is None else n):
                                e = E["ecc"][j]
                                k = per_planet(src["ror"], n)[j] if ror else A.ZERO
                                T_ = per_planet(src["duration"], n)[j]
                                sw, cw = A.sincos(E["omega"][j])
                                s, c_ = A.sincos(A.PI * T_ / E["period"][j] * (1 + e * sw) * A.power(1 - e * e, F(-1, 2)))
                                ar = E["a"][j] / E["r_star"][j]
                                b2 = E["b"][j] ** 2
                                ci2 = b2 * (1 + e * sw) ** 2 / (1 - e * e) ** 2
                                same((ar ** 2 - ci2) * s ** 2, (1 + k) ** 2 - b2, "the contact condition")
                        ck.ob("eccentric [n=%s,ror=%s,%s,ecc=%s,mp=%s]" % (n, ror, c["mass"], ecc, mp), go, ip, KEP + "__init__", "eccentric")
    kep = ip.import_module("exoplanet.orbits.keplerian")
    for n in (2, None):
        for ror in (True, False):
            def go(n=n, ror=ror):
                src = planet_args(n)
                kw = {"ror": src["ror"]} if ror else {}
                aor, jac = ip.call(kep.vars["get_aor_from_transit_duration"], [src["duration"], src["period"], src["b"]], kw)
                for j in range(1 if n is None else n):
                    k = per_planet(src["ror"], n)[j] if ror else A.ZERO
                    T_, P, b = (per_planet(src[q], n)[j] for q in ("duration", "period", "b"))
                    s, c_ = A.sincos(A.PI * T_ / P)
                    same(per_planet(aor, n)[j] ** 2 * s ** 2, (1 + k) ** 2 - b ** 2 * c_ ** 2, "(a/R)^2 sin^2")
            ck.ob("duration relation [n=%s,ror=%s]" % (n, ror), go, ip, "orbits.keplerian:get_aor_from_transit_duration", "relation")


def reform(v, form):
    if form == "array":
        return fresh(v, "np")
    if form == "list":
        return [T(e, (), "py") for e in v.data.flat]
    return v


@check("C16")
def c16(ck):
    ip = ck.ip()
    ck.rule(
        "Each reported Jacobian is compared with the term-by-term derivative "
        "of the reported attribute's normal form."
    )
    for n in (2, None, 1):
        for ror in (True, False):
            for rs in (True, False):
                for mp in (True, False):
                    def go(n=n, ror=ror, rs=rs, mp=mp):
                        src = planet_args(n)
                        kw = dict(period=src["period"], duration=src["duration"], b=src["b"])
                        if ror:
                            kw["ror"] = src["ror"]
                        if rs:
                            kw["r_star"] = src["r_star"]
                        if mp:
                            kw["m_planet"] = src["m_planet"]
                        o = build(ip, kw)
                        jac = att(ip, o, "jacobians")
                        for q in ("a", "a_star", "a_planet", "rho_star"):
                            if "duration" not in jac or q not in jac["duration"]:
                                raise Fail("no Jacobian of %s" % q)
                            v = per_planet(att(ip, o, q), n)
                            dj = per_planet(jac["duration"][q], n)
                            for j in range(len(v)):
                                nm = "tau%d" % j
                                d = A.diff(v[j], nm)
                                same(dj[j], d, "d %s / d duration" % q)
                    ck.ob("duration jacobians [n=%s,ror=%s,r_star=%s,mp=%s]" % (n, ror, rs, mp), go, ip, KEP + "__init__", "duration")
    for c in configs(ck.thorough, extra={"incl": [None, "incl", "b", "duration"]},
                     keep=lambda c: not (c["incl"] == "duration" and c["ecc"] is None), n=(2, None)):
        def go(c=c):
            o = build(ip, orbit_kwargs(c))
            n = c["n"]
            E = elements(ip, o, n)
            jac = att(ip, o, "jacobians")
            d1 = per_planet(jac["b"]["cos_incl"], n)
            for j in range(len(d1)):
                e = E["ecc"][j]
                sw = A.sincos(E["omega"][j])[0]
                want = E["r_star"][j] / E["a"][j] * (1 + e * sw) / (1 - e * e)
                same(d1[j], want, "d cos(i) / d b")
                same(A.sincos(E["incl"][j])[1], d1[j] * E["b"][j], "cos(i)")
        ck.ob("inclination jacobian [%s]" % label(c), go, ip, KEP + "__init__", "inclination")
    kep = ip.import_module("exoplanet.orbits.keplerian")
    for n in (2, None):
        for ror in (True, False):
            def go(n=n, ror=ror):
                src = planet_args(n)
                kw = {"ror": src["ror"]} if ror else {}
                aor, jac = ip.call(kep.vars["get_aor_from_transit_duration"], [src["duration"], src["period"], src["b"]], kw)
                for j, (x, y) in enumerate(zip(per_planet(aor, n), per_planet(jac, n))):
                    same(y, A.diff(x, "tau%d" % j), "d (a/R) / d duration")
            ck.ob("relation jacobian [n=%s,ror=%s]" % (n, ror), go, ip, "orbits.keplerian:get_aor_from_transit_duration", "relation")
