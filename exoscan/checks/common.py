"""Shared construction of abstract orbits and times."""

from fractions import Fraction as F

from .. import algebra as A
from .. import tensor as tn
from ..harness import (
    Fail, angle, arr, as_list, check_axes, gen, gen_nd, pairwise, same,
    same_t, sc, show,
)
from ..interp import Obj
from ..tensor import T

RSUN, MSUN, DAY = None, None, None


def vec(n, base, **k):
    """n planets: None scalar, else literal vector of symbols."""
    mk = (lambda nm: A.sym(nm, **k))
    if n is None:
        return sc(mk(base + "0"))
    return arr([mk("%s%d" % (base, i)) for i in range(n)])


def posv(n, base):
    return vec(n, base, lo=0, flags=("pos",))


def angv(n, base):
    return vec(n, base, flags=("angle",))


def sincos_of(t):
    s = tn.mapped(lambda e: A.sincos(e)[0], [t], kind="pt")
    c = tn.mapped(lambda e: A.sincos(e)[1], [t], kind="pt")
    return s, c


MASS = {
    # name: (arguments, spec)
    "P+ms+rs": ("period", "m_star", "r_star"),
    "P+rho": ("period", "rho_star"),
    "P+rho+rs": ("period", "rho_star", "r_star"),
    "P+rho+ms": ("period", "rho_star", "m_star"),
    "P+rs?": ("period",),
    "a": ("a",),
    "a+ms+rs": ("a", "m_star", "r_star"),
    "a+rho": ("a", "rho_star"),
    "a+rho+rs": ("a", "rho_star", "r_star"),
    "a+rho+ms": ("a", "rho_star", "m_star"),
    "a+P": ("a", "period"),
    "a+P+rs": ("a", "period", "r_star"),
}


def planet_args(n):
    return {
        "period": posv(n, "P"),
        "a": posv(n, "a"),
        "m_planet": posv(n, "mp"),
        "ecc": vec(n, "e", lo=0, hi=1),
        "omega": angv(n, "w"),
        "Omega": angv(n, "W"),
        "incl": vec(n, "inc", lo=0, hi=3, flags=("angle",)),
        "b": vec(n, "b"),
        "t0": vec(n, "t0_"),
        "t_periastron": vec(n, "tp"),
        "duration": posv(n, "tau"),
        "ror": posv(n, "k"),
        "m_star": sc(A.pos("ms")),
        "r_star": sc(A.pos("rs")),
        "rho_star": sc(A.pos("rho")),
    }


def orbit_kwargs(cfg):
    n = cfg.get("n", 2)
    src = planet_args(n)
    kw = {}
    for k in MASS[cfg.get("mass", "P+ms+rs")]:
        kw[k] = src[k]
    if cfg.get("mp", True):
        kw["m_planet"] = src["m_planet"]
    e = cfg.get("ecc")
    if e:
        kw["ecc"] = src["ecc"]
        if e == "omega":
            kw["omega"] = src["omega"]
        else:
            kw["sin_omega"], kw["cos_omega"] = sincos_of(src["omega"])
    if cfg.get("incl"):
        kw[cfg["incl"]] = src[cfg["incl"]]
    if cfg.get("Omega"):
        kw["Omega"] = src["Omega"]
    if cfg.get("ref"):
        kw[cfg["ref"]] = src[cfg["ref"]]
    return kw


def label(cfg):
    return ",".join(
        "%s=%s" % (k, v) for k, v in cfg.items()
    )


def kepler_class(ip, name="KeplerianOrbit"):
    return ip.getattr(ip.modules["exoplanet"].vars["orbits"], name)


def build(ip, kw, cls="KeplerianOrbit"):
    return ip.call(kepler_class(ip, cls), [], dict(kw))


def att(ip, o, name):
    v = ip.getattr(o, name)
    return v


def per_planet(v, n):
    """List of abstract numbers, one per planet."""
    if v is None:
        return None
    v = tn.lift(v)
    m = 1 if n is None else n
    flat = list(v.data.flat)
    if len(flat) == 1:
        return flat * m
    if len(flat) != m:
        raise Fail("an orbit attribute has %d elements for %d planets" % (len(flat), m))
    return flat


_AX = {}


def taxis(name="T"):
    if name not in _AX:
        _AX[name] = tn.Axis(name=name)
    return _AX[name]


def times(kind="vec", tkind="np"):
    """(tensor, axes) of abstract times."""
    t = A.sym("t")
    if kind == "scalar":
        return sc(t, "pt" if tkind == "pt" else "np"), ()
    if kind == "vec":
        return gen(t, taxis("T"), tkind), (taxis("T"),)
    ax = (taxis("T"), taxis("S"))
    return gen_nd(t, ax, tkind), ax


def out_axes(taxes, n):
    if n is None or n == 1:
        return tuple(taxes)
    return tuple(taxes) + (tn.literal_axis(n),)


def columns(x, taxes, n, what="result"):
    """Check the shape of a (times x planets) output; one number per planet."""
    x = tn.lift(x)
    check_axes(x, out_axes(taxes, n), what)
    return list(x.data.flat)


def call(ip, o, name, *args, **kw):
    return ip.call(ip.getattr(o, name), list(args), kw)


def elements(ip, o, n):
    """Orbital elements of an abstract orbit from its public attributes."""
    E = {}
    for k in ("period", "a", "m_star", "m_planet", "r_star", "rho_star",
              "t0", "t_periastron", "incl", "b"):
        E[k] = per_planet(att(ip, o, k), n)
    e = att(ip, o, "ecc")
    m = 1 if n is None else n
    if e is None:
        E["circ"] = True
        E["ecc"] = [A.ZERO] * m
        E["omega"] = [A.ZERO] * m
    else:
        E["circ"] = False
        E["ecc"] = per_planet(e, n)
        E["omega"] = per_planet(att(ip, o, "omega"), n)
    Om = att(ip, o, "Omega")
    E["Omega"] = [A.ZERO] * m if Om is None else per_planet(Om, n)
    return E


def anomaly(E, j, t):
    n = 2 * A.PI / E["period"][j]
    M = (t - E["t_periastron"][j]) * n
    return A.kepler(M, E["ecc"][j])


def unit_position(E, j, t):
    """The documented frame: r (X, Y, Z) for unit semimajor axis."""
    s, c = anomaly(E, j, t)
    e = E["ecc"][j]
    r = (1 - e * e) / (1 + e * c)
    return frame(E, j, r * c, r * s)


def frame(E, j, x, y):
    sw, cw = A.sincos(E["omega"][j])
    sW, cW = A.sincos(E["Omega"][j])
    si, ci = A.sincos(E["incl"][j])
    x1 = cw * x - sw * y
    y1 = sw * x + cw * y
    return (
        cW * x1 - sW * y1 * ci,
        sW * x1 + cW * y1 * ci,
        -si * y1,
    )


def scales(E, j):
    """Semimajor axes of star, planet and relative orbit."""
    mt = E["m_star"][j] + E["m_planet"][j]
    return {
        "star": E["a"][j] * E["m_planet"][j] / mt,
        "planet": -E["a"][j] * E["m_star"][j] / mt,
        "relative": -E["a"][j],
    }


BODIES = ("star", "planet", "relative")


def configs(tier_thorough, extra=None, keep=lambda c: True, strength=2, n=(2, None, 1)):
    dom = {
        "mass": ["P+ms+rs", "a+P", "P+rho", "a", "a+P+rs", "P+rho+rs", "a+rho+ms"],
        "mp": [True, False],
        "ecc": [None, "omega", "sincos"],
        "incl": [None, "incl", "b"],
        "Omega": [None, True],
        "ref": [None, "t0", "t_periastron"],
        "n": list(n),
    }
    if extra:
        dom.update(extra)
    return pairwise(dom, strength=3 if tier_thorough else strength, keep=keep)
