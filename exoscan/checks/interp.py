"""Interpolation: C27 (interpolated light curve) and C28 (regular grids)."""

import itertools
from contextlib import nullcontext as nothing
from fractions import Fraction as F

import numpy as np

from .. import algebra as A
from .. import rint
from .. import tensor as tn
from ..harness import (
    Fail, arr, check_axes, expect_raise, gen, gen_nd, pairwise, same, same_t,
    sc, show,
)
from ..interp import Model
from ..tensor import T, Unsupported
from . import check
from .common import *  # noqa: F401,F403
from .lightcurves import Stub

IL = "light_curves.interpolated:"
RG = "interp:regular_grid_interp"


# ---- C28 -------------------------------------------------------------------
def grid_of(dim, m):
    """Uneven symbolic grid: first point, then positive steps."""
    g = [A.sym("g%d" % dim)]
    steps = [A.pos("step%d_%d" % (dim, i)) for i in range(m - 1)]
    for s in steps:
        g.append(g[-1] + s)
    return g, steps


def coordinate(dim, g, steps, place):
    """(x, cell, fraction, outside) for a placement of the coordinate."""
    kind, c = place
    if kind == "cell":
        u = A.sym("u%d" % dim, lo=0, hi=1)
        return g[c] + u * steps[c], c, u, False
    if kind == "node":
        return g[c], min(c, len(steps) - 1), A.ONE if c == len(steps) else A.ZERO, False
    d = A.pos("out%d" % dim)
    if kind == "below":
        return g[0] - d, 0, -d / steps[0], True
    return g[-1] + d, len(steps) - 1, 1 + d / steps[-1], True


def multilinear(V, cells, fr):
    out = None
    for corner in itertools.product((0, 1), repeat=len(cells)):
        w = A.ONE
        for q, u in zip(corner, fr):
            w = w * (u if q else 1 - u)
        v = V[tuple(c + q for c, q in zip(cells, corner))]
        term = [w * x for x in np.atleast_1d(v).flat]
        out = term if out is None else [a + b for a, b in zip(out, term)]
    return out


def places(m):
    return ([("cell", c) for c in range(m - 1)] + [("node", c) for c in range(m)]
            + [("below", 0), ("above", 0)])


def values_of(shape, trail, kind):
    full = tuple(shape) + tuple(trail)
    d = np.empty(full, dtype=object)
    for k in np.ndindex(*full):
        d[k] = A.sym("v" + "_".join(map(str, k)))
    return T(d, tuple(tn.literal_axis(s) for s in full), kind, "float64"), d


def coords_of(xs, how, kind):
    """Coordinates array; the last axis runs over the dimensions."""
    nd = len(xs)
    ax = {"vec": (taxis("T"),), "nd": (taxis("T"), taxis("S")), "point": (), "rows": (tn.literal_axis(2),)}[how]
    axes = ax + (tn.literal_axis(nd),)
    d = np.empty(tuple(a.size for a in axes), dtype=object)
    for k in np.ndindex(*d.shape):
        d[k] = A.ex(xs[k[-1]])
    return T(d, axes, kind, "float64"), ax


@check("C28")
def c28(ck):
    ip = ck.ip()
    ck.rule(
        "Interpolation is interpreted on symbolic uneven grids of one, two and "
        "three dimensions with symbolic values, cell by cell, grid point by "
        "grid point and on either side of the grid, and compared with the "
        "multilinear interpolant (or the fill value) as an identity."
    )
    mod = ip.import_module("exoplanet.interp")
    f = mod.vars["regular_grid_interp"]
    cls = mod.vars["RegularGridInterpolator"]
    shapes = {1: (4,), 2: (3, 3), 3: (3, 2, 2)}
    trails = ((), (2,), (2, 3))
    fills = {"none": None, "symbol": sc(A.sym("fill")), "zero": sc(A.ZERO, "py"), "number": sc(A.ex(F(-7, 2)), "py")}

    def verify(shape, where, trail, fill, how, pk, via):
        gs = [grid_of(i, m) for i, m in enumerate(shape)]
        V, d = values_of(shape, trail, "pt" if pk != "np" else "np")
        loc = [coordinate(i, g, s, w) for i, ((g, s), w) in enumerate(zip(gs, where))]
        C, ax = coords_of([x[0] for x in loc], how, "np" if pk == "list" else pk)
        if pk == "list":
            P = [[sc(x, "py") for x in g] for g, _ in gs]
        else:
            P = [arr(g, pk) for g, _ in gs]
            if pk == "np":
                P = tuple(P)
        fv = fills[fill]
        if via == "class":
            o = ip.call(cls, [P, V], {} if fill == "none" else {"fill_value": fv})
            r = call(ip, o, "evaluate", C)
        else:
            r = ip.call(f, [P, V, C], {} if fill == "none" else {"fill_value": fv})
        r = tn.lift(r)
        check_axes(r, ax + tuple(tn.literal_axis(s) for s in trail), "the interpolated array")
        if any(x[3] for x in loc) and fill != "none":
            want = [fv.data[()]] * max(1, int(np.prod(trail, dtype=int)))
        else:
            want = multilinear(d, [x[1] for x in loc], [x[2] for x in loc])
        k = len(want)
        got = list(r.data.flat)
        for i, g in enumerate(got):
            same(g, want[i % k], "the interpolated value")

    for nd in (1, 2, 3):
        shape = shapes[nd]
        spots = [places(m) for m in shape]
        if nd == 1 or (nd == 2) or ck.thorough:
            wheres = list(itertools.product(*spots))
        else:
            wheres = [tuple(c[str(i)] for i in range(nd)) for c in pairwise({str(i): s for i, s in enumerate(spots)})]
        opts = pairwise({
            "trail": trails, "fill": list(fills), "how": ["vec", "nd", "point", "rows"],
            "pk": ["pt", "np", "list"], "via": ["function", "class"],
        })
        for i, w in enumerate(wheres):
            def go(w=w, i=i, shape=shape):
                every = opts if nd_of(w) == 1 else [opts[(i + k * 5) % len(opts)] for k in range(2)]
                for o in every:
                    verify(shape, w, o["trail"], o["fill"], o["how"], o["pk"], o["via"])
                for fill in fills:
                    verify(shape, w, (), fill, "vec", "pt", "function")
            ck.ob("%dD [%s]" % (nd, " ".join("%s %d" % x for x in w)), go, ip, RG, "%d dimensions" % nd)


def nd_of(w):
    return len(w)


# ---- C27 -------------------------------------------------------------------
class Base:
    """A base light curve: an opaque function of time for every planet."""

    def __init__(self, m):
        self.m = m
        self.calls = []

    def abs_getattr(self, ip, name):
        if name != "get_light_curve":
            tn.araise(AttributeError, "the base light curve has no attribute %r" % name)

        def glc(orbit=None, r=None, t=None, texp=None, oversample=7, order=0, use_in_transit=None, light_delay=False):
            t = tn.lift(t)
            self.calls.append(dict(orbit=orbit, r=r, texp=texp, oversample=oversample, order=order,
                                   use_in_transit=use_in_transit, light_delay=light_delay))
            axes = tuple(t.axes) + (tn.literal_axis(self.m),)
            d = np.empty(tuple(a.size for a in axes), dtype=object)
            for k in np.ndindex(*d.shape):
                d[k] = A.fn_raw("base%d" % k[-1], (t.data[k[:-1]],))
            return T(d, axes, "pt", "float64")

        return Model(glc, name)


class Ephemeris:
    """An orbit of which only the ephemeris can be read."""

    def __init__(self, n):
        self.period = posv(n, "P")
        self.t0 = vec(n, "t0_")

    def abs_getattr(self, ip, name):
        if name in ("period", "t0"):
            return getattr(self, name)
        tn.araise(AttributeError, "the orbit has no attribute %r" % name)


def lagrange(y, u):
    """Cubic through y[0..3] at -1, 0, 1, 2."""
    xs = (-1, 0, 1, 2)
    out = A.ZERO
    for i, a in enumerate(xs):
        w = A.ONE
        for b in xs:
            if b != a:
                w = w * (u - b) / (a - b)
        out = out + w * y[i]
    return out


def same_option(a, b, what):
    if isinstance(a, T) or isinstance(b, T):
        same_t(a, b, what)
    elif a is not b and a != b:
        raise Fail("%s reaches the base light curve as %r, expected %r" % (what, a, b))


@check("C27")
def c27(ck):
    ip = ck.ip()
    ck.rule(
        "The interpolated light curve of an opaque base light curve is "
        "interpreted cell by cell for literal grid sizes, at a time any whole "
        "number of periods away, and compared with the cubic Lagrange "
        "interpolant through the four surrounding grid values; the options "
        "the base receives are compared with the caller's."
    )
    cls = ip.import_module("exoplanet.light_curves.interpolated").vars["InterpolatedLightCurve"]
    sizes = (1, 2, 4) + ((3, 7, 12) if ck.thorough else ())
    for n in (None, 1, 2, 3):
        for N in sizes:
            for tk in ("np", "pt"):
                if tk == "pt" and N != 2:
                    continue
                for cell in range(N + 1):
                    def go(n=n, N=N, tk=tk, cell=cell):
                        m = n or 1
                        for j in range(m):
                            o, base = Ephemeris(n), Base(m)
                            P, t0 = per_planet(o.period, n), per_planet(o.t0, n)
                            lc = ip.call(cls, [base, sc(N, "py", "int64")], {"num_planets": sc(m, "py", "int64")})
                            u, k = A.sym("u", lo=0, hi=1, flags=("open",)), A.sym("turns", flags=("int",))
                            dx = P[j] / (N + 1)
                            for uu in (u, A.ZERO) if m == 1 else (u,):
                                when = t0[j] + k * P[j] + (cell + uu) * dx
                                t = gen(when, taxis("T"), tk)
                                with rint.partition_for([when], "cell%d" % j) if m > 1 else nothing():
                                    v = call(ip, lc, "get_light_curve", orbit=o, r=sc(A.pos("r")), t=t)
                                    v = tn.lift(v)
                                    check_axes(v, (taxis("T"), tn.literal_axis(m)), "the light curve")
                                    y = [A.fn_raw("base%d" % j, (t0[j] + (cell + q) * dx,)) for q in (-1, 0, 1, 2)]
                                    same(list(v.data.flat)[j], lagrange(y, uu), "the light curve of planet %d" % j)
                    ck.ob("cell %d of %d [n=%s,%s]" % (cell, N + 1, n, tk), go, ip, IL + "InterpolatedLightCurve.get_light_curve", "cells")
    for n in (None, 1, 2):
        def go(n=n):
            m = n or 1
            full = {"texp": sc(A.pos("texp")), "oversample": sc(5, "py", "int64"), "order": sc(2, "py", "int64"),
                    "use_in_transit": False, "light_delay": True}
            for kw in [full, {}] + [{k: v} for k, v in full.items()] + [{"use_in_transit": True}]:
                o, base = Ephemeris(n), Base(m)
                lc = ip.call(cls, [base, sc(3, "py", "int64")], {"num_planets": sc(m, "py", "int64")})
                r = posv(n, "r")
                call(ip, lc, "get_light_curve", orbit=o, r=r, t=times()[0], **kw)
                if not base.calls:
                    raise Fail("the base light curve is never evaluated")
                want = dict(texp=None, oversample=7, order=0, use_in_transit=None, light_delay=False)
                want.update(kw)
                for c in base.calls:
                    if c["orbit"] is not o:
                        raise Fail("the base light curve sees another orbit")
                    same_option(c["r"], r, "r")
                    for k, w in want.items():
                        same_option(c[k], w, k)
        ck.ob("options [n=%s]" % n, go, ip, IL + "InterpolatedLightCurve.get_light_curve", "options")
    for n in (None, 2):
        def go(n=n):
            o, base = Ephemeris(n), Base(n or 1)
            lc = ip.call(cls, [base, sc(3, "py", "int64")])
            expect_raise(ip, lambda: call(ip, lc, "get_light_curve", orbit=o, r=sc(A.pos("r")), t=times()[0]), ValueError, "an unknown number of planets")
        ck.ob("unknown number of planets [n=%s]" % n, go, ip, IL + "InterpolatedLightCurve.get_light_curve", "number of planets")
    for n in (None, 1, 2, 3):
        def go(n=n):
            m = n or 1
            o, base = Ephemeris(n), Base(m)
            tv = posv(n, "value")
            ip.setattr(ip.getattr(o.period, "tag"), "test_value", T(tv.data, tv.axes, "np", "float64"))
            a = call(ip, ip.call(cls, [base, sc(2, "py", "int64")]), "get_light_curve", orbit=o, r=sc(A.pos("r")), t=times()[0])
            o2 = Ephemeris(n)
            b = call(ip, ip.call(cls, [base, sc(2, "py", "int64")], {"num_planets": sc(m, "py", "int64")}), "get_light_curve", orbit=o2, r=sc(A.pos("r")), t=times()[0])
            same_t(a, b, "the light curve with the number of planets taken from the orbit")
        ck.ob("number of planets from the orbit [n=%s]" % n, go, ip, IL + "InterpolatedLightCurve.get_light_curve", "number of planets")
