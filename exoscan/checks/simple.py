"""The simple transit orbit: C17."""

from fractions import Fraction as F

from .. import algebra as A
from .. import tensor as tn
from ..harness import Fail, arr, expect_raise, gen, pairwise, same, sc
from ..tensor import T
from . import check
from .common import *  # noqa: F401,F403
from .orbits import same_indicator, selection

SIM = "orbits.simple:SimpleTransitOrbit."


def as_kind(x, kind):
    """A tensor argument as a PyTensor/NumPy/list/float argument."""
    if kind in ("list", "tuple"):
        if x.ndim == 0:
            return T(x.data, x.axes, "py", x.dtype)
        v = [sc(e, "py") for e in x.data.flat]
        return tuple(v) if kind == "tuple" else v
    return T(x.data, x.axes, kind, x.dtype)


class Simple:
    def __init__(self, ip, c):
        n = c["n"]
        self.n = n
        src = {
            "period": posv(n, "P"),
            "duration": posv(n, "tau"),
            "t0": vec(n, "t0_"),
            "b": vec(n, "b"),
            "ror": posv(n, "k"),
            "r_star": sc(A.pos("rs")),
        }
        m = 1 if n is None else n
        kw = {}
        for k in ("period", "duration") + tuple(c.get("given", ())):
            v = src[k]
            if c.get("scalar") == k:
                v = sc(v.data.flat[0])
                src[k] = v
            kw[k] = as_kind(v, c.get("kind", "pt"))
        dflt = {"t0": A.ZERO, "b": A.ZERO, "ror": A.ZERO, "r_star": A.ONE}
        self.v = {}
        for k in src:
            self.v[k] = per_planet(src[k], n) if k in kw else [dflt[k]] * m
        self.kw = kw
        self.orbit = build(ip, kw, "SimpleTransitOrbit")
        self.m = m

    def dt(self, j, t):
        P = self.v["period"][j]
        return A.fn("mod", t - self.v["t0"][j] + P / 2, P) - P / 2

    def speed(self, j):
        v = self.v
        return 2 * v["r_star"][j] * A.power((1 + v["ror"][j]) ** 2 - v["b"][j] ** 2, F(1, 2)) / v["duration"][j]

    def position(self, j, t):
        v = self.v
        d = self.dt(j, t)
        h = v["duration"][j] / 2
        inside = A.gt0(h - A.fn("abs", d))
        return self.speed(j) * d, v["b"][j] * v["r_star"][j], 2 * inside - 1

    def half(self, j, r):
        v = self.v
        if r is None:
            return v["duration"][j] / 2
        R = v["r_star"][j]
        return A.power((R + r) ** 2 - (v["b"][j] * R) ** 2, F(1, 2)) / self.speed(j)


GIVEN = [("t0", "b", "r_star", "ror"), ("t0", "b"), ("t0", "b", "r_star"), ("t0", "b", "ror"), (), ("r_star",), ("b", "r_star")]


def domain(ck):
    return pairwise(
        {
            "n": [2, None, 1, 3],
            "given": GIVEN,
            "kind": ["pt", "np", "list", "tuple"],
        },
        strength=3 if ck.thorough else 2,
    )


@check("C17")
def c17(ck):
    ip = ck.ip()
    ck.rule(
        "Simple transit orbits are constructed abstractly for every argument "
        "form; positions at symbolic times are compared with the documented "
        "straight-line crossing, the in-transit index vector's indicator with "
        "the documented window, and refusals are required for light delay and "
        "velocities."
    )
    for c in domain(ck):
        for kind, tk in (("vec", "np"), ("scalar", "pt"), ("nd", "np")):
            def go(c=c, kind=kind, tk=tk):
                S = Simple(ip, c)
                t, ax = times(kind, tk)
                pos = call(ip, S.orbit, "get_relative_position", t)
                pos = list(ip.iterate(pos))
                if len(pos) != 3:
                    raise Fail("%d coordinates" % len(pos))
                got = [columns(x, ax, S.n, "position") for x in pos]
                pl = [columns(x, ax, S.n, "planet position") for x in ip.iterate(call(ip, S.orbit, "get_planet_position", t))]
                for j in range(S.m):
                    want = S.position(j, A.sym("t"))
                    for q in range(3):
                        w = want[q]
                        if q == 2:
                            for col in (got, pl):
                                same_indicator(col[q][j], w, "coordinate 2 of planet %d" % j, S.v["t0"][j], [s * S.v["duration"][j] / 2 for s in (-1, 1)], S.v["period"][j])
                        else:
                            same(got[q][j], w, "coordinate %d of planet %d" % (q, j))
                            same(pl[q][j], w, "planet coordinate %d of planet %d" % (q, j))
                for x in ip.iterate(call(ip, S.orbit, "get_star_position", t)):
                    for e in tn.lift(x).data.flat:
                        same(e, A.ZERO, "the star's position")
            ck.ob("position [%s,times=%s]" % (label(c), kind), go, ip, SIM + "get_relative_position", "position")
    for c in domain(ck):
        for texp in (None, "scalar", "vector", "float", "tensor"):
            for r in (None, "vector", "scalar"):
                if (texp, r) not in ((None, None), (None, "vector"), ("scalar", "scalar"), ("vector", "vector"), ("float", None), ("tensor", "vector")) and not ck.thorough:
                    continue
                def go(c=c, texp=texp, r=r):
                    S = Simple(ip, c)
                    t, ax = times("vec", "np" if texp != "tensor" else "pt")
                    te = A.pos("texp")
                    kw = {}
                    if texp == "scalar":
                        kw["texp"] = sc(te)
                    elif texp == "float":
                        kw["texp"] = sc(te, "py")
                    elif texp == "vector":
                        kw["texp"] = gen(te, ax[0], "np")
                    elif texp == "tensor":
                        kw["texp"] = gen(te, ax[0], "pt")
                    R = [None] * S.m
                    if r == "vector":
                        kw["r"] = posv(S.n, "r")
                        R = per_planet(kw["r"], S.n)
                    elif r:
                        kw["r"] = sc(A.pos("r"))
                        R = [A.pos("r")] * S.m
                    got = selection(call(ip, S.orbit, "in_transit", t, **kw), ax[0])
                    miss = A.ONE
                    w = te / 2 if texp else A.ZERO
                    for j in range(S.m):
                        miss = miss * (1 - A.gt0(S.half(j, R[j]) + w - A.fn("abs", S.dt(j, A.sym("t")))))
                    for j in range(S.m):
                        same_indicator(got, 1 - miss, "the selection of times", S.v["t0"][j], [s * (S.half(j, R[j]) + w) for s in (-1, 1)], S.v["period"][j])
                ck.ob("in transit [%s,texp=%s,r=%s]" % (label(c), texp, r), go, ip, SIM + "in_transit", "in transit")
    for n in (None, 2):
        def go(n=n):
            S = Simple(ip, dict(n=n, given=GIVEN[0]))
            t, ax = times()
            o = S.orbit
            for nm in ("get_planet_velocity", "get_star_velocity", "get_radial_velocity"):
                expect_raise(ip, lambda: call(ip, o, nm, t), NotImplementedError, nm)
            for nm in ("get_planet_position", "get_relative_position", "in_transit"):
                expect_raise(ip, lambda: call(ip, o, nm, t, light_delay=True), NotImplementedError, nm + " with light delay")
        ck.ob("refusals [n=%s]" % n, go, ip, SIM + "get_planet_velocity", "refusals")
