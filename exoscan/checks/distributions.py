"""Priors: C29-C34, and C41 (both probabilistic back ends)."""

import ast
import itertools
from fractions import Fraction as F

import numpy as np

from .. import algebra as A
from .. import tensor as tn
from ..harness import Fail, arr, eq, expect_raise, same, sc, show
from ..tensor import T, Unsupported
from . import check
from .common import call

D = "distributions.distributions:"
EC = "distributions.eccentricity:"
PM3 = dict(backend="pymc3", env={"EXOPLANET_FORCE_PYMC3": "1"})


# ---- the model a prior builds ------------------------------------------------
class Built:
    """Everything one call added to a model."""

    def __init__(self, ip, f, args, kw, inside=True, pass_model=False, elsewhere=False):
        self.ip = ip
        pm = ip.import_module("exoplanet.compat").vars["pm"]
        self.model = ip.call(ip.getattr(pm, "Model"), [], {})
        depth = len(ip.model_stack)
        n0 = len(ip.events)
        if pass_model:
            kw = dict(kw, model=self.model)
        if inside:
            ip.model_stack.append(self.model)
        try:
            self.out = ip.call(f, list(args), dict(kw))
        finally:
            del ip.model_stack[depth:]
        ev = ip.events[n0:]
        self.events = ev
        self.rvs = [e for e in ev if e.kind == "rv"]
        self.pots = [e for e in ev if e.kind == "potential"]
        self.dets = [e for e in ev if e.kind == "deterministic"]
        self.by = {}
        for e in self.rvs:
            for i, x in np.ndenumerate(e.value.data):
                self.by[name_of_sym(x)] = (e, i)
            if e.model is not self.model and not elsewhere:
                raise Fail("the variable %s is added to another model" % e.name)
        for e in self.pots + self.dets:
            if e.model is not self.model and not elsewhere:
                raise Fail("%s is added to another model" % e.name)

    def logp(self):
        """Sum of all potential terms."""
        out = A.ZERO
        for e in self.pots:
            n = e.value
            for ax in n.axes:
                if ax.n is None:
                    raise Unsupported("potential along a symbolic axis")
            for x in n.data.flat:
                out = out + x
        return out

    def start(self, x):
        """Value of an expression at the initial values."""
        m = {}
        for n in A.symbols_of(x):
            if n in self.by:
                e, i = self.by[n]
                if e.initval is None or isinstance(e.initval, str):
                    raise Fail("no initial value is given to %s" % e.name)
                v = tn.lift(e.initval)
                v = np.broadcast_to(tn.expand_to(v, e.value.axes), e.value.data.shape)
                m[n] = v[i] if v.ndim else v.flat[0]
        return A.subs(x, m)

    def hidden(self, x):
        return sorted(n for n in A.symbols_of(x) if n in self.by)

    def rest(self, *allowed):
        for e in self.rvs:
            bad = [k for k, v in e.rest.items() if v is not None and k not in allowed and k not in ("initval", "testval", "shape", "dims")]
            if bad:
                raise Fail("%s is created with %s" % (e.name, ", ".join(bad)))


def name_of_sym(x):
    (n,) = A.symbols_of(x)
    return n


def const_param(e, k, default):
    v = e.params.get(k)
    return A.ex(default) if v is None else tn.lift(v).data.item() if tn.lift(v).ndim == 0 else None


def expect_dist(e, name, **params):
    """The element of a prior is an independent standard distribution."""
    if e.dist != name:
        raise Fail("%s is %s, expected %s" % (e.name, e.dist, name))
    for k, v in e.params.items():
        if v is not None and k not in params:
            raise Fail("%s has an unexpected parameter %s" % (e.name, k))
    for k, (v, dflt) in params.items():
        got = e.params.get(k)
        got = tn.lift(dflt if got is None else got)
        for x in got.data.flat:
            same(x, v, "%s of %s" % (k, e.name))


def expect_uniform(e, lo, hi):
    expect_dist(e, "Uniform", lower=(lo, 0), upper=(hi, 1))


def shape_tuple(s):
    return () if s is None else (s,) if isinstance(s, int) else tuple(s)


def expect_shape(t, shape, what):
    t = tn.lift(t)
    got = tuple(a.n if a.n is not None else repr(a) for a in t.axes)
    if got != tuple(shape):
        raise Fail("%s has shape %s, expected %s" % (what, got, tuple(shape)))
    return t


def init_of(base, shape, how, lo=None, hi=None, flags=()):
    """An initial value of the given shape: symbols, as an array or a list."""
    d = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        d[i] = A.sym(base + "_".join(map(str, i)), lo=lo, hi=hi, flags=flags)
    return give(d, how), d


def give(d, how):
    if how == "list":
        def nest(x):
            return [nest(y) for y in x] if isinstance(x, np.ndarray) else sc(x, "py")
        return nest(d) if d.ndim else sc(d.item(), "py")
    return T(d, tuple(tn.literal_axis(s) for s in d.shape), how, "float64")


def only(b, name, result):
    """The named result is registered once, as a deterministic or a variable."""
    reg = [e for e in b.dets + b.rvs if e.name == name]
    if len(reg) != 1:
        raise Fail("%s is registered %d times" % (name, len(reg)))
    got, want = tn.lift(reg[0].value), tn.lift(result)
    if got.data.shape != want.data.shape or not all(eq(x, y) for x, y in zip(got.data.flat, want.data.flat)):
        raise Fail("the value registered as %s is not the value returned" % name)


def disjoint(b, groups):
    seen = set()
    for g in groups:
        if seen & set(g):
            raise Fail("two elements share the variable %s" % sorted(seen & set(g))[0])
        seen |= set(g)
    extra = set(b.by) - seen
    if extra:
        raise Fail("the variable %s is not used by the result" % sorted(extra)[0])


SHAPES = (None, 3, (3,), (2, 3), ())
HOWS = ("np", "list", "pt")


def together(ck, back, ip, name, f, args=(), kws=({},), anchor=None, names=(("first",), ("second",))):
    """Two priors of different names live in one model."""
    def go(kw):
        pm = ip.import_module("exoplanet.compat").vars["pm"]
        model = ip.call(ip.getattr(pm, "Model"), [], {})
        depth, groups = len(ip.model_stack), []
        ip.model_stack.append(model)
        try:
            for n in names:
                n0 = len(ip.events)
                ip.call(f(ip), list(n) + [a() for a in args], dict(kw))
                groups.append({e.name for e in ip.events[n0:] if e.kind in ("rv", "potential", "deterministic")})
        finally:
            del ip.model_stack[depth:]
        if groups[0] & groups[1]:
            raise Fail("two priors share the variable %s" % sorted(groups[0] & groups[1])[0])

    for kw in kws:
        ck.ob("two of %s in one model [%s %s]" % (name, back, " ".join("%s=%s" % k for k in sorted(kw.items())) or "defaults"),
              lambda kw=kw: go(kw), ip, anchor, "two in one model")


def public(ip, name):
    return ip.getattr(ip.import_module("exoplanet"), name)


def shaped(kw, shape):
    return kw if shape is None else dict(kw, shape=shape)


# ---- C29 ---------------------------------------------------------------------
@check("C29")
def c29(ck):
    ck.rule(
        "The prior is interpreted in a symbolic model; the variables, "
        "potentials and result it adds are compared, element by element, with "
        "atan2 of two standard normals, regularised by a multiple of the log "
        "of their squared norm, and the initial values substituted in it."
    )

    def verify(ip, shape, reg, init, how):
        kw = shaped({}, shape)
        st = shape_tuple(shape)
        r = A.ex(10)
        if reg == "none":
            kw["regularization"] = None
        elif reg != "default":
            r = A.pos("reg") if reg == "symbol" else A.ex(F(5, 2)) if reg == "number" else A.ZERO
            kw["regularization"] = sc(r, "py")
        th = None
        if init is not None:
            kw[init], th = init_of("th", st, how, flags=("angle",))
        b = Built(ip, public(ip, "angle"), ["phi"], kw)
        t = expect_shape(b.out, st, "the angle")
        only(b, "phi", t)
        b.rest()
        for e in b.rvs:
            expect_dist(e, "Normal", mu=(0, 0), sigma=(1, 1), tau=(1, 1))
        want = A.ZERO
        groups = []
        for i, x in np.ndenumerate(t.data):
            h = b.hidden(x)
            groups.append(h)
            if len(h) != 2:
                raise Fail("the angle depends on %d variables, expected 2" % len(h))
            p, q = (A.sym(n) for n in h)
            for s, c in ((p, q), (q, p)):
                if A.equal(x, A.fn("arctan2", s, c)):
                    break
            else:
                raise Fail("the angle is %s, expected atan2 of two variables" % show(x))
            if th is not None:
                S, C = A.sincos(th[i])
                same(b.start(s), S, "the initial sine")
                same(b.start(c), C, "the initial cosine")
            want = want + r * A.fn("log", p * p + q * q)
        disjoint(b, groups)
        if reg == "none":
            if b.pots:
                raise Fail("a potential is added although regularization is None")
        else:
            same(b.logp(), want, "the regularisation")

    for back, o in (("pymc", {}), ("pymc3", PM3)):
        ip = ck.ip(**o)
        kwn = "initval" if back == "pymc" else "testval"
        for shape in SHAPES:
            for reg in ("default", "symbol", "none", "number", "zero"):
                for init, how in [(None, "np"), ("initval", "np"), ("testval", "np"), ("initval", "list")]:
                    if reg not in ("default", "none") and init and not ck.thorough:
                        continue
                    ck.ob("angle [%s shape=%s regularization=%s %s %s]" % (back, shape, reg, init, how),
                          lambda ip=ip, a=(shape, reg, init, how): verify(ip, *a), ip, D + "angle", "angle")
        together(ck, back, ip, "angle", lambda ip: public(ip, "angle"), anchor=D + "angle", kws=({}, {"regularization": None}))


# ---- C30 ---------------------------------------------------------------------
@check("C30")
def c30(ck):
    ck.rule(
        "The pair is interpreted in a symbolic model and compared with "
        "(x, u sqrt(1 - x^2)) with x, u uniform on (-1, 1) and the log of the "
        "Jacobian as the only potential; the initial values substituted in the "
        "pair must give the point asked for."
    )

    def verify(ip, shape, init, how):
        st = shape_tuple(shape)
        kw = shaped({}, shape)
        xy = None
        if init is not None:
            # (cos a sin b, sin a) style coordinates would hide the disk:
            # x0 in (-1, 1) and y0 = f sqrt(1 - x0^2), |f| < 1
            d = np.empty((2,) + st, dtype=object)
            for i in np.ndindex(*st):
                x0 = A.sym("x0" + "_".join(map(str, i)), lo=-1, hi=1, flags=("open",))
                d[(0,) + i] = x0
                d[(1,) + i] = A.sym("y0" + "_".join(map(str, i)), lo=-1, hi=1, flags=("open",))
            xy = d
            if how == "pair":
                kw[init] = [T(d[j], tuple(tn.literal_axis(s) for s in st), "np", "float64") if st else sc(d[j], "py") for j in (0, 1)]
            else:
                kw[init] = give(d, how)
        b = Built(ip, public(ip, "unit_disk"), ["secw", "cosw"], kw)
        out = ip.iterate(b.out)
        if len(out) != 2:
            raise Fail("%d values are returned, expected 2" % len(out))
        X = expect_shape(out[0], st, "the first component")
        Y = expect_shape(out[1], st, "the second component")
        only(b, "secw", X)
        only(b, "cosw", Y)
        b.rest()
        for e in b.rvs:
            expect_uniform(e, -1, 1)
        groups, want = [], A.ZERO
        for (i, x), y in zip(np.ndenumerate(X.data), Y.data.flat):
            h = b.hidden(x)
            if len(h) != 1 or not A.equal(x, hsym(b, h[0])):
                raise Fail("the first component is %s, expected a variable" % show(x))
            g = sorted(set(b.hidden(y)) - set(h))
            if len(g) != 1:
                raise Fail("the second component depends on %d further variables, expected 1" % len(g))
            u = hsym(b, g[0])
            same(y, u * A.power(1 - x * x, F(1, 2)), "the second component")
            groups.append(h + g)
            want = want + A.fn("log", A.power(1 - x * x, F(1, 2)))
            if xy is not None:
                same(b.start(x), xy[(0,) + i], "the initial first component")
                same(b.start(y), xy[(1,) + i], "the initial second component")
        disjoint(b, groups)
        same(b.logp(), want, "the log-density correction")

    for back, o in (("pymc", {}), ("pymc3", PM3)):
        ip = ck.ip(**o)
        for shape in SHAPES:
            for init, how in [(None, "np"), ("initval", "np"), ("testval", "np"), ("initval", "pair"), ("testval", "pair")]:
                ck.ob("unit_disk [%s shape=%s %s %s]" % (back, shape, init, how),
                      lambda ip=ip, a=(shape, init, how): verify(ip, *a), ip, D + "unit_disk", "unit_disk")
        together(ck, back, ip, "unit_disk", lambda ip: public(ip, "unit_disk"), anchor=D + "unit_disk", names=(("x", "y"), ("p", "q")))


def hsym(b, n):
    e, i = b.by[n]
    return e.value.data[i]


# ---- C31 ---------------------------------------------------------------------
def cited(ip, b, keys):
    c = b.model.attrs.get("__citations__")
    if c is None:
        raise Fail("no citation is recorded")
    got = set(ip.iterate(c))
    miss = set(keys) - got
    if miss:
        raise Fail("the citation %s is not recorded" % ", ".join(sorted(miss)))


@check("C31")
def c31(ck):
    ck.rule(
        "The prior is interpreted in a symbolic model; its coefficients are "
        "compared with 2 sqrt(q1) q2 and sqrt(q1) (1 - 2 q2) for q1, q2 "
        "uniform on (0, 1), and the initial values substituted in them."
    )

    def verify(ip, shape, init, how, model=False):
        st = shape_tuple(shape)
        kw = shaped({}, shape)
        u0 = None
        if init is not None:
            d = np.empty((2,) + st, dtype=object)
            for i in np.ndindex(*st):
                q1 = A.sym("i1" + "_".join(map(str, i)), lo=0, hi=1, flags=("open", "pos"))
                q2 = A.sym("i2" + "_".join(map(str, i)), lo=0, hi=1, flags=("open", "pos"))
                s = q1
                d[(0,) + i] = 2 * s * q2
                d[(1,) + i] = s * (1 - 2 * q2)
            u0 = d
            if how == "pair":
                kw[init] = [T(d[j], tuple(tn.literal_axis(s) for s in st), "np", "float64") if st else sc(d[j], "py") for j in (0, 1)]
            else:
                kw[init] = give(d, how)
        b = Built(ip, public(ip, "quad_limb_dark"), ["u_star"], kw)
        U = expect_shape(b.out, (2,) + st, "the coefficients")
        only(b, "u_star", U)
        b.rest()
        if b.pots:
            raise Fail("a potential changes the density")
        for e in b.rvs:
            expect_uniform(e, 0, 1)
        groups = []
        for i in np.ndindex(*st):
            x, y = U.data[(0,) + i], U.data[(1,) + i]
            h = sorted(set(b.hidden(x)) | set(b.hidden(y)))
            groups.append(h)
            if len(h) != 2:
                raise Fail("the coefficients depend on %d variables, expected 2" % len(h))
            why = None
            for p, q in (h, h[::-1]):
                q1, q2 = hsym(b, p), hsym(b, q)
                s = A.power(q1, F(1, 2))
                if A.equal(x, 2 * s * q2) and A.equal(y, s * (1 - 2 * q2)):
                    break
            else:
                raise Fail("the coefficients are (%s, %s)" % (show(x), show(y)))
            if u0 is not None:
                same(b.start(x), u0[(0,) + i], "the initial first coefficient")
                same(b.start(y), u0[(1,) + i], "the initial second coefficient")
        disjoint(b, groups)
        if u0 is None:
            for x in U.data.flat:
                b.start(x)
        cited(ip, b, ["kipping13"])

    for back, o in (("pymc", {}), ("pymc3", PM3)):
        ip = ck.ip(**o)
        for shape in SHAPES:
            for init, how in [(None, "np"), ("initval", "np"), ("testval", "np"), ("initval", "pair"), ("testval", "list")]:
                if how == "list" and shape not in (None, ()):
                    continue
                ck.ob("quad_limb_dark [%s shape=%s %s %s]" % (back, shape, init, how),
                      lambda ip=ip, a=(shape, init, how): verify(ip, *a), ip, D + "quad_limb_dark", "quad_limb_dark")
        together(ck, back, ip, "quad_limb_dark", lambda ip: public(ip, "quad_limb_dark"), anchor=D + "quad_limb_dark")

        def alias(ip=ip):
            n0 = len(ip.events)
            b = Built(ip, ip.getattr(ip.import_module("exoplanet.distributions"), "QuadLimbDark"), ["u"], {})
            c = Built(ip, public(ip, "quad_limb_dark"), ["u"], {})
            if [e.kind for e in b.events if e.kind != "warning"] != [e.kind for e in c.events]:
                raise Fail("the deprecated name builds another model")
        ck.ob("QuadLimbDark [%s]" % back, alias, ip, D + "quad_limb_dark", "alias")


# ---- C32 ---------------------------------------------------------------------
@check("C32")
def c32(ck):
    ck.rule(
        "The prior is interpreted for scalar, vector, matrix, random and "
        "symbolic radius ratios and compared with (1 + k) times a variable "
        "uniform on (0, 1) per element; the initial values substituted in it "
        "must give the impact parameter asked for (one half by default)."
    )

    def verify(ip, back, ror, shape, init, how):
        pm = ip.import_module("exoplanet.compat").vars["pm"]
        kshape = {"scalar": (), "vector": (3,), "matrix": (2, 3), "rv": (), "rvs": (3,), "list": (3,), "number": ()}[ror]
        kw = shaped({}, shape)
        st = shape_tuple(shape) if shape is not None else kshape
        if back == "pymc3" and shape is None and kshape:
            kw["shape"] = kshape
        n_rv = []
        f = public(ip, "impact_parameter")
        b0 = None
        if init is not None:
            if how == "scalar":
                v = A.sym("b0", lo=0, hi=1)
                kw[init] = sc(v, "py")
                b0 = np.full(st, v, dtype=object)
            else:
                kw[init], b0 = init_of("b0", st, how, lo=0, hi=1)
        else:
            b0 = np.full(st, A.ex(F(1, 2)), dtype=object)
        if ror.startswith("rv"):
            class Wrap:
                pass

            depth = len(ip.model_stack)
            m = ip.call(ip.getattr(pm, "Model"), [], {})
            ip.model_stack.append(m)
            try:
                k = ip.call(ip.getattr(pm, "LogNormal" if back == "pymc" else "Lognormal"), ["r"], dict(mu=0, sigma=1, **({"shape": kshape} if kshape else {})))
            finally:
                del ip.model_stack[depth:]
        elif ror == "list":
            k = [sc(A.pos("k%d" % i), "py") for i in range(3)]
        elif ror == "number":
            k = sc(A.ex(F(1, 8)), "py")
        else:
            k, _ = init_of("k", kshape, "pt", lo=0, flags=("pos",))
        b = Built(ip, f, ["b", k], kw)
        t = expect_shape(b.out, st, "the impact parameter")
        only(b, "b", t)
        b.rest()
        if b.pots:
            raise Fail("a potential changes the density")
        for e in b.rvs:
            expect_uniform(e, 0, 1)
        K = tn.lift(ip.as_tensor(k))
        K = np.broadcast_to(K.data, st)
        groups = []
        for i, x in np.ndenumerate(t.data):
            h = b.hidden(x)
            groups.append(h)
            if len(h) != 1:
                raise Fail("the impact parameter depends on %d variables, expected 1" % len(h))
            same(x, (1 + K[i]) * hsym(b, h[0]), "the impact parameter")
            same(b.start(x), b0[i], "the initial impact parameter")
        disjoint(b, groups)

    for back, o in (("pymc", {}), ("pymc3", PM3)):
        ip = ck.ip(**o)
        for ror in ("scalar", "vector", "matrix", "rv", "rvs", "list", "number"):
            ks = {"vector": [None, 3, (3,), (2, 3)], "rvs": [None, 3, (3,)], "list": [None, 3, (3,)], "matrix": [None, (2, 3)],
                  "scalar": [None, 3, (3,), ()], "rv": [None, 3], "number": [None, 3, (3,), ()]}[ror]
            for shape in ks:
                for init, how in [(None, "np"), ("initval", "np"), ("testval", "np"), ("initval", "scalar"), ("initval", "pt")]:
                    ck.ob("impact_parameter [%s ror=%s shape=%s %s %s]" % (back, ror, shape, init, how),
                          lambda ip=ip, a=(back, ror, shape, init, how): verify(ip, *a), ip, D + "impact_parameter", "impact_parameter")
        together(ck, back, ip, "impact_parameter", lambda ip: public(ip, "impact_parameter"), [lambda: sc(F(1, 10), "py")], anchor=D + "impact_parameter")


# ---- C33, C34 ------------------------------------------------------------------
INF = object()


def bound_of(v, side):
    if v is None:
        return A.INF * side
    v = tn.lift(v)
    return v.data.item()


def canonical(ip, e):
    """(base distribution, parameters, lower, upper) of a variable."""
    if e.dist == "Truncated":
        inner = e.inner
        base, p = inner.name, dict(inner.params)
        lo, hi = e.params.get("lower"), e.params.get("upper")
        if base == "TruncatedNormal" or base == "Truncated":
            raise Unsupported("nested truncation")
    elif e.dist == "TruncatedNormal":
        base, p = "Normal", dict(e.params)
        lo, hi = p.pop("lower", None), p.pop("upper", None)
    else:
        base, p, lo, hi = e.dist, dict(e.params), None, None
    p = {k: v for k, v in p.items() if v is not None}
    if base == "Normal" and "tau" in p:
        tau = p.pop("tau")
        p["sigma"] = tn.mapped(lambda x: A.power(x, F(-1, 2)), [tn.lift(tau)])
    if base == "HalfNormal":
        base, lo = "Normal", 0 if lo is None else lo
        p.setdefault("mu", 0)
    if base == "Normal":
        p.setdefault("mu", 0)
        p.setdefault("sigma", 1)
    if base == "Uniform":
        p.setdefault("lower", 0)
        p.setdefault("upper", 1)
    return base, p, lo, hi


def expect_rv(ip, e, base, params, lo=None, hi=None, init=None, support=(None, None)):
    """The variable has this distribution, truncated to [lo, hi]."""
    b, p, glo, ghi = canonical(ip, e)
    if b != base or set(p) != set(params):
        raise Fail("%s is %s(%s), expected %s(%s)" % (e.name, b, ", ".join(sorted(p)), base, ", ".join(sorted(params))))
    for k, v in params.items():
        for x in tn.lift(p[k]).data.flat:
            same(x, v, "%s of %s" % (k, e.name))
    for side, got, want, sup, s in (("lower", glo, lo, support[0], -1), ("upper", ghi, hi, support[1], 1)):
        g = None if got is None else tn.lift(got).data.item()
        if g is not None and A.equal(g, A.INF * s):
            g = None
        if g is not None and sup is not None and A.equal(g, A.ex(sup)):
            g = None
        w = want
        if w is not None and sup is not None and A.equal(A.ex(w), A.ex(sup)):
            w = None
        if (g is None) != (w is None):
            raise Fail("the %s bound of %s is %s, expected %s" % (side, e.name, "missing" if g is None else show(g), "none" if w is None else show(w)))
        if g is not None:
            same(g, w, "the %s bound of %s" % (side, e.name))
    if init is not None:
        if e.initval is None:
            raise Fail("no initial value is given to %s" % e.name)
        for x in tn.lift(e.initval).data.flat:
            same(x, init, "the initial value of %s" % e.name)


KIPPING = {None: ("1.12", "0.1", "3.09", "0.3"), True: ("1.12", "0.1", "3.09", "0.3"), False: ("0.697", "0.4", "3.27", "0.3")}


def hyper(ip, b, name, mu, sd, lo, hi, used):
    """The variable of a hyperparameter: truncated normal about its mean."""
    cand = []
    for e in b.rvs:
        if e in used:
            continue
        base, p, _, _ = canonical(ip, e)
        if base == "Normal" and e.value.data.size == 1 and A.equal(tn.lift(p["mu"]).data.item(), mu) and A.equal(tn.lift(p["sigma"]).data.item(), sd):
            cand.append(e)
    if not cand:
        raise Fail("no variable for the hyperparameter %s with the expected mean and width" % name)
    e = next((c for c in cand if name in c.name), cand[0])
    used.append(e)
    expect_rv(ip, e, "Normal", {"mu": mu, "sigma": sd}, lo, hi, init=mu)
    return e.value.data.item()


def bounds_cfg(kind):
    return {
        "none": (None, None),
        "lower": (F(1, 10), None),
        "upper": (None, F(4, 5)),
        "both": (F(1, 10), F(4, 5)),
        "zero": (F(0), None),
        "one": (F(0), F(1)),
        "symbol": (A.sym("elo", lo=0, hi=F(1, 2)), A.sym("ehi", lo=F(1, 2), hi=1)),
    }[kind]


def ecc_common(ip, bnd, init, shape, observed, kw):
    lo, hi = bounds_cfg(bnd)
    kw = dict(kw)
    if lo is not None:
        kw["lower"] = sc(A.ex(lo), "py" if bnd != "symbol" else "pt")
    if hi is not None:
        kw["upper"] = sc(A.ex(hi), "py" if bnd != "symbol" else "pt")
    st = shape_tuple(shape)
    kw = shaped(kw, shape)
    iv = None
    if init:
        iv = A.sym("ei", lo=0, hi=1, flags=("open",))
        kw[init] = sc(iv, "py")
    obs = None
    if observed:
        obs = A.sym("eobs", lo=0, hi=1, flags=("open",))
        kw["observed"] = sc(obs)
    return kw, lo, hi, st, iv, obs


def logp_beta(ip, v, al, be, lo, hi):
    """Reference log density, through the modelled library functions."""
    pm = ip.import_module("exoplanet.compat").vars["pm"]
    d = ip.call(ip.getattr(ip.getattr(pm, "Beta"), "dist"), [], dict(alpha=sc(al), beta=sc(be)))
    if lo is not None or hi is not None:
        d = ip.call(ip.getattr(ip.getattr(pm, "Truncated"), "dist"), [d], dict(lower=sc(A.ex(0 if lo is None else lo)), upper=sc(A.ex(1 if hi is None else hi))))
    if ip.backend == "pymc":
        return ip.call(ip.getattr(pm, "logp"), [d, sc(v)], {})
    return ip.call(ip.getattr(d, "logp"), [sc(v)], {})


def one_name(b, name, kind):
    r = [e for e in (b.rvs if kind == "rv" else b.pots) if e.name == name]
    if len(r) != 1:
        raise Fail("%s is registered %d times as a %s" % (name, len(r), kind))
    return r[0]


@check("C33")
def c33(ck):
    ck.rule(
        "The prior is interpreted for every combination of its options; the "
        "variables and potentials it adds are compared with the published "
        "Beta distribution, its truncation and its hyperparameters."
    )

    def f_of(ip):
        return ip.getattr(ip.import_module("exoplanet.distributions.eccentricity"), "kipping13")

    def verify(ip, fixed, long, bnd, shape, init, observed, model):
        kw, lo, hi, st, iv, obs = ecc_common(ip, bnd, init, shape, observed, {})
        if fixed is not None:
            kw["fixed"] = fixed
        if long != "default":
            kw["long"] = long
        am, asd, bm, bsd = (A.ex(F(x)) for x in KIPPING[None if long == "default" else long])
        b = Built(ip, f_of(ip), ["ecc"], kw, inside=model != "given", pass_model=model != "context")
        b.rest()
        used = []
        if fixed is False:
            al = hyper(ip, b, "alpha", am, asd, 0, None, used)
            be = hyper(ip, b, "beta", bm, bsd, 0, None, used)
        else:
            al, be = am, bm
        left = [e for e in b.rvs if e not in used]
        bounded = lo is not None or hi is not None
        if observed:
            if left:
                raise Fail("the variable %s is created although the eccentricity is observed" % left[0].name)
            want = tn.lift(logp_beta(ip, obs, al, be, lo, hi))
            same(b.logp(), want.data.item(), "the log density of the observed eccentricity")
        else:
            if len(left) != 1:
                raise Fail("%d variables are created for the eccentricity, expected 1" % len(left))
            e = one_name(b, "ecc", "rv")
            if tn.lift(b.out).data.size != e.value.data.size or not all(A.equal(x, y) for x, y in zip(tn.lift(b.out).data.flat, e.value.data.flat)):
                raise Fail("the value returned is not the eccentricity")
            expect_shape(e.value, st, "the eccentricity")
            if b.pots:
                raise Fail("a potential changes the density")
            init_w = iv
            if bounded and iv is None:
                if e.initval is not None:
                    for x in tn.lift(e.initval).data.flat:
                        inside = A.nonneg(x - A.ex(0 if lo is None else lo)) and A.nonneg(A.ex(1 if hi is None else hi) - x)
                        if not inside:
                            raise Fail("the eccentricity starts at %s, outside its bounds" % show(x))
            expect_rv(ip, e, "Beta", {"alpha": al, "beta": be}, lo, hi, init=init_w, support=(0, 1))
        cited(ip, b, ["kipping13b"])

    def variants(back):
        out = []
        for fixed in (None, True, False):
            for long in ("default", None, True, False):
                for bnd in ("none", "lower", "upper", "both", "zero", "one", "symbol"):
                    for obs in (False, True):
                        if back == "pymc3" and obs and bnd != "none":
                            continue
                        out.append((fixed, long, bnd, None, None, obs, "context"))
        for fixed, bnd, shape in itertools.product((True, False), ("none", "both"), (3, (2, 3))):
            out.append((fixed, True, bnd, shape, None, False, "context"))
        for bnd in ("none", "lower", "upper", "both"):
            for init in ("initval", "testval"):
                if bnd == "none" and init != ("initval" if back == "pymc" else "testval"):
                    continue
                out.append((True, False, bnd, None, init, False, "context"))
                out.append((False, None, bnd, None, init, False, "context"))
        for model in ("given", "both"):
            for fixed, bnd, obs in itertools.product((True, False), ("none", "both"), (False, True)):
                if back == "pymc3" and obs and bnd != "none":
                    continue
                out.append((fixed, False, bnd, None, None, obs, model))
        return out

    for back, o in (("pymc", {}), ("pymc3", PM3)):
        ip = ck.ip(**o)
        for v in variants(back):
            ck.ob("kipping13 [%s fixed=%s long=%s bounds=%s shape=%s init=%s observed=%s model=%s]" % ((back,) + v),
                  lambda ip=ip, v=v: verify(ip, *v), ip, EC + "kipping13", "kipping13")
        together(ck, back, ip, "kipping13", f_of, anchor=EC + "kipping13", kws=({}, {"fixed": False}, {"long": True}, {"fixed": False, "lower": F(1, 10)}))


VE = dict(sg=("0.049", "0.02"), sr=("0.26", "0.05"), fr={True: ("0.08", "0.08"), False: ("0.76", "0.2")})


@check("C34")
def c34(ck):
    ck.rule(
        "The prior is interpreted for every combination of its options; the "
        "flat eccentricity, the hyperparameters and the potentials it adds "
        "are compared with the published half-normal and Rayleigh mixture."
    )

    def f_of(ip):
        return ip.getattr(ip.import_module("exoplanet.distributions.eccentricity"), "vaneylen19")

    def mixture(e, s1, s2, f):
        half = A.power(A.ex(2) / A.PI, F(1, 2)) / s1 * A.fn("exp", -e * e / (2 * s1 * s1))
        ray = e / (s2 * s2) * A.fn("exp", -e * e / (2 * s2 * s2))
        return (1 - f) * half + f * ray

    def verify(ip, fixed, multi, bnd, shape, init, observed, model):
        kw, lo, hi, st, iv, obs = ecc_common(ip, bnd, init, shape, observed, {})
        if fixed is not None:
            kw["fixed"] = fixed
        if multi is not None:
            kw["multi"] = multi
        fm, fs = VE["fr"][bool(multi)]
        b = Built(ip, f_of(ip), ["ecc"], kw, inside=model != "given", pass_model=model != "context")
        b.rest()
        used = []
        if fixed is False:
            s1 = hyper(ip, b, "sigma_gauss", A.ex(F(VE["sg"][0])), A.ex(F(VE["sg"][1])), 0, None, used)
            s2 = hyper(ip, b, "sigma_rayleigh", A.ex(F(VE["sr"][0])), A.ex(F(VE["sr"][1])), 0, None, used)
            f = hyper(ip, b, "frac", A.ex(F(fm)), A.ex(F(fs)), 0, 1, used)
        else:
            s1, s2, f = A.ex(F(VE["sg"][0])), A.ex(F(VE["sr"][0])), A.ex(F(fm))
        left = [e for e in b.rvs if e not in used]
        L, H = A.ex(0 if lo is None else lo), A.ex(1 if hi is None else hi)
        terms = [x for e in b.pots for x in e.value.data.flat]
        if observed:
            if left:
                raise Fail("the variable %s is created although the eccentricity is observed" % left[0].name)
            values = [obs]
        else:
            if len(left) != 1:
                raise Fail("%d variables are created for the eccentricity, expected 1" % len(left))
            e = one_name(b, "ecc", "rv")
            expect_shape(e.value, st, "the eccentricity")
            if tn.lift(b.out).data.size != e.value.data.size or not all(A.equal(x, y) for x, y in zip(tn.lift(b.out).data.flat, e.value.data.flat)):
                raise Fail("the value returned is not the eccentricity")
            expect_rv(ip, e, "Uniform", {"lower": L, "upper": H}, init=iv)
            values = list(e.value.data.flat)
        # the flat part is added by hand only for an observed value
        pot = b.logp()
        if observed:
            pm = ip.import_module("exoplanet.compat").vars["pm"]
            d = ip.call(ip.getattr(ip.getattr(pm, "Uniform"), "dist"), [], dict(lower=sc(L), upper=sc(H)))
            flat = ip.call(ip.getattr(pm, "logp"), [d, sc(obs)], {})
            pot = pot - tn.lift(flat).data.item()
        want = A.ONE
        for v in values:
            want = want * mixture(v, s1, s2, f)
        same(A.fn("exp", pot), want, "the density of the mixture")
        cited(ip, b, ["vaneylen19"])

    def variants(back):
        out = []
        for fixed in (None, True, False):
            for multi in (None, False, True):
                for bnd in ("none", "lower", "upper", "both", "zero", "one", "symbol"):
                    for obs in (False, True):
                        if back == "pymc3" and obs:
                            continue
                        out.append((fixed, multi, bnd, None, None, obs, "context"))
        for fixed, multi, shape in itertools.product((True, False), (True, False), (2,)):
            out.append((fixed, multi, "none", shape, None, False, "context"))
        for fixed in (True, False):
            out.append((fixed, True, "both", None, "initval" if back == "pymc" else "testval", False, "context"))
        for model in ("given", "both"):
            for fixed, bnd, obs in itertools.product((True, False), ("none", "both"), (False, True)):
                if back == "pymc3" and obs:
                    continue
                out.append((fixed, True, bnd, None, None, obs, model))
        return out

    for back, o in (("pymc", {}), ("pymc3", PM3)):
        ip = ck.ip(**o)
        for v in variants(back):
            ck.ob("vaneylen19 [%s fixed=%s multi=%s bounds=%s shape=%s init=%s observed=%s model=%s]" % ((back,) + v),
                  lambda ip=ip, v=v: verify(ip, *v), ip, EC + "vaneylen19", "vaneylen19")
        together(ck, back, ip, "vaneylen19", f_of, anchor=EC + "vaneylen19", kws=({}, {"fixed": False}, {"multi": True}, {"fixed": False, "lower": F(1, 10)}))


# ---- C41 ---------------------------------------------------------------------
def plain_name(n):
    return n.replace("::", "/")


def summary(ip, b):
    """What was added to the model, in a form both back ends share."""
    ren = {}
    for n in b.by:
        e, i = b.by[n]
        base = e.name.split("::") if ip.backend == "pymc" else [e.name]
        ren[n] = A.sym("z:%s%s" % ("_".join(base), list(i) if i else ""))
    s = lambda x: A.subs(A.ex(x), ren)
    rvs, pots, dets = {}, {}, {}

    def key(e):
        k = e.name.replace("::", "_")
        return k

    for e in b.rvs:
        base, p, lo, hi = canonical(ip, e)
        if base == "Normal" and lo is not None and hi is not None:
            pass
        q = {}
        for k, v in p.items():
            q[k] = [s(x) for x in tn.lift(v).data.flat]
        for k, v, inf in (("lower", lo, -1), ("upper", hi, 1)):
            if v is None or A.equal(tn.lift(v).data.flat[0], A.INF * inf):
                continue
            q["trunc_" + k] = [s(x) for x in tn.lift(v).data.flat]
        iv = None
        if e.initval is not None:
            iv = [s(x) for x in np.broadcast_to(tn.expand_to(tn.lift(e.initval), e.value.axes), e.value.data.shape).flat]
        rvs[key(e)] = (base, q, e.value.data.shape, iv)
    for e in b.pots:
        t = A.ZERO
        for x in e.value.data.flat:
            t = t + x
        pots[key(e)] = s(t)
    for e in b.dets:
        dets[key(e)] = [s(x) for x in e.value.data.flat]
    return rvs, pots, dets, [s(x) for o in outputs(b.out) for x in tn.lift(o).data.flat], set(b.model.attrs.get("__citations__", {}) or {})


def outputs(o):
    return list(o) if isinstance(o, (tuple, list)) else [o]


def same_list(a, b, what):
    if len(a) != len(b):
        raise Fail("%s differ in number: %d and %d" % (what, len(a), len(b)))
    for x, y in zip(a, b):
        if not eq(x, y):
            raise Fail("%s differ: %s and %s" % (what, show(x), show(y)))


def same_models(m, l, init=True):
    """m: modern, l: legacy."""
    (r1, p1, d1, o1, c1), (r2, p2, d2, o2, c2) = m, l
    for what, x, y in (("variables", r1, r2), ("potentials", p1, p2), ("deterministics", d1, d2)):
        only1, only2 = sorted(set(x) - set(y)), sorted(set(y) - set(x))
        if only1 or only2:
            raise Fail("the %s differ: %s with the modern back end, %s with the legacy one" % (what, only1 or "none more", only2 or "none more"))
    for k in r1:
        (b1, q1, s1, i1), (b2, q2, s2, i2) = r1[k], r2[k]
        if b1 != b2 or set(q1) != set(q2) or s1 != s2:
            raise Fail("the variable %s is %s%s %s with the modern back end and %s%s %s with the legacy one" % (k, b1, sorted(q1), s1, b2, sorted(q2), s2))
        for n in q1:
            same_list(q1[n], q2[n], "%s of %s" % (n, k))
        if (i1 is None) != (i2 is None):
            raise Fail("the initial value of %s is given to one back end only" % k)
        if i1 is not None:
            same_list(i1, i2, "the initial values of %s" % k)
    for k in p1:
        same_list([p1[k]], [p2[k]], "the potentials %s" % k)
    for k in d1:
        same_list(d1[k], d2[k], "the deterministics %s" % k)
    if c1 != c2:
        raise Fail("the citations differ")
    return o1, o2


def imports_of(path):
    """(names taken from the compatibility layer, other top-level imports)."""
    tree = ast.parse(path.read_text())
    used, ext = [], []
    compat_as = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.ImportFrom):
            mod = n.module or ""
            if n.level:
                mod = "exoplanet." + mod if mod else "exoplanet"
            if mod == "exoplanet.compat" or mod.endswith("exoplanet.compat"):
                used += [(a.name, n.lineno) for a in n.names]
            elif mod == "exoplanet" and any(a.name == "compat" for a in n.names):
                compat_as |= {a.asname or a.name for a in n.names if a.name == "compat"}
            else:
                ext.append((mod, n.lineno))
        elif isinstance(n, ast.Import):
            for a in n.names:
                if a.name == "exoplanet.compat":
                    compat_as.add(a.asname or "exoplanet.compat")
                else:
                    ext.append((a.name, n.lineno))
        elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
            if f in ("__import__", "import_module") and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                ext.append((n.args[0].value, n.lineno))
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in compat_as and isinstance(n.ctx, ast.Load):
            used.append((n.attr, n.lineno))
    return used, ext


BACKENDS = ("pymc", "pymc3", "theano", "pytensor", "aesara", "exoplanet_core")


@check("C41")
def c41(ck):
    import pathlib

    from ..harness import SRC

    ck.rule(
        "Every prior is interpreted with each back end and the variables, "
        "bounds, initial values, potentials and deterministics are compared "
        "as expressions; orbits and light curves are compared in the same "
        "way. The import statements of every module are enumerated: names "
        "taken from the compatibility layer must be defined by it with either "
        "back end, and no other module may import a back end."
    )
    new, old = ck.ip(), ck.ip(**PM3)
    root = pathlib.Path(SRC)
    root = root / "exoplanet" if (root / "exoplanet").is_dir() else root
    c_new = new.import_module("exoplanet.compat").vars
    c_old = old.import_module("exoplanet.compat").vars
    for path in sorted(root.rglob("*.py")):
        rel = "src/exoplanet/" + str(path.relative_to(root))
        if path.name == "compat.py" and path.parent == root:
            continue
        used, ext = imports_of(path)
        bad = []
        for n, line in used:
            for what, v in (("modern", c_new), ("legacy", c_old)):
                if n != "*" and n not in v:
                    bad.append("%s:%d :: the compatibility layer does not define %s with the %s back end" % (rel, line, n, what))
        for n, line in ext:
            if n.split(".")[0] in BACKENDS:
                bad.append("%s:%d :: %s is imported directly instead of through the compatibility layer" % (rel, line, n))
        ck.static("imports of %s" % rel, bad, rel, "imports")

    def flag():
        if c_new.get("USING_PYMC3") is not False or c_old.get("USING_PYMC3") is not True:
            raise Fail("USING_PYMC3 is %r with the modern and %r with the legacy back end" % (c_new.get("USING_PYMC3"), c_old.get("USING_PYMC3")))
        a, b = set(c_new), set(c_old)
        pub = {n for n in a ^ b if not n.startswith("_") and n not in ("pytensor", "theano")}
        if pub:
            raise Fail("%s defined with one back end only" % ", ".join(sorted(pub)))

    ck.ob("names of the compatibility layer", flag, None, "compat:", "compat")

    def run(ip, mod, name, args, kw, model):
        f = ip.getattr(ip.import_module(mod), name)
        # arguments are created anew for each back end
        return Built(ip, f, [a(ip) if callable(a) else a for a in args], {k: (v(ip) if callable(v) else v) for k, v in kw.items()},
                     inside=model != "given", pass_model=model != "context")

    def compare(mod, name, args, kw, model="context", documented=False):
        m = run(new, mod, name, args, kw, model)
        if documented:
            expect_raise(old, lambda: run(old, mod, name, args, kw, model), NotImplementedError, "%s with the legacy back end" % name)
            return
        l = run(old, mod, name, args, kw, model)
        try:
            same_list(*same_models(summary(new, m), summary(old, l)), what="the values returned")
        except Fail as e:
            raise Fail("%s(%s): %s" % (name, "observed" if "observed" in kw else "", e))

    def compare_hyper(mod, name, args, kw):
        """The hyperparameters alone."""
        m, l = (summary(ip, run(ip, mod, name, args, kw, "context"))[0] for ip in (new, old))
        l.pop(args[0], None)
        m.pop(args[0], None)
        z = ({}, {}, [], set())
        same_models((m,) + z, (l,) + z)

    def sym(n, lo=None, hi=None, shape=(), flags=()):
        return lambda ip: init_of(n, shape, "np", lo, hi, flags)[0]

    DD, EE = "exoplanet.distributions", "exoplanet.distributions.eccentricity"
    cases = []
    for shape in (None, 3, (2, 3)):
        st = shape_tuple(shape)
        sh = shaped({}, shape)
        for iv in ("none", "initval", "testval"):
            def I(n, s=st, lo=-1, hi=1, iv=iv):
                return {} if iv == "none" else {iv: sym(n, lo, hi, s, ("open",))}
            for reg in ({}, {"regularization": None}, {"regularization": lambda ip: sc(A.pos("reg"), "py")}):
                cases.append((DD, "angle", ["phi"], dict(sh, **I("th"), **reg)))
            cases.append((DD, "unit_disk", ["x", "y"], dict(sh, **I("xy", (2,) + st))))
            cases.append((DD, "quad_limb_dark", ["u"], dict(sh, **I("uu", (2,) + st, 0, 1))))
            cases.append((DD, "impact_parameter", ["b", sym("k", 0, None, st, ("pos",))], dict({"shape": st} if st else {}, **I("bb", st, 0, 1))))
    for fixed, bnd, shape in itertools.product((True, False), ("none", "lower", "upper", "both", "symbol"), (None, 3)):
        lo, hi = bounds_cfg(bnd)
        b = {k: (lambda ip, v=v: sc(A.ex(v), "py")) for k, v in (("lower", lo), ("upper", hi)) if v is not None}
        for long in (None, True, False):
            cases.append((EE, "kipping13", ["ecc"], dict(shaped({}, shape), fixed=fixed, long=long, **b)))
            obs = {"observed": lambda ip: sc(A.sym("eobs", lo=0, hi=1, flags=("open",)))}
            if shape is None:
                cases.append((EE, "kipping13", ["ecc"], dict(fixed=fixed, long=long, **b, **obs), "context", bnd != "none"))
        for multi in (True, False):
            cases.append((EE, "vaneylen19", ["ecc"], dict(shaped({}, shape), fixed=fixed, multi=multi, **b)))
            if shape is None:
                kw = dict(fixed=fixed, multi=multi, **b, **obs)
                cases.append((EE, "vaneylen19", ["ecc"], kw))
                ck.ob("vaneylen19 observed, hyperparameters [fixed=%s multi=%s bounds=%s]" % (fixed, multi, bnd),
                      lambda kw=kw: compare_hyper(EE, "vaneylen19", ["ecc"], kw), new, EC + "vaneylen19", "vaneylen19")
        for iv in ("initval", "testval"):
            if b and shape is None:
                cases.append((EE, "kipping13", ["ecc"], dict(fixed=fixed, **b, **{iv: sym("ei", 0, 1)})))
    for model in ("given", "both"):
        for fixed in (True, False):
            for f in ("kipping13", "vaneylen19"):
                cases.append((EE, f, ["ecc"], dict(fixed=fixed), model))
    for n, c in enumerate(cases):
        kw = c[3]
        lab = " ".join("%s=%s" % (k, v if not callable(v) else "*") for k, v in sorted(kw.items()))
        ck.ob("%s [%s%s #%d]" % (c[1], lab, "" if len(c) < 5 else " model=" + c[4], n),
              lambda c=c: compare(*c), new, (EC if c[0] == EE else D) + c[1], c[1])

    # numerical parts with either back end
    from .common import build, orbit_kwargs, times
    from .lightcurves import light_curve

    def values(ip, cfg, w):
        cls = cfg.get("cls", "KeplerianOrbit")
        if cls == "SimpleTransitOrbit":
            from .common import planet_args
            src = planet_args(cfg.get("n", 2))
            kw = {k: src[k] for k in ("period", "t0", "b", "duration", "r_star", "ror")}
        else:
            kw = orbit_kwargs(cfg)
        o = build(ip, kw, cls)
        t = times()[0]
        if w == "light_curve":
            u = ip.as_tensor(arr([A.sym("u1"), A.sym("u2")], "np"))
            lc = ip.call(ip.getattr(ip.import_module("exoplanet"), "LimbDarkLightCurve"), [u], {})
            m = cfg.get("n", 2)
            R = sc(A.pos("k0"), "np") if m is None else arr([A.pos("k%d" % i) for i in range(m)], "np")
            r = call(ip, lc, "get_light_curve", orbit=o, r=R, t=t)
        else:
            r = call(ip, o, w, t)
        return [x for y in outputs(r) for x in tn.lift(y).data.flat], [tuple(map(repr, tn.lift(y).axes)) for y in outputs(r)]

    def numeric(cfg, w):
        (a, sa), (b, sb) = values(new, cfg, w), values(old, cfg, w)
        if sa != sb:
            raise Fail("the shapes differ: %s and %s" % (sa, sb))
        same_list(a, b, "the values")

    for cfg in ({"n": 2}, {"n": None, "incl": "b"}, {"n": 2, "ecc": "omega", "incl": "incl", "Omega": True}):
        for w in ("get_relative_position", "get_star_velocity", "get_planet_velocity", "get_relative_angles", "get_radial_velocity", "light_curve"):
            ck.ob("%s [%s]" % (w, " ".join("%s=%s" % kv for kv in cfg.items())), lambda cfg=cfg, w=w: numeric(cfg, w), new,
                  "light_curves.limb_dark:LimbDarkLightCurve" if w == "light_curve" else "orbits.keplerian:KeplerianOrbit." + w, "evaluation")
    for w in ("get_relative_position", "light_curve"):
        ck.ob("simple orbit, %s" % w, lambda w=w: numeric({"cls": "SimpleTransitOrbit"}, w), new, "orbits.simple:SimpleTransitOrbit", "evaluation")
