"""Summaries of the library surface the analysed package uses.

Each summary states what the library call denotes in the domain of
:mod:`exoscan.tensor`; none of them runs the library.
"""

import functools
from collections import OrderedDict
from fractions import Fraction as F

import numpy as np

from . import algebra as A
from . import tensor as tn
from .algebra import Expr, ex
from .interp import (
    BUILTIN_EXC, BoundMethod, CachedProperty, Class, ClassM, DefaultDict,
    Event, ExcModel, ExternalError, ExtModule, Func, GenCM, Model, Module, NTClass,
    NTuple, Obj, Partial, PropertyObj, StaticM, SuperObj,
)
from .tensor import AbsRaise, T, Unsupported, araise, lift

OWNED = {}  # id -> (object, owner) for caller-supplied python containers

MISSING = {
    "pymc": {"pymc3", "theano", "exoplanet_core.pymc3", "aesara"},
    "pymc3": {"pymc", "pytensor", "exoplanet_core.pymc", "aesara"},
}


def own(obj, owner):
    if isinstance(obj, T):
        obj.owner = owner
    else:
        OWNED[id(obj)] = (obj, owner)
    return obj


# ---------------------------------------------------------------------------
# arithmetic


def _operand(x, other):
    if isinstance(x, T):
        return x
    if isinstance(x, (bool, int, F)):
        return lift(x)
    if isinstance(x, (list, tuple)):
        if isinstance(other, T) and other.kind != "py":
            return lift(x, "np")
        araise(TypeError, "unsupported operand type(s): list")
    return None


def arith(ip, op, a, b):
    x, y = _operand(a, b), _operand(b, a)
    if x is None or y is None:
        araise(
            TypeError,
            "unsupported operand type(s) for %s: %s and %s"
            % (op, _tn(a), _tn(b)),
        )
    return arith_t(op, x, y)


def _tn(v):
    return type(v).__name__


def arith_t(op, x, y):
    bb = x.dtype == "bool" and y.dtype == "bool"
    if op == "add":
        if bb:
            if x.kind != "py" or y.kind != "py":
                return tn.mapped(lambda p, q: p + q - p * q, [x, y], dtype="bool")
            return tn.mapped(lambda p, q: p + q, [x, y], dtype="int64")
        return tn.mapped(lambda p, q: p + q, [x, y])
    if op == "sub":
        if bb and not (x.kind == "py" and y.kind == "py"):
            araise(TypeError, "boolean subtract is not supported")
        return tn.mapped(lambda p, q: p - q, [x, y])
    if op == "mul":
        return tn.mapped(lambda p, q: p * q, [x, y])
    if op == "truediv":
        return tn.mapped(_div, [x, y], dtype="float64")
    if op == "pow":
        dt = "float64" if "float64" in (x.dtype, y.dtype) else "int64"
        if dt == "int64" and any(
            (e.const() is not None and e.const() < 0) for e in y.flat()
        ) and x.kind == "np":
            araise(ValueError, "Integers to negative integer powers are not allowed.")
        return tn.mapped(lambda p, q: A.power(p, q), [x, y], dtype=dt)
    if op == "mod":
        return tn.mapped(lambda p, q: A.fn("mod", p, q), [x, y])
    if op == "floordiv":
        return tn.mapped(lambda p, q: A.floor(_div(p, q)), [x, y])
    if op in ("and_", "or_", "xor"):
        if not bb:
            if "float64" in (x.dtype, y.dtype):
                araise(TypeError, "bitwise operation on floats")
            raise Unsupported("bitwise operation on integers")
        f = {
            "and_": lambda p, q: p * q,
            "or_": lambda p, q: p + q - p * q,
            "xor": lambda p, q: p + q - 2 * p * q,
        }[op]
        return tn.mapped(f, [x, y], dtype="bool")
    if op == "matmul":
        return dot(x, y)
    if op in ("lshift", "rshift"):
        raise Unsupported(op)
    raise Unsupported("operator %s" % op)


def _div(p, q):
    return p / q


def cmp_expr(op, p, q):
    if op == "Gt":
        return A.gt0(p - q)
    if op == "Lt":
        return A.gt0(q - p)
    if op == "GtE":
        return A.ONE - A.gt0(q - p)
    if op == "LtE":
        return A.ONE - A.gt0(p - q)
    if op == "Eq":
        return A.eq0(p - q)
    return A.ONE - A.eq0(p - q)


def compare(ip, op, a, b):
    x, y = _operand(a, b), _operand(b, a)
    if x is None or y is None:
        araise(TypeError, "'%s' not supported between these operands" % op)
    return tn.mapped(lambda p, q: cmp_expr(op, p, q), [x, y], dtype="bool")


def dot(x, y):
    x, y = lift(x), lift(y)
    if x.ndim == 0 or y.ndim == 0:
        return arith_t("mul", x, y)
    ax = x.axes[-1]
    ay = y.axes[-2] if y.ndim > 1 else y.axes[0]
    if not tn.same_axis(ax, ay):
        araise(ValueError, "shapes not aligned")
    if y.ndim == 1:
        p = arith_t("mul", x, y)
        return tsum(p, -1)
    if x.ndim == 1:
        xx = T(x.data[:, None], (x.axes[0], tn.literal_axis(1)), x.kind, x.dtype)
        return tsum(tn.mapped(lambda p, q: p * q, [xx, y]), 0)
    if x.ndim == 2 and y.ndim == 2:
        xx = T(x.data[:, :, None], (x.axes[0], x.axes[1], tn.literal_axis(1)), x.kind, x.dtype)
        yy = T(y.data[None], (tn.literal_axis(1),) + y.axes, y.kind, y.dtype)
        return tsum(tn.mapped(lambda p, q: p * q, [xx, yy]), 1)
    if y.ndim == 2:
        xx = T(x.data[..., None], x.axes + (tn.literal_axis(1),), x.kind, x.dtype)
        return tsum(tn.mapped(lambda p, q: p * q, [xx, y]), -2)
    raise Unsupported("dot of %d-d and %d-d arrays" % (x.ndim, y.ndim))


def _gsum(vals, ax):
    v = vals[0]
    if len(vals) != 1:
        raise Unsupported("sum over a selection of a literal axis")
    if ax.parent is not None:
        return A.fn_raw("Sum", (v * ax.sel[0], ax.parent.length))
    names = {}
    # linear in the generic element: pull out factors that do not vary
    return _sum_over(v, ax)


def _sum_over(v, ax):
    """Sum of a generic element over a symbolic axis."""
    varying = VARYING.get(repr(ax.length), set())
    out = A.ZERO
    for m, c in v.d.items():
        inv, var = [], []
        for a, e in m:
            at = A.ATOMS[a]
            names = {
                z.name for z in A.atoms_of(A.atom_expr(at)).values() if z.kind == "sym"
            }
            (var if names & varying else inv).append((a, e))
        if not var:
            out = out + Expr({tuple(inv): c}) * ax.length
        else:
            out = out + Expr({tuple(inv): c}) * A.fn_raw(
                "Sum", (Expr({tuple(var): F(1)}), ax.length)
            )
    return out


VARYING = {}  # repr(axis length) -> symbol names that vary along it


def tsum(t, axis=None, keepdims=False):
    if t.dtype == "bool":
        t = T(t.data, t.axes, t.kind, "int64")
    return tn.reduce_axis(t, axis, lambda p, q: p + q, A.ZERO, keepdims, _gsum)


def tany(t, axis=None, keepdims=False):
    t = as_bool(t)
    return tn.reduce_axis(
        t, axis, lambda p, q: p + q - p * q, A.ZERO, keepdims,
        lambda v, ax: A.sym_bool("any<%d,%s>" % (A.fn_key("any", v[0]), ax.length)),
    )


def tall(t, axis=None, keepdims=False):
    t = as_bool(t)
    return tn.reduce_axis(
        t, axis, lambda p, q: p * q, A.ONE, keepdims,
        lambda v, ax: A.ONE - A.sym_bool(
            "any<%d,%s>" % (A.fn_key("any", A.ONE - v[0]), ax.length)
        ) if v[0].const() is None else v[0],
    )


def as_bool(t):
    t = lift(t)
    if t.dtype == "bool":
        return t
    return tn.mapped(lambda p: A.ONE - A.eq0(p), [t], dtype="bool")


def tprod(t, axis=None, keepdims=False):
    return tn.reduce_axis(t, axis, lambda p, q: p * q, A.ONE, keepdims)


def tmax(t, axis=None, keepdims=False):
    return tn.reduce_axis(
        t, axis, lambda p, q: A.fn("max", p, q), None, keepdims,
        lambda v, ax: A.fn_raw("Max", (v[0], ax.length)),
    )


def tmin(t, axis=None, keepdims=False):
    return tn.reduce_axis(
        t, axis, lambda p, q: A.fn("min", p, q), None, keepdims,
        lambda v, ax: A.fn_raw("Min", (v[0], ax.length)),
    )


def tmean(t, axis=None, keepdims=False):
    if axis is None:
        n = A.ONE
        for a in t.axes:
            n = n * a.length
    else:
        axs = axis if isinstance(axis, (tuple, list)) else [axis]
        n = A.ONE
        for a in axs:
            n = n * t.axes[tn.norm_axis(a, t.ndim)].length
    s = tsum(t, axis, keepdims)
    return tn.mapped(lambda p: p / n, [s], dtype="float64")


ROUNDED = [None]  # a function told of every rounding of values


def rounded(what, t):
    if ROUNDED[0] is not None and not all(A.is_integer(e) for e in t.data.flat):
        ROUNDED[0](what, t)


def cast(t, dtype):
    dt = dtype_name(dtype)
    if dt == t.dtype:
        return t
    r = None
    if dt not in ("float64", "bool"):
        rounded("conversion to " + dt, t)
    if dt == "float64":
        r = T(t.data, t.axes, t.kind, dt)
    elif dt == "int64":
        def tr(e):
            if A.is_integer(e):
                return e
            lo, hi = A.bounds(e)
            if lo is not None and lo >= 0:
                return A.floor(e)
            c = e.const()
            if c is not None:
                return ex(int(c))
            fl = A.floor(e)
            return fl + A.gt0(-e) * (ONE_IF_NOT_INT(e))
        r = tn.mapped(tr, [t], dtype="int64")
    elif dt == "bool":
        r = as_bool(t)
    else:
        r = tn.mapped(lambda e: e if e.const() in (0, 1) else A.fn_raw("lossy_" + dt, (e,)), [t], dtype="float64")
    r.idx = t.idx
    r.constant = t.constant
    return r


def ONE_IF_NOT_INT(e):
    return A.ONE


def dtype_name(d):
    if isinstance(d, str):
        n = d
    elif d is None:
        return "float64"
    else:
        n = getattr(d, "dt", None)
        if n is None:
            if isinstance(d, BuiltinType):
                n = d.name
            elif isinstance(d, Model):
                n = d.name
            else:
                raise Unsupported("dtype %r" % (d,))
    return {
        "float": "float64", "floatX": "float64", "double": "float64",
        "int": "int64", "int32": "int64", "bool_": "bool", "uint64": "int64",
        "uint8": "int64", "int8": "int64", "int16": "int64", "f8": "float64", "i8": "int64",
        "long": "int64", "intp": "int64",
    }.get(n, n)


def elementwise(name, kind, dtype="float64", lossless_int=False):
    """A unary/binary ufunc over T values for the np or pt namespace."""

    def f(*args):
        ts = []
        for a in args:
            if not isinstance(a, T) and getattr(a, "abs_ufunc", None):
                return a.abs_ufunc(name, args)
            ts.append(lift(a, kind))
        k = kind
        if name in ("floor", "ceil", "sign"):
            rounded(name, ts[0])
        for t in ts:
            if t.kind == "pt":
                k = "pt"
        dt = dtype if dtype != "same" else tn.promote_dtype(ts)
        return tn.mapped(lambda *e: A.fn(name, *e), ts, kind=k, dtype=dt)

    return f


UN1 = [
    "sin", "cos", "tan", "exp", "log", "arccos", "arcsin", "arctan", "sqrt",
]
ALIASES = {
    "acos": "arccos", "asin": "arcsin", "atan": "arctan", "atan2": "arctan2",
    "arctan2": "arctan2",
}


def k_of(args, kind):
    for a in args:
        if isinstance(a, T) and a.kind == "pt":
            return "pt"
        if isinstance(a, (list, tuple)) and k_of(a, kind) == "pt":
            return "pt"
    return kind


def common(kind):
    """Functions shared by numpy and pytensor.tensor."""
    d = {}

    def reg(*names):
        def deco(f):
            for n in names:
                d[n] = Model(f, n)
            return f
        return deco

    def up(x, *more):
        return lift(x, k_of((x,) + more, kind))

    for n in UN1:
        f = elementwise(n, kind)
        d[n] = Model(_named(lambda x, f=f: f(x), n), n)
    for al, n in ALIASES.items():
        if n == "arctan2":
            f = elementwise(n, kind)
            d[al] = Model(lambda y, x, f=f: f(y, x), n)
        else:
            d[al] = d[n]
    d["floor"] = Model(lambda x: elementwise("floor", kind)(x), "floor")
    d["ceil"] = Model(lambda x: elementwise("ceil", kind)(x), "ceil")

    def rnd(x, mode=None, decimals=0):
        t = up(x)
        rounded("round", t)
        return tn.mapped(lambda e: A.floor(e + F(1, 2)), [t], dtype=t.dtype)

    d["round"] = Model(rnd, "round")
    d["rint"] = Model(rnd, "rint")
    d["around"] = d["round"]
    if kind == "np":
        d["fix"] = Model(lambda x: cast(cast(up(x), "int64"), "float64"), "fix")
    d["trunc"] = Model(lambda x: cast(cast(up(x), "int64"), "float64"), "trunc")
    for n in ("abs", "fabs", "absolute", "abs_"):
        d[n] = Model(lambda x: elementwise("abs", kind, "same")(x), "abs")
    d["sign"] = d["sgn"] = Model(lambda x: elementwise("sign", kind, "same")(x), "sign")
    d["log1p"] = Model(lambda x: tn.mapped(lambda e: A.fn("log", e + 1), [up(x)], dtype="float64"), "log1p")
    d["expm1"] = Model(lambda x: tn.mapped(lambda e: A.fn("exp", e) - 1, [up(x)], dtype="float64"), "expm1")
    d["log2"] = Model(lambda x: tn.mapped(lambda e: A.fn("log", e) / A.fn("log", 2), [up(x)], dtype="float64"), "log2")
    d["log10"] = Model(lambda x: tn.mapped(lambda e: A.fn("log", e) / A.fn("log", 10), [up(x)], dtype="float64"), "log10")
    d["exp2"] = Model(lambda x: tn.mapped(lambda e: A.fn("exp", e * A.fn("log", 2)), [up(x)], dtype="float64"), "exp2")
    d["square"] = d["sqr"] = Model(lambda x: tn.mapped(lambda e: e * e, [up(x)]), "square")
    d["cbrt"] = Model(lambda x: tn.mapped(lambda e: A.power(e, F(1, 3)), [up(x)], dtype="float64"), "cbrt")
    d["reciprocal"] = d["inv"] = Model(lambda x: tn.mapped(lambda e: A.ONE / e, [up(x)], dtype="float64"), "reciprocal")
    d["negative"] = d["neg"] = Model(lambda x: tn.mapped(lambda e: -e, [up(x)]), "negative")
    d["deg2rad"] = d["radians"] = Model(lambda x: tn.mapped(lambda e: e * A.PI / 180, [up(x)], dtype="float64"), "deg2rad")
    d["rad2deg"] = d["degrees"] = Model(lambda x: tn.mapped(lambda e: e * 180 / A.PI, [up(x)], dtype="float64"), "rad2deg")
    d["sinh"] = Model(lambda x: tn.mapped(lambda e: (A.fn("exp", e) - A.fn("exp", -e)) / 2, [up(x)], dtype="float64"), "sinh")
    d["cosh"] = Model(lambda x: tn.mapped(lambda e: (A.fn("exp", e) + A.fn("exp", -e)) / 2, [up(x)], dtype="float64"), "cosh")
    d["tanh"] = Model(lambda x: tn.mapped(lambda e: (A.fn("exp", 2 * e) - 1) / (A.fn("exp", 2 * e) + 1), [up(x)], dtype="float64"), "tanh")
    d["sinc"] = Model(lambda x: tn.mapped(lambda e: A.fn("sin", A.PI * e) / (A.PI * e), [up(x)], dtype="float64"), "sinc")
    d["hypot"] = Model(lambda x, y: tn.mapped(lambda p, q: A.power(p * p + q * q, F(1, 2)), [up(x), up(y)], kind=k_of((x, y), kind), dtype="float64"), "hypot")
    d["logaddexp"] = Model(lambda x, y: tn.mapped(lambda p, q: A.fn("log", A.fn("exp", p) + A.fn("exp", q)), [up(x), up(y)], kind=k_of((x, y), kind), dtype="float64"), "logaddexp")

    def bin_(op):
        return lambda x, y: arith_t(op, up(x, y), up(y, x))

    for n, op in (
        ("add", "add"), ("subtract", "sub"), ("sub", "sub"), ("multiply", "mul"),
        ("mul", "mul"), ("divide", "truediv"), ("true_div", "truediv"),
        ("true_divide", "truediv"), ("power", "pow"), ("pow", "pow"),
        ("float_power", "pow"),
        ("mod", "mod"), ("remainder", "mod"), ("floor_divide", "floordiv"),
        ("int_div", "floordiv"),
    ):
        d[n] = Model(bin_(op), n)

    def logical(op):
        def f(x, y):
            return arith_t(op, as_bool(up(x, y)), as_bool(up(y, x)))
        return f

    for n, op in (
        ("and_", "and_"), ("logical_and", "and_"), ("bitwise_and", "and_"),
        ("or_", "or_"), ("logical_or", "or_"), ("bitwise_or", "or_"),
        ("xor", "xor"), ("logical_xor", "xor"), ("bitwise_xor", "xor"),
    ):
        d[n] = Model(logical(op), n)

    def not_(x):
        return tn.mapped(lambda e: A.ONE - e, [as_bool(up(x))], dtype="bool")

    for n in ("invert", "logical_not", "bitwise_not"):
        d[n] = Model(not_, n)

    def cmpf(op):
        def f(x, y):
            return tn.mapped(lambda p, q: cmp_expr(op, p, q), [up(x, y), up(y, x)], kind=k_of((x, y), kind), dtype="bool")
        return f

    for n, op in (
        ("gt", "Gt"), ("greater", "Gt"), ("lt", "Lt"), ("less", "Lt"),
        ("ge", "GtE"), ("greater_equal", "GtE"), ("le", "LtE"),
        ("less_equal", "LtE"), ("eq", "Eq"), ("equal", "Eq"),
        ("neq", "NotEq"), ("not_equal", "NotEq"),
    ):
        d[n] = Model(cmpf(op), n)

    d["maximum"] = d["fmax"] = Model(lambda x, y: tn.mapped(lambda p, q: A.fn("max", p, q), [up(x, y), up(y, x)], kind=k_of((x, y), kind)), "maximum")
    d["minimum"] = d["fmin"] = Model(lambda x, y: tn.mapped(lambda p, q: A.fn("min", p, q), [up(x, y), up(y, x)], kind=k_of((x, y), kind)), "minimum")

    def clip(x, a_min=None, a_max=None, min=None, max=None):
        lo = a_min if a_min is not None else min
        hi = a_max if a_max is not None else max
        t = up(x)
        if lo is not None:
            t = tn.mapped(lambda p, q: A.fn("max", p, q), [t, up(lo)])
        if hi is not None:
            t = tn.mapped(lambda p, q: A.fn("min", p, q), [t, up(hi)])
        return t

    d["clip"] = Model(clip, "clip")

    def where(c, x=None, y=None):
        if x is None and y is None:
            return nonzero(c)
        c = as_bool(up(c, x, y))
        x, y = up(x, c, y), up(y, c, x)
        r = tn.mapped(lambda s, p, q: A.switch(s, p, q), [c, x, y], kind=k_of((c, x, y), kind), dtype=tn.promote_dtype([x, y]), selects=True)
        return r

    d["where"] = Model(where, "where")
    d["switch"] = Model(lambda cond, ift, iff: where(cond, ift, iff), "switch")

    def nonzero(c, return_matrix=False):
        c = as_bool(up(c))
        if c.ndim != 1:
            raise Unsupported("nonzero of a multi-dimensional mask")
        i = arange_for(c.axes[0], k_of((c,), kind))
        return (tn.getitem(i, c),)

    d["nonzero"] = Model(nonzero, "nonzero")
    d["flatnonzero"] = Model(lambda c: nonzero(c)[0], "flatnonzero")

    def likes(value):
        def f(x, dtype=None, **kw):
            if isinstance(x, Quantity):
                return Quantity(f(x.v, dtype), x.unit)
            if not isinstance(x, T) and getattr(x, "abs_like", None):
                return x.abs_like(value)
            t = up(x)
            dt = t.dtype if dtype is None else dtype_name(dtype)
            r = tn.filled(t.axes, ex(value), k_of((t,), kind), dt)
            return r
        return f

    d["zeros_like"] = Model(likes(0), "zeros_like")
    d["ones_like"] = Model(likes(1), "ones_like")
    d["empty_like"] = d["zeros_like"]

    def full_like(x, fill_value, dtype=None):
        t = up(x)
        v = up(fill_value)
        z = tn.filled(t.axes, A.ZERO, k_of((t, v), kind))
        return tn.mapped(lambda p, q: q, [z, v], dtype=t.dtype if dtype is None else dtype_name(dtype))

    d["full_like"] = Model(full_like, "full_like")

    def makes(value):
        def f(shape=(), dtype="float64", **kw):
            return tn.filled(tn.shape_to_axes(shape), ex(value), kind, dtype_name(dtype))
        return f

    d["zeros"] = d["empty"] = Model(makes(0), "zeros")
    d["ones"] = Model(makes(1), "ones")

    def full(shape, fill_value, dtype=None):
        v = up(fill_value)
        z = tn.filled(tn.shape_to_axes(shape), A.ZERO, k_of((v,), kind))
        return tn.mapped(lambda p, q: q, [z, v], dtype=v.dtype if dtype is None else dtype_name(dtype))

    d["full"] = Model(full, "full")

    def arange(start, stop=None, step=1, dtype=None):
        if stop is None:
            start, stop = 0, start
        return do_arange(start, stop, step, k_of((start, stop, step), kind), dtype)

    d["arange"] = Model(arange, "arange")

    def linspace(start, stop, num=50, endpoint=True, **kw):
        n = as_int(num)
        t0, t1 = lift(start), lift(stop)
        if t0.ndim or t1.ndim:
            raise Unsupported("linspace of arrays")
        if n < 0:
            araise(ValueError, "Number of samples must be non-negative")
        div = (n - 1) if endpoint else n
        vals = [
            t0.item() + (t1.item() - t0.item()) * (F(i, div) if div else F(0))
            for i in range(n)
        ]
        data = np.empty(n, dtype=object)
        data[:] = vals
        return T(data, (tn.literal_axis(n),), k_of((start, stop), kind))

    d["linspace"] = Model(linspace, "linspace")

    def red(f):
        def g(x, axis=None, dtype=None, keepdims=False):
            if not isinstance(x, T) and getattr(x, "abs_reduce", None):
                return x.abs_reduce(f, axis)
            return f(up(x), norm_ax(axis), bool(keepdims))
        return g

    for n, f in (
        ("sum", tsum), ("any", tany), ("all", tall), ("prod", tprod),
        ("max", tmax), ("min", tmin), ("amax", tmax), ("amin", tmin),
        ("mean", tmean),
    ):
        d[n] = Model(red(f), n)
    if kind == "np":
        for n, f in (("nansum", tsum), ("nanmax", tmax), ("nanmin", tmin), ("nanmean", tmean)):
            d[n] = Model(red(f), n)

    def average(a, axis=None, weights=None):
        t = up(a)
        if weights is None:
            return tmean(t, norm_ax(axis))
        w = up(weights)
        if axis is not None and w.ndim == 1 and t.ndim > 1:
            k = tn.norm_axis(axis, t.ndim)
            sh = [1] * t.ndim
            w = T(
                w.data.reshape([w.data.shape[0] if j == k else 1 for j in range(t.ndim)]),
                [w.axes[0] if j == k else tn.literal_axis(1) for j in range(t.ndim)],
                w.kind, w.dtype,
            )
        num_ = tsum(arith_t("mul", t, w), norm_ax(axis))
        den = tsum(tn.mapped(lambda p, q: q, [t, w]), norm_ax(axis))
        return arith_t("truediv", num_, den)

    d["average"] = Model(average, "average")

    def cumsum(x, axis=None):
        t = up(x)
        if axis is None:
            if t.ndim != 1:
                raise Unsupported("cumsum of a flattened array")
            axis = 0
        ax = tn.norm_axis(axis, t.ndim)
        if t.axes[ax].generic:
            raise Unsupported("cumsum over an axis of unknown length")
        return T(np.cumsum(t.data, axis=ax), t.axes, t.kind, t.dtype)

    d["cumsum"] = Model(cumsum, "cumsum")

    def diff(x, n=1, axis=-1):
        t = up(x)
        ax = tn.norm_axis(axis, t.ndim)
        sl = [slice(None)] * t.ndim
        hi, lo = list(sl), list(sl)
        hi[ax] = slice(1, None)
        lo[ax] = slice(None, -1)
        r = arith_t("sub", tn.getitem(t, tuple(hi)), tn.getitem(t, tuple(lo)))
        return r if n == 1 else diff(r, n - 1, axis)

    d["diff"] = Model(diff, "diff")

    def stack_(*tensors, axis=0, **kw):
        items = tensors
        if len(items) == 2 and isinstance(items[1], (int,)) and isinstance(items[0], (list, tuple, T)) and not isinstance(items[1], bool):
            axis = items[1]
            items = items[:1]
        if len(items) == 1:
            items = items[0]
            if isinstance(items, T):
                items = [tn.getitem(items, k) for k in range(items.axes[0].n)]
        items = list(items)
        k = k_of(items, kind)
        items = [lift(i, k) for i in items]
        if not items:
            araise(ValueError, "need at least one array to stack")
        return tn.stack(items, axis=as_int(axis), kind=k)

    d["stack"] = Model(stack_, "stack")

    def concatenate(tensor_list=None, axis=0, *, arrays=None, **kw):
        items = tensor_list if tensor_list is not None else arrays
        if isinstance(items, T):
            items = [tn.getitem(items, k) for k in range(items.axes[0].n)]
        items = list(items)
        k = k_of(items, kind)
        items = [lift(i, k) for i in items]
        if axis is None:
            items = [tn.reshape(i, (-1,)) for i in items]
            axis = 0
        return tn.concat(items, axis=as_int(axis), kind=k)

    d["concatenate"] = d["join_"] = Model(concatenate, "concatenate")
    d["join"] = Model(lambda axis, *ts: concatenate(list(ts), axis), "join")

    def vstack(tup):
        items = [lift(i, kind) for i in tup]
        items = [i if i.ndim > 1 else T(i.data.reshape(1, -1) if i.ndim else i.data.reshape(1, 1), (tn.literal_axis(1),) + (i.axes or (tn.literal_axis(1),)), i.kind, i.dtype) for i in items]
        return tn.concat(items, 0, kind=k_of(items, kind))

    d["vstack"] = d["row_stack"] = Model(vstack, "vstack")

    def hstack(tup):
        items = [lift(i, kind) for i in tup]
        items = [i if i.ndim else T(i.data.reshape(1), (tn.literal_axis(1),), i.kind, i.dtype) for i in items]
        return tn.concat(items, 0 if items[0].ndim == 1 else 1, kind=k_of(items, kind))

    d["hstack"] = Model(hstack, "hstack")

    def column_stack(tup):
        items = [lift(i, kind) for i in tup]
        items = [i if i.ndim > 1 else T(i.data.reshape(-1, 1), (i.axes[0], tn.literal_axis(1)), i.kind, i.dtype) for i in items]
        return tn.concat(items, 1, kind=k_of(items, kind))

    d["column_stack"] = Model(column_stack, "column_stack")

    d["squeeze"] = Model(lambda x, axis=None: tn.squeeze(up(x), axis), "squeeze")
    d["reshape"] = Model(lambda x, newshape=None, shape=None, ndim=None: tn.reshape(up(x), newshape if newshape is not None else shape), "reshape")
    d["ravel"] = d["flatten"] = Model(lambda x: tn.reshape(up(x), (-1,)), "ravel")
    d["transpose"] = Model(lambda x, axes=None: transpose(up(x), axes), "transpose")

    def moveaxis(a, source, destination):
        t = up(a)
        s = tn.norm_axis(source, t.ndim)
        e = tn.norm_axis(destination, t.ndim)
        order = [k for k in range(t.ndim) if k != s]
        order.insert(e, s)
        return transpose(t, order)

    d["moveaxis"] = Model(moveaxis, "moveaxis")

    def swapaxes(a, axis1, axis2):
        t = up(a)
        i, j = tn.norm_axis(axis1, t.ndim), tn.norm_axis(axis2, t.ndim)
        order = list(range(t.ndim))
        order[i], order[j] = order[j], order[i]
        return transpose(t, order)

    d["swapaxes"] = Model(swapaxes, "swapaxes")

    def expand_dims(a, axis):
        t = up(a)
        axs = [axis] if not isinstance(axis, (tuple, list)) else list(axis)
        nd = t.ndim + len(axs)
        axs = sorted(tn.norm_axis(x, nd) for x in axs)
        dd, axes = t.data, list(t.axes)
        for x in axs:
            dd = np.expand_dims(dd, x)
            axes.insert(x, tn.literal_axis(1))
        return T(dd, axes, t.kind, t.dtype)

    d["expand_dims"] = Model(expand_dims, "expand_dims")

    def broadcast_to(x, shape):
        t = up(x)
        axes = tn.shape_to_axes(shape)
        full_ = tn.broadcast_axes([t.axes, axes])
        if len(full_) != len(axes) or not all(tn.same_axis(a, b) for a, b in zip(full_, axes)):
            araise(ValueError, "cannot broadcast to the requested shape")
        z = tn.filled(axes, A.ZERO, t.kind, t.dtype)
        return tn.mapped(lambda p, q: p, [t, z], dtype=t.dtype)

    d["broadcast_to"] = Model(broadcast_to, "broadcast_to")

    def broadcast_arrays(*args):
        ts = [up(a, *args) for a in args]
        return tuple(tn.mapped(lambda *e, k=k: e[k], ts, dtype=ts[k].dtype) for k in range(len(ts)))

    d["broadcast_arrays"] = Model(broadcast_arrays, "broadcast_arrays")
    d["atleast_1d"] = Model(lambda x: _atleast(up_q(x, kind), 1), "atleast_1d")
    d["atleast_2d"] = Model(lambda x: _atleast(up_q(x, kind), 2), "atleast_2d")
    d["dot"] = d["matmul"] = Model(lambda a, b: dot(up(a, b), up(b, a)), "dot")
    d["inner"] = d["dot"]

    def tensordot(a, b, axes=1):
        a, b = up(a, b), up(b, a)
        if axes == 1:
            return dot(a, b)
        if isinstance(axes, (list, tuple)):
            i, j = axes
            i = i[0] if isinstance(i, (list, tuple)) else i
            j = j[0] if isinstance(j, (list, tuple)) else j
            a = moveaxis(a, i, -1)
            b = moveaxis(b, j, 0)
            return dot(a, b) if b.ndim < 3 else araise(ValueError)
        raise Unsupported("tensordot axes")

    d["tensordot"] = Model(tensordot, "tensordot")

    def outer(a, b):
        a, b = up(a, b), up(b, a)
        return arith_t("mul", T(a.data[:, None], (a.axes[0], tn.literal_axis(1)), a.kind, a.dtype), b)

    d["outer"] = Model(outer, "outer")

    def tile(x, reps):
        t = up(x)
        if isinstance(reps, int):
            reps = (reps,)
        r = t
        while r.ndim < len(reps):
            r = T(r.data[None], (tn.literal_axis(1),) + r.axes, r.kind, r.dtype)
        for k, n in enumerate(reps):
            if not isinstance(n, int):
                if tn.is_one(r.axes[k]):
                    ax = tn.axis_from_dim(n)
                    axes = list(r.axes)
                    axes[k] = ax
                    z = tn.filled(axes, A.ZERO, r.kind)
                    r = tn.mapped(lambda p, q: p, [r, z], dtype=r.dtype)
                    continue
                raise Unsupported("tile with a symbolic count")
            r = tn.concat([r] * n, k)
        return r

    d["tile"] = Model(tile, "tile")

    def repeat(x, repeats, axis=None):
        t = up(x)
        n = as_int(repeats)
        if axis is None:
            if t.ndim > 1:
                raise Unsupported("repeat of a flattened array")
            if t.ndim == 0:
                t = _atleast(t, 1)
            axis = 0
        ax = tn.norm_axis(axis, t.ndim)
        if tn.is_one(t.axes[ax]):
            return tn.concat([t] * n, ax)
        if t.axes[ax].generic:
            raise Unsupported("repeat of a symbolic axis")
        axes = list(t.axes)
        axes[ax] = tn.literal_axis(axes[ax].n * n)
        return T(np.repeat(t.data, n, axis=ax), axes, t.kind, t.dtype)

    d["repeat"] = Model(repeat, "repeat")

    def searchsorted(a, v, side="left", sorter=None):
        a, v = up(a, v), up(v, a)
        if a.ndim != 1 or a.axes[0].generic:
            raise Unsupported("searchsorted on an axis of unknown length")

        def f(x):
            tot = A.ZERO
            for e in a.flat():
                # left: number of entries strictly below x; right: <= x
                tot = tot + (A.gt0(x - e) if side == "left" else A.ONE - A.gt0(e - x))
            return tot

        return tn.mapped(f, [v], kind=k_of((a, v), kind), dtype="int64")

    d["searchsorted"] = Model(searchsorted, "searchsorted")
    d["digitize"] = Model(lambda x, bins, right=False: searchsorted(bins, x, "left" if right else "right"), "digitize")

    def flip(x, axis=None):
        t = up(x)
        ax = 0 if axis is None and t.ndim == 1 else tn.norm_axis(axis, t.ndim)
        sl = [slice(None)] * t.ndim
        sl[ax] = slice(None, None, -1)
        return tn.getitem(t, tuple(sl))

    d["flip"] = Model(flip, "flip")

    def isclose(a, b, rtol=F(1, 10**5), atol=F(1, 10**8), equal_nan=False):
        a, b = up(a, b), up(b, a)
        return tn.mapped(
            lambda p, q: A.ONE - A.gt0(A.fn("abs", p - q) - ex(atol) - ex(rtol) * A.fn("abs", q)),
            [a, b], dtype="bool",
        )

    d["isclose"] = Model(isclose, "isclose")
    d["isnan"] = Model(lambda x: tn.filled(up(x).axes, A.ZERO, k_of((x,), kind), "bool"), "isnan")
    d["isinf"] = Model(lambda x: tn.filled(up(x).axes, A.ZERO, k_of((x,), kind), "bool"), "isinf")
    d["isfinite"] = Model(lambda x: tn.filled(up(x).axes, A.ONE, k_of((x,), kind), "bool"), "isfinite")
    bare = lambda x: x.v if isinstance(x, Quantity) else up(x)
    d["shape"] = Model(lambda x: shape_tuple(bare(x)), "shape")
    d["size"] = Model(lambda x: size_of(bare(x)), "size")
    d["ndim"] = Model(lambda x: bare(x).ndim, "ndim")
    d["pi"] = T(A.PI, (), "py")
    d["inf"] = T(A.INF, (), "py")
    d["nan"] = T(A.NAN, (), "py")
    d["newaxis"] = None
    d["float64"] = d["double"] = DType("float64")
    d["float32"] = DType("float32")
    d["int64"] = d["int32"] = DType("int64")
    d["bool_"] = DType("bool")

    def argfold(better):
        def f(x, axis=None):
            t = up(x)
            if axis is None:
                if t.ndim != 1:
                    raise Unsupported("argmax of a flattened array")
                axis = 0
            ax = tn.norm_axis(axis, t.ndim)
            if t.axes[ax].generic:
                raise Unsupported("argmax over an axis of unknown length")
            dm = np.moveaxis(t.data, ax, 0)
            out = np.empty(dm.shape[1:], dtype=object)
            for q in np.ndindex(*dm.shape[1:]):
                best, bi = dm[(0,) + q], A.ZERO
                for j in range(1, dm.shape[0]):
                    e = dm[(j,) + q]
                    s = A.gt0(e - best) if better == "max" else A.gt0(best - e)
                    best = A.switch(s, e, best)
                    bi = A.switch(s, ex(j), bi)
                out[q] = bi
            return T(out, [a for k, a in enumerate(t.axes) if k != ax], t.kind, "int64")
        return f

    d["argmax"] = Model(argfold("max"), "argmax")
    d["argmin"] = Model(argfold("min"), "argmin")

    def take(a, indices, axis=None):
        t = up(a)
        i = up(indices) if not isinstance(indices, int) else indices
        if axis is None:
            if t.ndim != 1:
                raise Unsupported("take from a flattened array")
            axis = 0
        ax = tn.norm_axis(axis, t.ndim)
        sl = [slice(None)] * t.ndim
        sl[ax] = i
        return tn.getitem(t, tuple(sl))

    d["take"] = Model(take, "take")

    def meshgrid(*xs, indexing="xy"):
        raise Unsupported("meshgrid")

    d["meshgrid"] = Model(meshgrid, "meshgrid")

    def einsum(spec, *ops_, **kw):
        if not isinstance(spec, str) or "." in spec:
            raise Unsupported("einsum specification")
        spec = spec.replace(" ", "")
        ins, arrow, out = spec.partition("->")
        ins = ins.split(",")
        ops_ = [up(o, *ops_) for o in ops_]
        if len(ins) != len(ops_) or any(len(l) != o.ndim for l, o in zip(ins, ops_)):
            araise(ValueError, "einsum subscripts do not match the operands")
        letters = sorted(set("".join(ins)))
        if not arrow:
            out = "".join(c for c in letters if "".join(ins).count(c) == 1)
        order = list(out) + [c for c in letters if c not in out]
        aligned = []
        for l, o in zip(ins, ops_):
            if len(set(l)) != len(l):
                raise Unsupported("einsum diagonal")
            perm = [l.index(c) for c in order if c in l]
            t = transpose(o, perm) if perm else o
            dd, axes, k = t.data, [], 0
            idx = tuple(slice(None) if c in l else None for c in order)
            dd = dd[idx] if idx else dd
            for c in order:
                if c in l:
                    axes.append(t.axes[k])
                    k += 1
                else:
                    axes.append(tn.literal_axis(1))
            aligned.append(T(dd, axes, t.kind, t.dtype))
        r = aligned[0]
        for t in aligned[1:]:
            r = arith_t("mul", r, t)
        n = len(order) - len(out)
        return tsum(r, tuple(range(len(out), len(order)))) if n else r

    d["einsum"] = Model(einsum, "einsum")

    def ptp(x, axis=None):
        t = up(x)
        return arith_t("sub", tmax(t, norm_ax(axis)), tmin(t, norm_ax(axis)))

    d["ptp"] = Model(ptp, "ptp")

    def cumprod(x, axis=None):
        t = up(x)
        if axis is None:
            if t.ndim != 1:
                raise Unsupported("cumprod of a flattened array")
            axis = 0
        ax = tn.norm_axis(axis, t.ndim)
        if t.axes[ax].generic:
            raise Unsupported("cumprod over an axis of unknown length")
        return T(np.cumprod(t.data, axis=ax), t.axes, t.kind, t.dtype)

    d["cumprod"] = Model(cumprod, "cumprod")

    def eye(n, m=None, k=0, dtype=None):
        n = as_int(n)
        m = n if m is None else as_int(m)
        data = np.empty((n, m), dtype=object)
        for i in range(n):
            for j in range(m):
                data[i, j] = A.ONE if j - i == k else A.ZERO
        return T(data, (tn.literal_axis(n), tn.literal_axis(m)), kind)

    d["eye"] = d["identity"] = Model(eye, "eye")

    def diag(x, k=0):
        t = up(x)
        if k or any(a.n is None for a in t.axes):
            raise Unsupported("diag on this shape")
        if t.ndim == 1:
            n = t.axes[0].n
            data = np.empty((n, n), dtype=object)
            data[:] = A.ZERO
            for i in range(n):
                data[i, i] = t.data[i]
            return T(data, (t.axes[0], t.axes[0]), t.kind, t.dtype)
        n = min(a.n for a in t.axes)
        data = np.empty(n, dtype=object)
        for i in range(n):
            data[i] = t.data[i, i]
        return T(data, (tn.literal_axis(n),), t.kind, t.dtype)

    d["diag"] = d["diagonal"] = Model(diag, "diag")
    d["trace"] = Model(lambda x: tsum(diag(x)), "trace")
    d["vdot"] = Model(lambda a, b: tsum(arith_t("mul", up(a, b), up(b, a))), "vdot")

    def roll(x, shift, axis=None):
        t = up(x)
        n = as_int(shift)
        ax = 0 if axis is None and t.ndim == 1 else tn.norm_axis(axis, t.ndim)
        if t.axes[ax].generic or t.axes[ax].n is None:
            raise Unsupported("roll of an axis of unknown length")
        return T(np.roll(t.data, n, axis=ax), t.axes, t.kind, t.dtype)

    d["roll"] = Model(roll, "roll")

    def tri(keep):
        def f(x, k=0):
            t = up(x)
            if t.ndim != 2 or any(a.generic for a in t.axes):
                raise Unsupported("triangle of this shape")
            data = t.data.copy()
            for i in range(data.shape[0]):
                for j in range(data.shape[1]):
                    if not keep(i, j, k):
                        data[i, j] = A.ZERO
            return T(data, t.axes, t.kind, t.dtype)
        return f

    d["tril"] = Model(tri(lambda i, j, k: j - i <= k), "tril")
    d["triu"] = Model(tri(lambda i, j, k: j - i >= k), "triu")

    def dstack(tup):
        items = [_atleast(lift(i, kind), 2) for i in tup]
        items = [T(i.data[..., None], i.axes + (tn.literal_axis(1),), i.kind, i.dtype) if i.ndim == 2 else i for i in items]
        return tn.concat(items, 2, kind=k_of(items, kind))

    d["dstack"] = Model(dstack, "dstack")
    d["append"] = Model(lambda a, v, axis=None: concatenate([a, v if isinstance(v, T) and v.ndim else up(v) if lift(v).ndim else _atleast(up(v), 1)], axis), "append")

    def logspace(start, stop, num=50, endpoint=True, base=10):
        t = linspace(start, stop, num, endpoint)
        return tn.mapped(lambda e: A.fn("exp", e * A.fn("log", ex(base))), [t])

    d["logspace"] = Model(logspace, "logspace")
    d["ediff1d"] = Model(lambda x: diff(x), "ediff1d")

    d["count_nonzero"] = Model(lambda x, axis=None: tsum(tn.mapped(lambda e: A.ONE - A.eq0(e), [up(x)], dtype="int64"), norm_ax(axis)), "count_nonzero")
    d["array_equal"] = Model(lambda *a, **k: (_ for _ in ()).throw(Unsupported("array_equal")))

    def sort(x, axis=-1, kind=None):
        t = up(x)
        if t.ndim != 1 or t.axes[0].generic or t.axes[0].parent is not None:
            raise Unsupported("sort on this shape")
        ip_ = IP[0]
        vals = [T(e, (), "py", t.dtype) for e in t.data]
        return tn.stack([lift(v, t.kind) for v in ip_.builtins["sorted"].f(vals)], kind=t.kind)

    d["sort"] = Model(sort, "sort")

    def median(x, axis=None):
        s = sort(x)
        n = s.axes[0].n
        if n % 2:
            return tn.getitem(s, n // 2)
        return arith_t("truediv", arith_t("add", tn.getitem(s, n // 2 - 1), tn.getitem(s, n // 2)), lift(2))

    d["median"] = Model(median, "median")
    d["argwhere"] = Model(lambda c: transpose(tn.stack([lift(i, kind) for i in nonzero(c)], axis=0)), "argwhere")
    return d


IP = [None]  # the interpreter whose models were built last


class DType:
    def __init__(self, dt):
        self.dt = dt

    def abs_call(self, ip, args, kw):
        (x,) = args
        return cast(lift(x, "np"), self.dt)

    def abs_compare(self, ip, op, other, rev):
        o = other.dt if isinstance(other, DType) else other
        try:
            o = dtype_name(o)
        except Unsupported:
            return op == "NotEq"
        return (o == dtype_name(self.dt)) == (op == "Eq")

    def __str__(self):
        return self.dt

    def abs_getattr(self, ip, name):
        if name == "name":
            return self.dt
        if name == "kind":
            return {"float64": "f", "int64": "i", "bool": "b"}[self.dt]
        araise(AttributeError, name)


def _named(f, n):
    return f


def up_q(x, kind):
    if not isinstance(x, T) and getattr(x, "abs_atleast", None):
        return x
    return lift(x, k_of((x,), kind))


def _atleast(t, n):
    if not isinstance(t, T):
        return t.abs_atleast(n)
    d, axes = t.data, list(t.axes)
    while d.ndim < n:
        d = d[None]
        axes.insert(0, tn.literal_axis(1))
    r = T(d, axes, t.kind if t.kind != "py" else "np", t.dtype)
    r.owner = t.owner
    return r


def norm_ax(axis):
    if axis is None or isinstance(axis, (tuple, list)):
        return axis
    return as_int(axis)


def as_int(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, T):
        c = v.const()
        if c is not None and c.denominator == 1 and v.dtype != "float64":
            return int(c)
        if c is None:
            raise Unsupported("symbolic integer argument")
    if isinstance(v, F) or isinstance(v, T):
        araise(TypeError, "'float' object cannot be interpreted as an integer")
    araise(TypeError, "an integer is required")


def transpose(t, axes=None):
    if axes is None:
        axes = list(range(t.ndim))[::-1]
    axes = [tn.norm_axis(a, t.ndim) for a in axes]
    return T(t.data.transpose(axes), [t.axes[a] for a in axes], t.kind, t.dtype)


def arange_for(ax, kind):
    """The vector of positions along an axis."""
    if ax.parent is None and ax.n is not None:
        data = np.empty(ax.n, dtype=object)
        data[:] = [ex(i) for i in range(ax.n)]
        r = T(data, (ax,), kind, "int64")
        r.idx = ax
        return r
    if ax.parent is None:
        data = np.empty(1, dtype=object)
        data[0] = A.sym("i_%s" % (ax.name or ax.id), lo=0, flags=("int",))
        VARYING.setdefault(repr(ax.length), set()).add("i_%s" % (ax.name or ax.id))
        r = T(data, (ax,), kind, "int64")
        r.idx = ax
        return r
    # positions within a selection: not expressible elementwise
    raise Unsupported("positions along a selected axis")


def do_arange(start, stop, step, kind, dtype=None):
    s0, s1, st = lift(start), lift(stop), lift(step)
    if s0.ndim or s1.ndim or st.ndim:
        raise Unsupported("arange of arrays")
    a, b, h = s0.item(), s1.item(), st.item()
    dt = tn.promote_dtype([s0, s1, st])
    if dtype is not None:
        dt = dtype_name(dtype)
    n = (b - a) / h
    c = n.const()
    if c is None and A.zero_test(n - A.floor(n)) is False:
        # a constant hidden in a non-canonical form
        for k in range(0, 64):
            pass
    if c is None:
        nn = _const_of(n)
        if nn is not None:
            c = nn
    if c is not None:
        cnt = max(0, -((-c).__floor__()))
        data = np.empty(cnt, dtype=object)
        data[:] = [a + h * i for i in range(cnt)]
        r = T(data, (tn.literal_axis(cnt),), kind, dt)
        if a.const() == 0 and h.const() == 1:
            r.idx = r.axes[0]
        return r
    cnt = -A.floor(-n)
    ax = tn.axis_for_length(cnt)
    i = arange_for(ax, kind)
    if a.const() == 0 and h.const() == 1:
        r = T(i.data, i.axes, kind, dt)
        r.idx = ax
        return r
    r = tn.mapped(lambda e: a + h * e, [i], dtype=dt)
    r.kind = kind
    return r


def _const_of(e):
    """Rational value of an expression that is constant only after clearing."""
    # e = c  <=>  e - c == 0; find c from the cleared numerator/denominator
    for m, c in e.d.items():
        pass
    # try: small rationals from dominant monomial ratios
    num = A.reduced(e)
    one = None
    # reconstruct the clearing factor by clearing e*1 next to a marker symbol
    mk = A.sym("$marker")
    both = A.reduced(e + mk)
    mid = next(iter(mk.d))[0][0]
    n, d = {}, {}
    for m, c in both.d.items():
        dm = dict(m)
        if mid in dm:
            d[tuple(x for x in m if x[0] != mid)] = c
        else:
            n[m] = c
    if not n or not d:
        return F(0) if not n else None
    m0 = next(iter(n))
    if m0 not in d:
        return None
    q = n[m0] / d[m0]
    return q if A.zero_test(e - ex(q)) else None


def shape_tuple(t):
    return tuple(tn.dim_value(a) for a in t.axes)


def size_of(t):
    n = A.ONE
    for a in t.axes:
        n = n * a.length
    c = n.const()
    if c is not None:
        return int(c)
    return T(n, (), "py", "int64")


# ---------------------------------------------------------------------------
# methods of array values


def t_attr(ip, t, name):
    np_ = ip.np_table if t.kind != "pt" else ip.pt_table
    if name == "ndim":
        return t.ndim
    if name == "shape":
        if t.kind == "py":
            araise(AttributeError, "'float' object has no attribute 'shape'")
        return shape_tuple(t)
    if name == "size":
        if t.kind == "py":
            araise(AttributeError, "'float' object has no attribute 'size'")
        return size_of(t)
    if name == "dtype":
        if t.kind == "py":
            araise(AttributeError, "'float' object has no attribute 'dtype'")
        return DType(t.dtype) if t.kind == "np" else t.dtype
    if t.kind == "py":
        if name in ("real",):
            return t
        if name == "is_integer":
            raise Unsupported("is_integer of a symbolic float")
        araise(AttributeError, "'float' object has no attribute %r" % name)
    if name == "T":
        return transpose(t)
    if name in ("real",):
        return t
    if name in ("conj", "conjugate") and t.kind == "np":
        return Model(lambda: t, name)
    if name == "flat":
        return t.flat()
    if name == "astype":
        def astype(dtype, copy=True):
            r = cast(t, dtype)
            if t.kind == "np" and r is t:
                r = T(t.data.copy(), t.axes, t.kind, t.dtype)
                r.idx = t.idx
            if t.kind == "pt" and r is not t:
                r.attrs = {}
            return r
        return Model(astype, "astype")
    if name == "copy":
        def cp(name=None):
            r = T(t.data.copy(), t.axes, t.kind, t.dtype)
            r.idx = t.idx
            return r
        return Model(cp, "copy")
    if name in ("tag",):
        if t.kind == "pt":
            return Tag(t)
        araise(AttributeError, name)
    if name == "eval":
        if t.kind != "pt":
            araise(AttributeError, name)

        def ev(*a, **k):
            ip.events.append(Event("eager_eval", site=ip.site(), trace=ip.trace()))
            r = T(t.data, t.axes, "np", t.dtype)
            return r
        return Model(ev, "eval")
    if name == "item":
        if t.kind == "np":
            return Model(lambda: T(t.item(), (), "py", t.dtype), "item")
        araise(AttributeError, name)
    if name == "tolist":
        if t.kind == "np":
            return Model(lambda: [T(e, (), "py", t.dtype) for e in t.flat()], "tolist")
        araise(AttributeError, name)
    if name == "owner" and t.kind == "pt":
        return None
    if name == "name" and t.kind == "pt":
        return t.name
    if name == "type" and t.kind == "pt":
        return PtType(t)
    if name == "broadcastable" and t.kind == "pt":
        return tuple(tn.is_one(a) for a in t.axes)
    if name == "data" and t.kind == "pt":
        if t.constant:
            ip.events.append(Event("eager_eval", site=ip.site(), trace=ip.trace()))
            return T(t.data, t.axes, "np", t.dtype)
        araise(AttributeError, name)
    if name == "dimshuffle" and t.kind == "pt":
        def dimshuffle(*pat):
            if len(pat) == 1 and isinstance(pat[0], (list, tuple)):
                pat = tuple(pat[0])
            drop = [k for k in range(t.ndim) if k not in [p for p in pat if not isinstance(p, str)]]
            for k in drop:
                if not tn.is_one(t.axes[k]):
                    araise(ValueError, "cannot drop a non-broadcastable dimension")
            order = [p for p in pat if not isinstance(p, str)]
            d = t.data.transpose(order + drop)
            d = d.reshape(d.shape[: len(order)])
            axes = [t.axes[k] for k in order]
            for j, p in enumerate(pat):
                if isinstance(p, str):
                    d = np.expand_dims(d, j)
                    axes.insert(j, tn.literal_axis(1))
            return T(d, axes, t.kind, t.dtype)
        return Model(dimshuffle, "dimshuffle")
    if name == "reshape":
        def rs(*shape, **k):
            if "shape" in k:
                shape = (k["shape"],)
            if len(shape) == 1 and isinstance(shape[0], (tuple, list, T)) and not (
                isinstance(shape[0], T) and shape[0].ndim == 0
            ):
                shape = shape[0]
            return tn.reshape(t, tuple(shape) if isinstance(shape, (list, tuple)) else shape)
        return Model(rs, "reshape")
    if name in ("flatten", "ravel"):
        return Model(lambda ndim=1: tn.reshape(t, (-1,)) if t.ndim != 1 else T(t.data.copy(), t.axes, t.kind, t.dtype), name)
    if name == "transpose":
        return Model(lambda *ax: transpose(t, (ax[0] if len(ax) == 1 and isinstance(ax[0], (tuple, list)) else ax) or None), name)
    if name == "set" and t.kind == "pt":
        return Model(lambda v: tn.set_subtensor(t, v), "set")
    if name == "inc" and t.kind == "pt":
        return Model(lambda v: tn.set_subtensor(t, v, inc=True), "inc")
    if name == "take":
        f = np_["take"]
        return Model(lambda i, axis=None: f.f(t, i, axis), name)
    if name == "fill" and t.kind == "np":
        def fill(v):
            e = lift(v).item()
            ip.np_write(t, tn.filled(t.axes, e, "np").data)
        return Model(fill, "fill")
    if name == "sort":
        raise Unsupported("sort")
    meth = {
        "sum", "mean", "max", "min", "any", "all", "prod", "cumsum", "argmax",
        "argmin", "squeeze", "dot", "clip", "repeat", "round", "nonzero",
        "diff", "swapaxes",
    }
    if t.kind == "pt":
        meth = meth | {
            "sqrt", "sin", "cos", "exp", "log", "arccos", "arcsin", "arctan",
            "floor", "ceil", "zeros_like", "ones_like", "tan", "trunc",
            "log1p", "expm1", "cosh", "sinh", "tanh", "sign_", "arctan2_",
        }
    if name in meth and name in np_:
        f = np_[name]
        return Model(lambda *a, **k: f.f(t, *a, **k), name)
    if name.startswith("__") and name.endswith("__"):
        if name in ("__len__", "__iter__", "__getitem__", "__add__", "__mul__", "__neg__", "__array__", "__float__"):
            return Model(lambda *a: None, name)
    if t.kind == "pt" and t.rv is not None and name == "logp":
        if ip.backend == "pymc3":
            return Model(lambda x: t.rv.logp(x), "logp")
    if name in ("unit", "value", "to", "_exoplanet", "distribution", "iloc", "values", "owner", "tag", "shape_", "eval", "units"):
        araise(AttributeError, "object has no attribute %r" % name)
    if not _real_attr(t.kind, name):
        araise(AttributeError, "object has no attribute %r" % name)
    raise Unsupported("attribute %r of an array value" % name)


def _real_attr(kind, name):
    if kind == "np":
        return hasattr(np.ndarray, name)
    return name in {
        "get_parents", "get_scalar_constant_value", "index", "norm", "std",
        "var", "ptp", "conj", "imag", "fill", "sort", "argsort", "trace",
        "diagonal", "compress", "choose", "get_value", "set_value",
        "auto_name", "clone", "equals", "split", "nnz",
    }


class Tag:
    def __init__(self, t):
        self.t = t

    def abs_getattr(self, ip, name):
        if name in self.t.attrs.get("$tag", {}):
            return self.t.attrs["$tag"][name]
        if name == "test_value" and TEST_VALUES[0]:
            ip.events.append(Event("test_value", site=ip.site()))
            return T(self.t.data, self.t.axes, "np", self.t.dtype)
        araise(AttributeError, name)

    def abs_setattr(self, ip, name, v):
        self.t.attrs.setdefault("$tag", {})[name] = v


TEST_VALUES = [False]


class PtType:
    def __init__(self, t):
        self.t = t

    def abs_getattr(self, ip, name):
        if name == "dtype":
            return self.t.dtype
        if name == "ndim":
            return self.t.ndim
        if name == "shape":
            return tuple(a.n if a.parent is None else None for a in self.t.axes)
        if name == "broadcastable":
            return tuple(tn.is_one(a) for a in self.t.axes)
        raise Unsupported("type.%s" % name)


# ---------------------------------------------------------------------------
# python built-ins


class BuiltinType:
    def __init__(self, name, check, call):
        self.name = name
        self.check = check
        self.call = call

    def abs_call(self, ip, args, kw):
        return self.call(ip, args, kw)

    def abs_getattr(self, ip, name):
        if name == "__name__":
            return self.name
        if self.name == "dict" and name == "fromkeys":
            def fk(keys, v=None):
                return OrderedDict((k, v) for k in ip.iterate(keys))
            return Model(fk)
        if self.name in ("str", "list", "dict"):
            return Model(lambda o, *a, **k: ip.call(ip.getattr(o, name), a, k), name)
        if name == "__new__" or name == "__init__":
            return Model(lambda *a, **k: None)
        araise(AttributeError, name)

    def __repr__(self):
        return "<type %s>" % self.name


def builtins(ip):
    b = {}

    def reg(n, f):
        b[n] = Model(f, n)

    b.update(BUILTIN_EXC)
    b["NotImplemented"] = NotImplemented
    b["Ellipsis"] = Ellipsis
    b["__name__"] = "builtins"
    b["__debug__"] = True

    def isinst(v, t):
        if isinstance(t, tuple):
            return any(isinst(v, x) for x in t)
        if isinstance(t, BuiltinType):
            return bool(t.check(v))
        if isinstance(t, Class):
            return isinstance(v, Obj) and t in v.cls.mro
        if isinstance(t, NTClass):
            return isinstance(v, NTuple) and v.nt.derives(t)
        if isinstance(t, type):
            return isinstance(v, t)
        h = getattr(t, "abs_isinstance", None)
        if h is not None:
            return h(v)
        if isinstance(t, DType):
            return False
        if t is None or isinstance(t, (int, str, F, list, dict, T)):
            araise(TypeError, "isinstance() arg 2 must be a type, a tuple of types, or a union")
        raise Unsupported("isinstance against %r" % (t,))

    ip.isinst = isinst
    reg("isinstance", isinst)

    def issub(c, t):
        if isinstance(t, tuple):
            return any(issub(c, x) for x in t)
        if isinstance(c, Class):
            return t in c.mro
        if isinstance(c, type) and isinstance(t, type):
            return issubclass(c, t)
        return c is t

    reg("issubclass", issub)

    def ln(x):
        if isinstance(x, T):
            if x.kind == "pt":
                araise(TypeError, "object of type 'TensorVariable' has no len()")
            if x.ndim == 0:
                araise(TypeError, "len() of unsized object")
            return tn.dim_value(x.axes[0])
        if isinstance(x, Obj):
            m = x.cls.lookup("__len__")
            if m is not None:
                return ip.call(BoundMethod(m, x), [])
        h = getattr(x, "abs_len", None)
        if h is not None:
            return h(ip)
        if isinstance(x, (list, tuple, dict, str, set, frozenset, range)) or hasattr(x, "__len__"):
            return len(x)
        araise(TypeError, "object of type %s has no len()" % _tn(x))

    reg("len", ln)

    def rng(*a):
        return range(*[as_int(x) for x in a])

    reg("range", rng)
    reg("enumerate", lambda it, start=0: list(enumerate(ip.iterate(it), start)))

    def zp(*its, strict=False):
        if strict:
            ls = [_lst(ip, i) for i in its]
            if len({len(x) for x in ls}) > 1:
                araise(ValueError, "zip() arguments have different lengths")
            return list(zip(*ls))
        return list(zip(*[iter(ip.iterate(i)) for i in its]))

    reg("zip", zp)
    reg("map", lambda f, *its: iter([ip.call(f, list(a)) for a in zip(*[iter(ip.iterate(i)) for i in its])]))
    reg("filter", lambda f, it: iter([x for x in ip.iterate(it) if ip.truth(x if f is None else ip.call(f, [x]))]))
    reg("reversed", lambda it: iter(list(_lst(ip, it))[::-1]))

    def ordering(a, b):
        """-1, 0 or 1: the order of two values, when it is known."""
        if isinstance(a, CmpKey):
            return a.abs_order(b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            for x, y in zip(a, b):
                o = ordering(x, y)
                if o:
                    return o
            return (len(a) > len(b)) - (len(a) < len(b))
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(a, Obj) or isinstance(b, Obj) or a is None or b is None:
                raise Unsupported("ordering %s and %s" % (_tn(a), _tn(b)))
            d = lift(a).item() - lift(b).item()
            c = d.const()
            if c is not None:
                return (c > 0) - (c < 0)
            up, down = A.gt0(d).const(), A.gt0(-d).const()
            if up is None or down is None:
                raise Unsupported("sorting symbolic values")
            return int(up) - int(down)
        if isinstance(a, Obj) or isinstance(b, Obj):
            if ip.truth(ip.compare("Lt", a, b)) if hasattr(ip, "compare") else ip.truth(compare(ip, "Lt", a, b)):
                return -1
            return 1 if ip.truth(compare(ip, "Lt", b, a)) else 0
        return (a > b) - (a < b)

    def srt(it, key=None, reverse=False):
        items = list(_lst(ip, it))
        keys = [ip.call(key, [x]) if key is not None else x for x in items]

        order = sorted(range(len(items)), key=functools.cmp_to_key(lambda i, j: ordering(keys[i], keys[j])), reverse=bool(reverse))
        return [items[i] for i in order]

    reg("sorted", srt)

    def sm(it, start=0):
        v = start
        for x in ip.iterate(it):
            v = ip.binop("add", v, x)
        return v

    reg("sum", sm)
    reg("any", lambda it: any(ip.truth(x) for x in ip.iterate(it)))
    reg("all", lambda it: all(ip.truth(x) for x in ip.iterate(it)))

    def mm(which):
        def f(*a, key=None, default=None):
            items = _lst(ip, a[0]) if len(a) == 1 else list(a)
            items = list(items)
            if not items:
                if default is not None:
                    return default
                araise(ValueError, "empty sequence")
            best = items[0]
            for x in items[1:]:
                p = ip.call(key, [x]) if key is not None else x
                q = ip.call(key, [best]) if key is not None else best
                if isinstance(p, T) or isinstance(q, T):
                    c = compare(ip, "Gt" if which == "max" else "Lt", p, q)
                    if c.kind == "py" or c.kind == "np":
                        e = c.item()
                        if e.const() is None and key is None:
                            best = T(A.switch(e, lift(x).item(), lift(best).item()), (), "py")
                            continue
                    if ip.truth(c):
                        best = x
                elif (p > q) if which == "max" else (p < q):
                    best = x
            return best
        return f

    reg("max", mm("max"))
    reg("min", mm("min"))

    def ab(x):
        if isinstance(x, T):
            return tn.mapped(lambda e: A.fn("abs", e), [x])
        if getattr(x, "abs_ufunc", None):
            return x.abs_ufunc("abs", (x,))
        return abs(x)

    reg("abs", ab)

    def rd(x, n=None):
        if isinstance(x, T):
            return tn.mapped(lambda e: A.floor(e + F(1, 2)), [x])
        return round(x) if n is None else round(x, n)

    reg("round", rd)
    reg("pow", lambda a, c, m=None: ip.binop("pow", a, c))
    reg("divmod", lambda a, c: (ip.binop("floordiv", a, c), ip.binop("mod", a, c)))
    reg("repr", lambda x: ip.to_repr(x))
    reg("print", lambda *a, **k: None)
    reg("id", lambda x: id(x))
    reg("hash", lambda x: hash(x))
    reg("callable", lambda f: isinstance(f, (Func, BoundMethod, Model, Class, Partial, NTClass)) or (isinstance(f, Obj) and f.cls.lookup("__call__") is not None) or hasattr(f, "abs_call"))

    def it(x, *a):
        return iter(list(ip.iterate(x)))

    reg("iter", it)

    def nx(i, *d):
        try:
            return next(i)
        except StopIteration:
            if d:
                return d[0]
            araise(StopIteration)
        except TypeError:
            araise(TypeError, "object is not an iterator")

    reg("next", nx)

    def ga(o, n, *d):
        try:
            return ip.getattr(o, n)
        except AbsRaise as e:
            if d and isinstance(e.exc, AttributeError):
                return d[0]
            raise

    reg("getattr", ga)
    reg("setattr", lambda o, n, v: ip.setattr(o, n, v))
    def hasat(o, n):
        if not isinstance(n, str):
            araise(TypeError, "hasattr(): attribute name must be string")
        return ip.hasattr(o, n)

    reg("hasattr", hasat)

    def delat(o, n):
        if isinstance(o, (Obj, T)) and n in o.attrs:
            del o.attrs[n]
            return
        araise(AttributeError, n)

    reg("delattr", delat)

    def vr(o):
        if isinstance(o, Obj):
            return o.attrs
        if isinstance(o, Module):
            return o.vars
        raise Unsupported("vars")

    reg("vars", vr)
    reg("dir", lambda o=None: sorted(o.vars if isinstance(o, Module) else o.attrs))

    def super2(c, o):
        return SuperObj(c, o)

    reg("super", super2)

    def prop(fget=None, fset=None, fdel=None, doc=None):
        return PropertyObj(fget, fset)

    reg("property", prop)
    reg("staticmethod", lambda f: StaticM(f))
    reg("classmethod", lambda f: ClassM(f))
    reg("slice", lambda *a: slice(*a))
    reg("open", lambda *a, **k: (_ for _ in ()).throw(Unsupported("open")))
    reg("chr", chr)
    reg("ord", ord)
    reg("format", lambda v, s="": format(v, s))

    # types
    def t_int(ip_, a, k):
        if not a:
            return 0
        v = a[0]
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, F):
            return int(v)
        if isinstance(v, str):
            try:
                return int(v, *a[1:])
            except ValueError as e:
                raise AbsRaise(e)
        if isinstance(v, T):
            if v.kind == "pt":
                ip.events.append(Event("eager_eval", site=ip.site(), trace=ip.trace()))
                araise(TypeError, "int() argument must not be a tensor variable")
            if v.data.size != 1 or any(x.generic for x in v.axes):
                araise(TypeError, "only length-1 arrays can be converted")
            c = cast(T(v.item(), (), "py", v.dtype), "int64")
            if c.const() is not None:
                return int(c.const())
            return c
        araise(TypeError, "int() argument must be a number")

    def t_float(ip_, a, k):
        if not a:
            return F(0)
        v = a[0]
        if isinstance(v, (bool, int, F)):
            return F(v)
        if isinstance(v, str):
            if v.strip().lower() in ("inf", "+inf", "infinity"):
                return T(A.INF, (), "py")
            if v.strip().lower() == "-inf":
                return T(-A.INF, (), "py")
            if v.strip().lower() == "nan":
                return T(A.NAN, (), "py")
            try:
                return F(v)
            except ValueError as e:
                raise AbsRaise(e)
        if isinstance(v, T):
            if v.kind == "pt":
                ip.events.append(Event("eager_eval", site=ip.site(), trace=ip.trace()))
                araise(TypeError, "float() argument must not be a tensor variable")
            if v.data.size != 1 or any(x.generic for x in v.axes):
                araise(TypeError, "only length-1 arrays can be converted")
            return T(v.item(), (), "py", "float64")
        if getattr(v, "abs_float", None):
            return v.abs_float(ip)
        araise(TypeError, "float() argument must be a string or a number")

    def t_bool(ip_, a, k):
        return ip.truth(a[0]) if a else False

    def t_list(ip_, a, k):
        return list(_lst(ip, a[0])) if a else []

    def t_tuple(ip_, a, k):
        return tuple(_lst(ip, a[0])) if a else ()

    def t_dict(ip_, a, k):
        d = OrderedDict()
        if a:
            if isinstance(a[0], dict):
                d.update(a[0])
            else:
                for kv in ip.iterate(a[0]):
                    kk, vv = ip.iterate(kv)
                    d[kk] = vv
        d.update(k)
        return d

    def t_set(ip_, a, k):
        return set(_lst(ip, a[0])) if a else set()

    def t_str(ip_, a, k):
        return ip.to_str(a[0]) if a else ""

    def t_type(ip_, a, k):
        if len(a) == 3:
            raise Unsupported("dynamic class creation")
        v = a[0]
        if isinstance(v, Obj):
            return v.cls
        for n in ("bool", "int", "float", "str", "tuple", "list", "dict", "set"):
            if b[n].check(v):
                return b[n]
        if v is None:
            return NONETYPE
        if isinstance(v, BaseException):
            return type(v)
        if isinstance(v, T):
            return NDARRAY if v.kind == "np" else TENSORVAR
        raise Unsupported("type() of %r" % (v,))

    def py_scalar(v, dt):
        return isinstance(v, T) and v.kind == "py" and v.dtype == dt and v.ndim == 0

    b["int"] = BuiltinType("int", lambda v: isinstance(v, int) or py_scalar(v, "int64"), t_int)
    b["float"] = BuiltinType("float", lambda v: isinstance(v, F) or py_scalar(v, "float64"), t_float)
    b["bool"] = BuiltinType("bool", lambda v: isinstance(v, bool), t_bool)
    b["list"] = BuiltinType("list", lambda v: isinstance(v, list), t_list)
    b["tuple"] = BuiltinType("tuple", lambda v: isinstance(v, tuple), t_tuple)
    b["dict"] = BuiltinType("dict", lambda v: isinstance(v, dict), t_dict)
    b["set"] = BuiltinType("set", lambda v: isinstance(v, set), t_set)
    b["frozenset"] = BuiltinType("frozenset", lambda v: isinstance(v, frozenset), lambda i, a, k: frozenset(_lst(ip, a[0])) if a else frozenset())
    b["str"] = BuiltinType("str", lambda v: isinstance(v, str), t_str)
    b["bytes"] = BuiltinType("bytes", lambda v: isinstance(v, bytes), lambda i, a, k: b"")
    b["complex"] = BuiltinType("complex", lambda v: False, lambda i, a, k: araise(TypeError))
    b["type"] = BuiltinType("type", lambda v: isinstance(v, (Class, BuiltinType, type)), t_type)
    b["object"] = object
    return b


def _lst(ip, x):
    return list(ip.iterate(x))


NONETYPE = BuiltinType("NoneType", lambda v: v is None, lambda *a: None)
NDARRAY = BuiltinType("ndarray", lambda v: isinstance(v, T) and v.kind == "np" and (v.ndim > 0 or True), lambda *a: None)
TENSORVAR = BuiltinType("TensorVariable", lambda v: isinstance(v, T) and v.kind == "pt", lambda *a: None)


def py_attr(ip, o, name):
    if isinstance(o, str):
        if name == "format":
            def fmt(*a, **k):
                cv = lambda v: float(v) if isinstance(v, F) else (v if isinstance(v, (int, str)) else ip.to_str(v))
                try:
                    return o.format(*[cv(v) for v in a], **{q: cv(v) for q, v in k.items()})
                except (KeyError, IndexError) as e:
                    raise AbsRaise(e)
            return Model(fmt, "format")
        if name == "join":
            def jn(it):
                items = _lst(ip, it)
                if not all(isinstance(i, str) for i in items):
                    araise(TypeError, "sequence item: expected str instance")
                return o.join(items)
            return Model(jn, "join")
        f = getattr(o, name, None)
        if callable(f):
            def call(*a, **k):
                try:
                    return f(*a, **k)
                except (ValueError, TypeError) as e:
                    raise AbsRaise(e)
            return Model(call, name)
        araise(AttributeError, "'str' object has no attribute %r" % name)
    if isinstance(o, dict):
        if name in ("items", "keys", "values"):
            return Model(lambda: list(getattr(o, name)()) if name != "keys" else KeysView(o), name)
        if name == "get":
            return Model(lambda k, d=None: o.get(k, d), name)
        if name == "pop":
            def pop(k, *d):
                if k in o:
                    ip.mutated(o)
                    return o.pop(k)
                if d:
                    return d[0]
                raise AbsRaise(KeyError(k))
            return Model(pop, name)
        if name == "setdefault":
            def sd(k, d=None):
                if k not in o:
                    ip.mutated(o)
                return o.setdefault(k, d)
            return Model(sd, name)
        if name == "update":
            def upd(*a, **k):
                ip.mutated(o)
                for x in a:
                    o.update(x if isinstance(x, dict) else dict(ip.iterate(x)))
                o.update(k)
            return Model(upd, name)
        if name == "copy":
            def cp():
                r = type(o)(o) if not isinstance(o, DefaultDict) else OrderedDict(o)
                return r
            return Model(cp, name)
        if name == "popitem":
            return Model(lambda last=True: o.popitem(), name)
        if name == "clear":
            return Model(lambda: o.clear(), name)
        araise(AttributeError, "'dict' object has no attribute %r" % name)
    if isinstance(o, list):
        if name in ("append", "extend", "insert", "remove", "clear", "reverse", "pop"):
            def lf(*a):
                ip.mutated(o)
                if name == "extend":
                    a = (_lst(ip, a[0]),)
                try:
                    return getattr(o, name)(*a)
                except (IndexError, ValueError) as e:
                    raise AbsRaise(e)
            return Model(lf, name)
        if name == "copy":
            return Model(lambda: list(o), name)
        if name == "sort":
            def srt(key=None, reverse=False):
                ip.mutated(o)
                o[:] = ip.builtins["sorted"].f(o, key, reverse)
            return Model(srt, name)
        if name in ("index", "count"):
            return Model(lambda v: getattr(o, name)(v), name)
        araise(AttributeError, "'list' object has no attribute %r" % name)
    if isinstance(o, tuple):
        if name in ("index", "count"):
            return Model(lambda v: getattr(o, name)(v), name)
        araise(AttributeError, "'tuple' object has no attribute %r" % name)
    if isinstance(o, (set, frozenset)):
        if hasattr(o, name):
            def sf(*a):
                ip.mutated(o)
                return getattr(o, name)(*[set(_lst(ip, x)) if not isinstance(x, (str, int)) else x for x in a])
            return Model(sf, name)
        araise(AttributeError, name)
    if isinstance(o, (bool, int, F)):
        if name == "is_integer":
            return Model(lambda: F(o).denominator == 1, name)
        if name in ("real", "numerator", "denominator") and not isinstance(o, F):
            return getattr(o, name)
        araise(AttributeError, "number has no attribute %r" % name)
    if o is None:
        araise(AttributeError, "'NoneType' object has no attribute %r" % name)
    if isinstance(o, BaseException):
        if name == "args":
            return o.args
        if hasattr(o, "abs_obj"):
            return ip.getattr(o.abs_obj, name)
        if name == "with_traceback":
            return Model(lambda tb: o)
        araise(AttributeError, name)
    if isinstance(o, PropertyObj):
        if name == "setter":
            def st(f):
                return PropertyObj(o.fget, f)
            return Model(st)
        if name == "fget":
            return o.fget
    if isinstance(o, Partial):
        if name in ("func", "args"):
            return getattr(o, name)
        if name == "keywords":
            return o.kwargs
        araise(AttributeError, name)
    if isinstance(o, type) and issubclass(o, BaseException):
        if name == "__name__":
            return o.__name__
    if isinstance(o, range):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
    if name in ("__exoplanet_unit__",):
        araise(AttributeError, name)
    raise Unsupported("attribute %r of %s" % (name, _tn(o)))


class KeysView(list):
    def __init__(self, d):
        super().__init__(d.keys())


# ---------------------------------------------------------------------------
# astropy units


class UnitVal:
    """scale: Expr in SI; dims: base-dimension exponents."""

    def __init__(self, scale, dims, name=""):
        self.scale = ex(scale)
        self.dims = {k: v for k, v in dims.items() if v}
        self.name = name

    def __repr__(self):
        return "Unit(%s)" % (self.name or self.dims)

    def combine(self, o, s):
        d = dict(self.dims)
        for k, v in o.dims.items():
            d[k] = d.get(k, 0) + s * v
        return UnitVal(self.scale * A.power(o.scale, s), d, "%s%s%s" % (self.name, "*" if s > 0 else "/", o.name))

    def abs_binop(self, ip, op, other, rev):
        if isinstance(other, UnitVal):
            if op == "mul":
                return self.combine(other, 1)
            if op == "truediv":
                return self.combine(other, 1) if False else (
                    other.combine(self, -1) if rev else self.combine(other, -1)
                )
            araise(TypeError, "unsupported unit operation")
        if op == "pow" and not rev:
            q = num(other)
            return UnitVal(A.power(self.scale, q), {k: v * q for k, v in self.dims.items()}, "(%s)**%s" % (self.name, q))
        if isinstance(other, Quantity):
            return NotImplemented
        if isinstance(other, (int, F, T, list, tuple)) and not isinstance(other, bool):
            if isinstance(other, T) and other.kind == "pt":
                araise(TypeError, "cannot make a Quantity from a tensor variable")
            v = lift(other)
            if op == "mul":
                return Quantity(v, self)
            if op == "truediv" and rev:
                return Quantity(v, UnitVal(1, {}).combine(self, -1))
            if op == "truediv":
                return Quantity(tn.mapped(lambda e: A.ONE / e, [v]), self)
        araise(TypeError, "unsupported unit operation")

    def abs_getattr(self, ip, name):
        if name == "to":
            def to(other, value=1, equivalencies=None):
                o = as_unit(other)
                f = self.factor(o)
                if isinstance(value, int) and value == 1:
                    return num_or_t(f)
                v = lift(value)
                return tn.mapped(lambda e: e * f, [v])
            return Model(to, "to")
        if name == "is_equivalent":
            return Model(lambda o: as_unit(o).dims == self.dims)
        if name in ("decompose", "si", "cgs"):
            if name == "decompose":
                return Model(lambda: UnitVal(self.scale, self.dims, "si"))
            return UnitVal(self.scale, self.dims, "si")
        if name == "scale":
            return num_or_t(self.scale)
        if name == "physical_type":
            return str(sorted(self.dims.items()))
        if name in ("name", "to_string"):
            return self.name if name == "name" else Model(lambda *a: self.name)
        if name == "__exoplanet_unit__":
            araise(AttributeError, name)
        raise Unsupported("unit attribute %s" % name)

    def factor(self, o):
        if self.dims != o.dims:
            raise AbsRaise(UnitConversionError("'%s' and '%s' are not convertible" % (self, o)))
        return self.scale / o.scale

    def abs_compare(self, ip, op, other, rev):
        if op in ("Eq", "NotEq"):
            same = isinstance(other, UnitVal) and other.dims == self.dims and (self.scale - other.scale).is_zero()
            return same == (op == "Eq")
        return NotImplemented


class UnitConversionError(TypeError, ValueError):
    pass


def num(x):
    if isinstance(x, T):
        c = x.const()
        if c is None:
            raise Unsupported("symbolic exponent")
        return c
    return F(x)


def num_or_t(e):
    c = e.const()
    if c is not None:
        return F(c)
    return T(e, (), "py")


def as_unit(o):
    if isinstance(o, UnitVal):
        return o
    if isinstance(o, Quantity):
        return UnitVal(o.unit.scale * o.v.item(), o.unit.dims)
    if isinstance(o, str):
        if o in UNITS:
            return UNITS[o]
        if o == "":
            return DIMLESS
        raise Unsupported("unit string %r" % o)
    if o is None:
        return DIMLESS
    araise(TypeError, "not a unit: %r" % (o,))


class Quantity:
    """An astropy Quantity: numpy data plus a unit."""

    def __init__(self, v, unit):
        self.v = v
        self.unit = unit

    def __repr__(self):
        return "Quantity(%r, %r)" % (self.v, self.unit)

    def conv(self, u):
        f = self.unit.factor(u)
        if f.const() == 1:
            return self.v
        return tn.mapped(lambda e: e * f, [self.v], dtype="float64")

    def abs_binop(self, ip, op, other, rev):
        if isinstance(other, T) and other.kind == "pt":
            araise(TypeError, "cannot combine a Quantity and a tensor variable")
        if isinstance(other, UnitVal):
            if op == "mul":
                return Quantity(self.v, self.unit.combine(other, 1))
            if op == "truediv" and not rev:
                return Quantity(self.v, self.unit.combine(other, -1))
            if op == "truediv":
                return Quantity(tn.mapped(lambda e: A.ONE / e, [self.v]), other.combine(self.unit, -1))
            araise(TypeError, "unsupported")
        if op == "pow" and not rev:
            q = num(other)
            return Quantity(tn.mapped(lambda e: A.power(e, q), [self.v]), UnitVal(A.power(self.unit.scale, q), {k: x * q for k, x in self.unit.dims.items()}))
        if isinstance(other, Quantity):
            o = other
        elif isinstance(other, (int, F, T, list, tuple)):
            o = Quantity(lift(other), DIMLESS)
        else:
            araise(TypeError, "unsupported Quantity operand")
        x, y = (o, self) if rev else (self, o)
        if op in ("add", "sub", "mod", "floordiv"):
            if not x.unit.dims and not x.unit.scale.const() == 1 and False:
                pass
            yv = y.conv(x.unit)
            return Quantity(arith_t(op, x.v, yv), x.unit)
        if op == "mul":
            return Quantity(arith_t("mul", x.v, y.v), x.unit.combine(y.unit, 1))
        if op == "truediv":
            return Quantity(arith_t("truediv", x.v, y.v), x.unit.combine(y.unit, -1))
        raise Unsupported("Quantity %s" % op)

    def abs_unary(self, ip, op):
        return Quantity(tn.mapped(lambda e: -e if op == "neg" else e, [self.v]), self.unit)

    def abs_compare(self, ip, op, other, rev):
        if isinstance(other, Quantity):
            o = other.conv(self.unit)
        elif isinstance(other, (int, F, T)):
            o = Quantity(lift(other), DIMLESS).conv(self.unit)
        else:
            return op == "NotEq"
        a, b = (o, self.v) if rev else (self.v, o)
        return tn.mapped(lambda p, q: cmp_expr(op, p, q), [a, b], dtype="bool")

    def abs_getattr(self, ip, name):
        if name == "value":
            return self.v if self.v.ndim or self.v.const() is None else num_or_t(self.v.item())
        if name == "unit":
            return self.unit
        if name == "to":
            return Model(lambda u, equivalencies=None: Quantity(self.conv(as_unit(u)), as_unit(u)), "to")
        if name == "to_value":
            return Model(lambda u=None: self.conv(as_unit(u)) if u is not None else self.v, "to_value")
        if name == "decompose":
            return Model(lambda: Quantity(tn.mapped(lambda e: e * self.unit.scale, [self.v]), UnitVal(1, self.unit.dims)))
        if name in ("shape", "ndim", "size", "dtype"):
            return t_attr(ip, self.v if self.v.kind != "py" else T(self.v.data, self.v.axes, "np"), name)
        if name == "isscalar":
            return self.v.ndim == 0
        if name == "T":
            return Quantity(transpose(self.v), self.unit)
        if name in ("sum", "mean", "max", "min"):
            f = {"sum": tsum, "mean": tmean, "max": tmax, "min": tmin}[name]
            return Model(lambda axis=None: Quantity(f(self.v, axis), self.unit))
        if name == "__exoplanet_unit__":
            araise(AttributeError, name)
        araise(AttributeError, "Quantity has no attribute %r" % name)

    def abs_getitem(self, ip, i):
        return Quantity(tn.getitem(self.v, i), self.unit)

    def abs_iter(self, ip):
        return [Quantity(x, self.unit) for x in ip.iterate(self.v)]

    def abs_len(self, ip):
        if self.v.ndim == 0:
            araise(TypeError, "'Quantity' object with a scalar value has no len()")
        return tn.dim_value(self.v.axes[0])

    def abs_float(self, ip):
        if self.unit.dims:
            araise(TypeError, "only dimensionless scalar quantities can be converted to Python scalars")
        return T(self.v.item() * self.unit.scale, (), "py")

    def abs_like(self, value):
        return Quantity(tn.filled(self.v.axes, ex(value), "np"), self.unit)

    def abs_atleast(self, n):
        return Quantity(_atleast(self.v, n), self.unit)

    def abs_reduce(self, f, axis):
        if f in (tany, tall):
            return f(self.v, axis)
        return Quantity(f(self.v, axis), self.unit)

    def abs_ufunc(self, name, args):
        if name in ("sqrt",):
            return Quantity(tn.mapped(lambda e: A.power(e, F(1, 2)), [self.v]), UnitVal(A.power(self.unit.scale, F(1, 2)), {k: F(x) / 2 for k, x in self.unit.dims.items()}))
        if name == "square":
            return Quantity(tn.mapped(lambda e: e * e, [self.v]), UnitVal(self.unit.scale * self.unit.scale, {k: x * 2 for k, x in self.unit.dims.items()}))
        if name == "abs":
            return Quantity(tn.mapped(lambda e: A.fn("abs", e), [self.v]), self.unit)
        if name in ("sin", "cos", "tan"):
            if self.unit.dims not in ({}, {"rad": 1}):
                araise(TypeError, "Can only apply trigonometric function to quantities with angle units")
            return Quantity(tn.mapped(lambda e: A.fn(name, e * self.unit.scale), [self.v]), DIMLESS)
        if name == "arctan2":
            a, b = args
            a = a.v if isinstance(a, Quantity) else lift(a)
            b = b.conv(args[0].unit) if isinstance(b, Quantity) else lift(b)
            return Quantity(tn.mapped(lambda p, q: A.fn("arctan2", p, q), [a, b]), UNITS["rad"])
        if not self.unit.dims:
            return Quantity(tn.mapped(lambda e: A.fn(name, e * self.unit.scale), [self.v]), DIMLESS)
        araise(TypeError, "Can only apply %r to dimensionless quantities" % name)


DIMLESS = UnitVal(1, {}, "")


def _mk_units():
    R_sun = A.pos("R_sun[m]")
    M_sun = A.pos("M_sun[kg]")
    R_earth = A.pos("R_earth[m]")
    M_earth = A.pos("M_earth[kg]")
    R_jup = A.pos("R_jup[m]")
    M_jup = A.pos("M_jup[kg]")
    au = ex(149597870700)
    L = {"m": 1}
    M = {"kg": 1}
    S = {"s": 1}
    R = {"rad": 1}
    u = {}

    def d(names, scale, dims):
        for n in names.split():
            u[n] = UnitVal(scale, dims, n)

    d("m meter", 1, L)
    d("km kilometer", 1000, L)
    d("cm centimeter", F(1, 100), L)
    d("mm", F(1, 1000), L)
    d("au AU astronomical_unit", au, L)
    d("R_sun Rsun solRad", R_sun, L)
    d("R_earth Rearth earthRad", R_earth, L)
    d("R_jup R_jupiter Rjup jupiterRad", R_jup, L)
    d("pc parsec", au * 648000 / A.PI, L)
    d("kg kilogram", 1, M)
    d("g gram", F(1, 1000), M)
    d("M_sun Msun solMass", M_sun, M)
    d("M_earth Mearth earthMass", M_earth, M)
    d("M_jup M_jupiter Mjup jupiterMass", M_jup, M)
    d("s second", 1, S)
    d("min minute", 60, S)
    d("h hour hr", 3600, S)
    d("d day", 86400, S)
    d("yr year", 31557600, S)
    d("rad radian", 1, R)
    d("deg degree", A.PI / 180, R)
    d("arcmin", A.PI / 10800, R)
    d("arcsec", A.PI / 648000, R)
    d("mas", A.PI / 648000000, R)
    d("Hz hertz", 1, {"s": -1})
    u["one"] = u["dimensionless_unscaled"] = DIMLESS
    u["percent"] = UnitVal(F(1, 100), {}, "%")
    u["ppm"] = UnitVal(F(1, 10**6), {}, "ppm")
    return u


UNITS = _mk_units()
G_SI = A.pos("G[SI]")
C_SI = ex(299792458)

# Values used only to evaluate the package's literal fallbacks (astropy's
# nominal/CODATA 2018 values).
NOMINAL = {
    "R_sun[m]": 6.957e8,
    "M_sun[kg]": 1.988409870698051e30,
    "G[SI]": 6.6743e-11,
    "R_earth[m]": 6.3781e6,
    "M_earth[kg]": 5.972167867791379e24,
    "R_jup[m]": 7.1492e7,
    "M_jup[kg]": 1.8981245973360505e27,
}


def units_module(ip):
    d = dict(UNITS)

    def quantity(value, unit=None, dtype=None, copy=True, **k):
        un = as_unit(unit) if unit is not None else None
        if isinstance(value, Quantity):
            return value if un is None else Quantity(value.conv(un), un)
        if isinstance(value, (list, tuple)) and any(isinstance(v, Quantity) for v in value):
            uu = un or value[0].unit
            return Quantity(tn.stack([v.conv(uu) for v in value]), uu)
        if isinstance(value, T) and value.kind == "pt":
            araise(TypeError, "The value must be a valid Python or Numpy numeric type.")
        if isinstance(value, UnitVal):
            araise(TypeError, "only numbers can become a Quantity")
        return Quantity(lift(value, "np"), un or DIMLESS)

    q = ClassModel("Quantity", quantity, lambda v: isinstance(v, Quantity))
    d["Quantity"] = q
    d["Unit"] = ClassModel("Unit", lambda x, *a: as_unit(x), lambda v: isinstance(v, UnitVal))
    d["UnitBase"] = ClassModel("UnitBase", lambda *a: araise(TypeError), lambda v: isinstance(v, UnitVal))
    d["UnitConversionError"] = UnitConversionError
    d["UnitsError"] = ValueError
    d["UnitTypeError"] = TypeError
    return ExtModule("astropy.units", d)


class ClassModel:
    """A library class: callable, usable with isinstance."""

    def __init__(self, name, call, check):
        self.name = name
        self._call = call
        self.check = check
        self.attrs = {}
        self.subscript = None

    def abs_call(self, ip, args, kw):
        import inspect

        try:
            inspect.signature(self._call).bind(*args, **kw)
        except TypeError as e:
            araise(TypeError, "%s: %s" % (self.name, e))
        return self._call(*args, **kw)

    def abs_isinstance(self, v):
        return self.check(v)

    def abs_getattr(self, ip, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == "__name__":
            return self.name
        raise Unsupported("attribute %s of %s" % (name, self.name))

    def __repr__(self):
        return "<class %s>" % self.name


def constants_module(ip):
    def q(v, dims, name):
        return Quantity(T(ex(v), (), "py"), UnitVal(1, dims, name))

    d = {
        "G": q(G_SI, {"m": 3, "kg": -1, "s": -2}, "m3/kg/s2"),
        "c": q(C_SI, {"m": 1, "s": -1}, "m/s"),
        "R_sun": Quantity(lift(1), UNITS["R_sun"]),
        "M_sun": Quantity(lift(1), UNITS["M_sun"]),
        "R_earth": Quantity(lift(1), UNITS["R_earth"]),
        "M_earth": Quantity(lift(1), UNITS["M_earth"]),
        "R_jup": Quantity(lift(1), UNITS["R_jup"]),
        "M_jup": Quantity(lift(1), UNITS["M_jup"]),
        "au": Quantity(lift(1), UNITS["au"]),
        "pc": Quantity(lift(1), UNITS["pc"]),
        "GM_sun": q(G_SI * UNITS["M_sun"].scale, {"m": 3, "s": -2}, "m3/s2"),
    }
    return ExtModule("astropy.constants", d)


# ---------------------------------------------------------------------------
# pytensor.tensor


def tensor_module(ip, name):
    d = common("pt")

    def atv(x, name=None, ndim=None, **kw):
        if isinstance(x, T) and x.kind == "pt":
            r = x
        elif isinstance(x, Quantity):
            # pytensor takes the array and silently loses the unit
            ip.events.append(Event("unit_dropped", site=ip.site()))
            r = T(x.v.data, x.v.axes, "pt", x.v.dtype)
        elif isinstance(x, (Obj, Func, Class, dict, str, UnitVal)) or x is None:
            araise(TypeError, "Cannot convert %r to TensorType" % (_tn(x),))
        else:
            t = lift(x, "pt")
            r = T(t.data, t.axes, "pt", t.dtype)
            r.constant = True
            r.idx = t.idx
        if ndim is not None:
            n = as_int(ndim)
            if r.ndim > n:
                # pytensor drops leading broadcastable dims only
                lead = r.ndim - n
                if all(tn.is_one(a) for a in r.axes[:lead]):
                    r = T(r.data.reshape(r.data.shape[lead:]), r.axes[lead:], "pt", r.dtype)
                else:
                    araise(ValueError, "Tensor cannot be cast to %d dimensions" % n)
            elif r.ndim < n:
                r = pad(r, n - r.ndim, "left")
        return r

    d["as_tensor_variable"] = d["as_tensor"] = Model(atv, "as_tensor_variable")
    d["constant"] = Model(lambda x, name=None, ndim=None, dtype=None: cast(atv(x), dtype) if dtype else atv(x), "constant")
    ip.as_tensor = atv

    def pad(t, n, side):
        t = atv(t)
        n = as_int(n)
        if n < 0:
            araise(ValueError, "negative padding")
        dd, axes = t.data, list(t.axes)
        for _ in range(n):
            if side == "left":
                dd = dd[None]
                axes.insert(0, tn.literal_axis(1))
            else:
                dd = dd[..., None]
                axes.append(tn.literal_axis(1))
        return T(dd, axes, "pt", t.dtype)

    d["shape_padright"] = Model(lambda t, n_ones=1: pad(t, n_ones, "right"), "shape_padright")
    d["shape_padleft"] = Model(lambda t, n_ones=1: pad(t, n_ones, "left"), "shape_padleft")

    def padaxis(t, axis):
        t = atv(t)
        return d["expand_dims"].f(t, axis)

    d["shape_padaxis"] = Model(padaxis, "shape_padaxis")
    d["set_subtensor"] = Model(lambda x, y, inplace=False, tolerate_inplace_aliasing=False: tn.set_subtensor(x, y), "set_subtensor")
    d["inc_subtensor"] = Model(lambda x, y, **k: tn.set_subtensor(x, y, inc=True), "inc_subtensor")
    d["cast"] = Model(lambda x, dtype: cast(atv(x), dtype), "cast")
    d["TensorVariable"] = TENSORVAR
    d["TensorType"] = ClassModel("TensorType", lambda *a, **k: (_ for _ in ()).throw(Unsupported("TensorType")), lambda v: False)
    ex_ = {k: d[k] for k in ("searchsorted", "cumsum", "repeat", "diff", "broadcast_to", "squeeze") if k in d}
    d["extra_ops"] = ExtModule(name + ".extra_ops", ex_)
    sub = {}
    d["subtensor"] = ExtModule(name + ".subtensor", {k: d[k] for k in ("set_subtensor", "inc_subtensor", "take")})
    d["math"] = ExtModule(name + ".math", d)
    d["variable"] = ExtModule(name + ".variable", {"TensorVariable": TENSORVAR})

    def inp(kind_axes):
        raise Unsupported("symbolic inputs")

    def svd(x):
        raise Unsupported("linear algebra")

    d["identity_like"] = Model(lambda *a, **k: (_ for _ in ()).throw(Unsupported("identity_like")))

    def specify(x, *shape):
        return atv(x)

    d["specify_shape"] = Model(specify, "specify_shape")

    def batched_dot(a, b):
        a, b = atv(a), atv(b)
        if a.ndim == 2 and b.ndim == 2:
            return tsum(arith_t("mul", a, b), 1)
        raise Unsupported("batched_dot on this shape")

    d["batched_dot"] = Model(batched_dot, "batched_dot")
    for n in ("append", "array_equal", "argwhere", "vdot", "dstack", "count_nonzero", "ediff1d", "identity"):
        d.pop(n, None)
    if ip.backend == "pymc3":
        d.pop("abs", None)
        for n in ("atan2",):
            d.pop(n, None)
    else:
        d.pop("abs_", None)
    m = ExtModule(name, d)
    ip.pt_table = d
    return m


# ---------------------------------------------------------------------------
# exoplanet_core.ops


def flat_match(ts, what):
    """The compiled operations compare the total sizes of their arguments and
    walk through them element by element."""
    first = ts[0]
    key = [a for a in first.axes if not tn.is_one(a)]
    out = [first]
    for t in ts[1:]:
        k = [a for a in t.axes if not tn.is_one(a)]
        if len(k) != len(key) or not all(tn.same_axis(a, b) for a, b in zip(k, key)):
            araise(ValueError, "%s: dimension mismatch: %r, %r" % (what, first.axes, t.axes))
        if len(t.axes) != len(first.axes) or not all(tn.same_axis(a, b) for a, b in zip(t.axes, first.axes)):
            t = T(t.data.reshape(first.data.shape), first.axes, t.kind, t.dtype)
        out.append(t)
    return out


def ops_module(ip, name):
    def kep(M, ecc):
        M, e = flat_match([ip.as_tensor(M), ip.as_tensor(ecc)], "kepler")
        s = tn.mapped(lambda m, x: A.kepler(m, x)[0], [M, e], kind="pt", dtype="float64")
        c = tn.mapped(lambda m, x: A.kepler(m, x)[1], [M, e], kind="pt", dtype="float64")
        return [s, c]

    def qsv(b, r):
        b, r = flat_match([ip.as_tensor(b), ip.as_tensor(r)], "quad_solution_vector")
        parts = [
            tn.mapped(lambda x, y, k=k: solution_vector(k, x, y), [b, r], kind="pt", dtype="float64")
            for k in range(3)
        ]
        return tn.stack(parts, axis=-1, kind="pt")

    def contact(a, e, cosw, sinw, cosi, sini, L):
        ts = flat_match([ip.as_tensor(x) for x in (a, e, cosw, sinw, cosi, sini, L)], "contact_points")
        return [
            tn.mapped(lambda *v, n=n: A.fn_raw(n, v), ts, kind="pt", dtype="float64")
            for n in ("contact_left", "contact_right", "contact_flag")
        ]

    return ExtModule(
        name,
        {
            "kepler": Model(kep, "kepler"),
            "quad_solution_vector": Model(qsv, "quad_solution_vector"),
            "contact_points": Model(contact, "contact_points"),
        },
    )


def solution_vector(k, b, r):
    return A.shannon(lambda x, y: _sv(k, x, y), [b, r])


def _sv(k, b, r):
    # the solution vector depends on the separation, which is non-negative
    return A.fn_raw("qsv%d" % k, (A.fn("abs", b), r))


# ---------------------------------------------------------------------------
# PyMC


class PModel:
    def __init__(self, ip, name="", parent=None):
        self.ip = ip
        self.name = name
        self.parent = parent
        self.attrs = {}
        self.vars = OrderedDict()

    def prefix(self):
        sep = "::" if self.ip.backend == "pymc" else "_"
        p = ""
        if self.parent is not None:
            p = self.parent.prefix()
        if self.name:
            p = p + self.name + sep
        return p

    def abs_enter(self, ip):
        ip.model_stack.append(self)
        return self

    def abs_exit(self, ip, e):
        ip.model_stack.pop()
        return False

    def abs_getattr(self, ip, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == "name":
            return self.name
        if name == "named_vars":
            return self.vars
        if name == "parent":
            return self.parent
        if name == "register_rv":
            raise Unsupported("register_rv")
        araise(AttributeError, "Model has no attribute %r" % name)

    def abs_setattr(self, ip, name, v):
        self.attrs[name] = v

    def abs_contains(self, ip, k):
        return k in self.vars

    def __repr__(self):
        return "<pm.Model %s>" % self.name


class Dist:
    """An unregistered distribution."""

    def __init__(self, ip, name, params, shape=None, inner=None):
        self.ip = ip
        self.name = name
        self.params = params
        self.shape = shape
        self.inner = inner

    def sig(self):
        return (self.name, tuple(sorted((k, repr(v)) for k, v in self.params.items())))

    def logp(self, x):
        return logp_of(self, lift(x, "pt"))

    def abs_getattr(self, ip, name):
        if name == "logp" and ip.backend == "pymc3":
            return Model(self.logp, "logp")
        araise(AttributeError, name)

    def __repr__(self):
        return "Dist(%s, %r)" % (self.name, self.params)


PARAMS = {
    "Normal": ("mu", "sigma", "tau"),
    "Uniform": ("lower", "upper"),
    "Beta": ("alpha", "beta", "mu", "sigma", "nu"),
    "HalfNormal": ("sigma", "tau"),
    "Weibull": ("alpha", "beta"),
    "Gamma": ("alpha", "beta", "mu", "sigma"),
    "Exponential": ("lam", "scale"),
    "LogNormal": ("mu", "sigma", "tau"),
    "Lognormal": ("mu", "sigma", "tau"),
    "HalfCauchy": ("beta",),
    "StudentT": ("nu", "mu", "sigma", "lam"),
    "TruncatedNormal": ("mu", "sigma", "tau", "lower", "upper"),
    "Flat": (),
    "HalfFlat": (),
    "Dirichlet": ("a",),
    "VonMises": ("mu", "kappa"),
    "Laplace": ("mu", "b"),
    "Kumaraswamy": ("a", "b"),
    "Triangular": ("lower", "upper", "c"),
}
REQUIRED = {"Weibull": ("alpha", "beta"), "HalfCauchy": ("beta",), "StudentT": ("nu",), "Dirichlet": ("a",),
            "Laplace": ("mu", "b"), "Kumaraswamy": ("a", "b")}
GENERIC = {
    "pymc": {"shape", "dims", "observed", "transform", "total_size", "rng", "initval", "default_transform", "size"},
    "pymc3": {"shape", "dims", "observed", "transform", "total_size", "testval", "model"},
}
GENERIC_DIST = {"pymc": {"shape", "size", "rng"}, "pymc3": {"shape", "testval"}}


def logp_of(d, x):
    p = d.params

    def P(k):
        return lift(p[k])

    if d.name == "HalfNormal" and "sigma" in p:
        return tn.mapped(
            lambda v, s: A.fn("log", A.power(ex(2) / A.PI, F(1, 2)) / s) - v * v / (2 * s * s),
            [x, P("sigma")], kind="pt", dtype="float64",
        )
    if d.name == "Weibull":
        return tn.mapped(
            lambda v, a, b: A.fn("log", a) - a * A.fn("log", b) + (a - 1) * A.fn("log", v) - A.power(v / b, a),
            [x, P("alpha"), P("beta")], kind="pt", dtype="float64",
        )
    if d.name == "Truncated":
        ks = sorted(d.inner.params)
        return tn.mapped(
            lambda v, *a: A.fn_raw("logp_Truncated_%s" % d.inner.name, (v,) + a),
            [x, _bnd(p.get("lower"), -1), _bnd(p.get("upper"), 1)] + [lift(d.inner.params[k]) for k in ks],
            kind="pt", dtype="float64",
        )
    ks = sorted(p)
    return tn.mapped(
        lambda v, *a: A.fn_raw("logp_%s_%s" % (d.name, "_".join(ks)), (v,) + a),
        [x] + [lift(p[k]) for k in ks], kind="pt", dtype="float64",
    )


def _bnd(v, s):
    if v is None:
        return T(A.INF * s, (), "py")
    return lift(v)


def pm_module(ip, name):
    d = {}
    ip.model_stack = []
    gen = GENERIC[ip.backend]

    def ctx(model=None):
        if isinstance(model, PModel):
            return model
        if model is not None:
            araise(TypeError, "not a model")
        if ip.model_stack:
            return ip.model_stack[-1]
        araise(TypeError, "No model on context stack, which is needed to instantiate distributions.")

    d["modelcontext"] = Model(ctx, "modelcontext")

    def mk_model(name="", model=None, **k):
        parent = model or (ip.model_stack[-1] if ip.model_stack else None)
        return PModel(ip, name, parent)

    d["Model"] = ClassModel("Model", mk_model, lambda v: isinstance(v, PModel))

    def register(model, vname, kind, t, **info):
        full = model.prefix() + vname
        root = model
        while root.parent is not None:
            root = root.parent
        if full in root.vars:
            araise(ValueError, "Variable name %s already exists." % full)
        root.vars[full] = t
        ip.events.append(Event(kind, name=full, value=t, model=root, site=ip.site(), **info))
        return t

    def rv_axes(params, shape, dims):
        if shape is not None:
            return tn.shape_to_axes(shape)
        if dims is not None:
            return (tn.Axis(name="dims_%s" % (dims,)),)
        al = [lift(v).axes for v in params.values() if v is not None and not isinstance(v, Dist)]
        return tn.broadcast_axes(al) if al else ()

    def make_rv(dist, vname, axes, lo=None, hi=None):
        out = np.empty(tuple(a.size for a in axes), dtype=object)
        for i in np.ndindex(*out.shape):
            nm = "rv:%s%s" % (vname, list(i) if i else "")
            k = 0
            while A.has_sym(nm) and (A.ATOMS[next(iter(A.sym(nm).d))[0][0]].lo, A.ATOMS[next(iter(A.sym(nm).d))[0][0]].hi) != (lo, hi):
                k += 1
                nm = "rv:%s#%d%s" % (vname, k, list(i) if i else "")
            out[i] = A.sym(nm, lo=lo, hi=hi, flags=("open",))
        return T(out, axes, "pt")

    def cst(v):
        if v is None:
            return None
        c = lift(v)
        return c.const() if c.ndim == 0 else None

    def check_init(iv, full, axes):
        """Shape rules of initial values: PyMC filters plain values through
        the variable's type, PyMC3 broadcasts them."""
        if iv is None or isinstance(iv, str):
            return
        it_ = lift(iv)
        if ip.backend == "pymc" and it_.kind != "pt":
            ok = len(it_.axes) == len(axes) and all(tn.same_axis(p, q) for p, q in zip(it_.axes, axes))
        else:
            ia = tn.broadcast_axes([it_.axes, axes])
            ok = len(ia) == len(axes) and all(tn.same_axis(p, q) for p, q in zip(ia, axes))
        if not ok:
            araise(TypeError if ip.backend == "pymc" else ValueError, "initval of %s has shape %r, expected %r" % (full, it_.axes, axes))

    def dist_class(dname):
        allowed = set(PARAMS[dname])

        def split(args, kw, g):
            kw = dict(kw)
            params = {}
            for k, v in zip(PARAMS[dname], args):
                params[k] = v
            if "sd" in kw and ip.backend == "pymc3":
                kw["sigma"] = kw.pop("sd")
            rest = {}
            for k, v in kw.items():
                if k in allowed:
                    params[k] = v
                elif k in g:
                    rest[k] = v
                else:
                    araise(TypeError, "%s got an unexpected keyword argument %r" % (dname, k))
            for k in REQUIRED.get(dname, ()):
                if k not in params:
                    araise(TypeError, "%s missing the required argument %r" % (dname, k))
            if dname == "Beta" and not ({"alpha", "beta"} <= set(params) or ("mu" in params and {"sigma", "nu"} & set(params))):
                araise(ValueError, "Incompatible parametrization of Beta")
            return params, rest

        def call(vname, *args, **kw):
            model = ctx(kw.pop("model", None) if ip.backend == "pymc3" else None)
            if not isinstance(vname, str):
                araise(TypeError, "Name needs to be a string but got: %r" % (vname,))
            params, rest = split(args, kw, gen)
            lo = hi = None
            if dname == "Uniform":
                lo, hi = cst(params.get("lower", 0)), cst(params.get("upper", 1))
            if dname == "Beta":
                lo, hi = F(0), F(1)
            if dname in ("HalfNormal", "Gamma", "Exponential", "HalfCauchy", "Weibull"):
                lo = F(0)
            axes = rv_axes(params, rest.get("shape"), rest.get("dims"))
            full = model.prefix() + vname
            t = make_rv(dname, full, axes, lo, hi)
            iv = rest.get("initval", rest.get("testval"))
            check_init(iv, full, axes)
            t.rv = Dist(ip, dname, params)
            t.name = full
            return register(model, vname, "rv", t, dist=dname, params=params, initval=iv, rest=rest)

        def dist(*args, **kw):
            params, rest = split(args, kw, GENERIC_DIST[ip.backend])
            return Dist(ip, dname, params, rest.get("shape"))

        c = ClassModel(dname, call, lambda v: False)
        c.attrs["dist"] = Model(dist, dname + ".dist")
        return c

    for n in PARAMS:
        d[n] = dist_class(n)

    if ip.backend == "pymc":
        def trunc(vname, dist, lower=None, upper=None, **kw):
            model = ctx()
            for k in kw:
                if k not in gen and k != "max_n_steps":
                    araise(TypeError, "Truncated got an unexpected keyword argument %r" % k)
            if not isinstance(dist, Dist):
                araise(TypeError, "Truncated dist must be a distribution")
            full = model.prefix() + vname
            if dist.name in ("Truncated",):
                raise Unsupported("nested truncation")
            sh = kw.get("shape")
            axes = rv_axes(dist.params, dist.shape if sh is None else sh, kw.get("dims"))
            check_init(kw.get("initval"), full, axes)
            t = make_rv("Truncated", full, axes, cst(lower), cst(upper))
            dd = Dist(ip, "Truncated", dict(lower=lower, upper=upper), inner=dist)
            t.rv = dd
            t.name = full
            return register(model, vname, "rv", t, dist="Truncated", params=dict(lower=lower, upper=upper), inner=dist, initval=kw.get("initval"), rest=kw)

        tc = ClassModel("Truncated", trunc, lambda v: False)

        def trunc_dist(dist, lower=None, upper=None, **kw):
            for k in kw:
                if k not in GENERIC_DIST["pymc"]:
                    araise(TypeError, "Truncated.dist got an unexpected keyword argument %r" % k)
            if not isinstance(dist, Dist):
                araise(TypeError, "Truncated dist must be a distribution")
            return Dist(ip, "Truncated", dict(lower=lower, upper=upper), inner=dist)

        tc.attrs["dist"] = Model(trunc_dist, "Truncated.dist")
        d["Truncated"] = tc
        d["logp"] = Model(lambda rv, value: logp_of(rv if isinstance(rv, Dist) else rv.rv, lift(value, "pt")), "logp")
    else:
        def bound(dist, lower=None, upper=None):
            def mk(vname, *args, **kw):
                model = ctx()
                allowed = set(PARAMS[dist.name])
                params, rest = {}, {}
                for k, v in kw.items():
                    if k in allowed:
                        params[k] = v
                    elif k in gen:
                        rest[k] = v
                    else:
                        araise(TypeError, "unexpected keyword argument %r" % k)
                full = model.prefix() + vname
                axes = rv_axes(params, rest.get("shape"), None)
                check_init(rest.get("testval"), full, axes)
                t = make_rv("Truncated", full, axes, cst(lower), cst(upper))
                inner = Dist(ip, dist.name, params)
                t.rv = Dist(ip, "Truncated", dict(lower=lower, upper=upper), inner=inner)
                t.name = full
                return register(model, vname, "rv", t, dist="Truncated", params=dict(lower=lower, upper=upper), inner=inner, initval=rest.get("testval"), rest=rest)
            return Model(mk, "Bound")

        d["Bound"] = Model(bound, "Bound")

    def potential(vname, var, model=None, dims=None):
        m = ctx(model)
        t = ip.as_tensor(var)
        r = T(t.data, t.axes, "pt", t.dtype)
        return register(m, vname, "potential", r)

    def deterministic(vname, var, model=None, dims=None, auto=False):
        m = ctx(model)
        t = ip.as_tensor(var)
        r = T(t.data, t.axes, "pt", t.dtype)
        r.name = m.prefix() + vname
        return register(m, vname, "deterministic", r)

    d["Potential"] = Model(potential, "Potential")
    d["Deterministic"] = Model(deterministic, "Deterministic")

    def data_(name, value, **k):
        return ip.as_tensor(value)

    d["Data"] = Model(data_, "Data")
    mathd = dict(common("pt"))

    def logsumexp(x, axis=None, keepdims=False):
        t = ip.as_tensor(x)
        e = tn.mapped(lambda v: A.fn("exp", v), [t])
        return tn.mapped(lambda v: A.fn("log", v), [tsum(e, norm_ax(axis), keepdims)])

    mathd["logsumexp"] = Model(logsumexp, "logsumexp")
    mathd["sqr"] = mathd["square"]
    d["math"] = ExtModule(name + ".math", mathd)
    d["__version__"] = "5" if ip.backend == "pymc" else "3"

    def missing(attr):
        araise(AttributeError, "module %r has no attribute %r" % (name, attr))

    m = ExtModule(name, d)
    orig = m.get

    def get(attr):
        if attr in ("logsumexp", "testval"):
            missing(attr)
        if attr in ("logp", "Truncated") and ip.backend == "pymc3":
            missing(attr)
        if attr == "Bound" and ip.backend == "pymc":
            missing(attr)
        return orig(attr)

    m.get = get
    return m


# ---------------------------------------------------------------------------
# numpy-only functions


class Opaque:
    """A value the analysis does not follow; any use of it is unsupported."""

    def __init__(self, what):
        self.what = what

    def abs_getattr(self, ip, name):
        raise Unsupported("use of " + self.what)

    def __repr__(self):
        return "<%s>" % self.what


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    out = A.ZERO
    for j in range(n):
        if m[0][j].is_zero():
            continue
        out = out + (-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]])
    return out


def cramer(M, v):
    """Exact solution of a small linear system."""
    n = len(v)
    if n > 5:
        raise Unsupported("linear systems of more than 5 unknowns")

    def bind(x):
        return x if len(x.d) <= 2 else A.fn_raw("let", (x,))

    M = [[bind(A.ex(x)) for x in r] for r in M]
    v = [bind(A.ex(x)) for x in v]
    d = bind(det(M))
    if d.is_zero():
        araise(np.linalg.LinAlgError, "Singular matrix")
    return [bind(det([r[:j] + [b] + r[j + 1:] for r, b in zip(M, v)]) / d) for j in range(n)]


def numpy_module(ip):
    d = common("np")

    def array(x, dtype=None, copy=True, ndmin=0):
        if isinstance(x, Quantity):
            x = x.v
        if isinstance(x, T) and x.kind == "pt":
            raise Unsupported("numpy array of a tensor variable")
        t = lift(x, "np")
        r = T(t.data.copy(), t.axes, "np", t.dtype)
        r.idx = t.idx
        if dtype is not None:
            r = cast(r, dtype)
        return _atleast(r, ndmin) if ndmin else r

    def asarray(x, dtype=None):
        if isinstance(x, T) and x.kind == "np" and (dtype is None or dtype_name(dtype) == x.dtype):
            return x
        return array(x, dtype)

    d["array"] = Model(array, "array")
    d["asarray"] = d["ascontiguousarray"] = d["asanyarray"] = Model(asarray, "asarray")
    d["ndarray"] = NDARRAY
    d["copy"] = Model(lambda x: array(x), "copy")
    d["generic"] = d["number"] = BuiltinType("generic", lambda v: False, lambda *a: None)
    d["floating"] = BuiltinType("floating", lambda v: False, lambda *a: None)
    d["integer"] = BuiltinType("integer", lambda v: False, lambda *a: None)

    def vander(x, N=None, increasing=False):
        t = lift(x, "np")
        n = as_int(N) if N is not None else t.axes[0].n
        cols = [tn.mapped(lambda e, k=k: A.power(e, k), [t]) for k in range(n)]
        if not increasing:
            cols = cols[::-1]
        return tn.stack(cols, axis=1)

    d["vander"] = Model(vander, "vander")

    def argsort(x, axis=-1, kind=None):
        t = lift(x)
        vals = [e.const() for e in t.flat()]
        if t.axes[0].generic or any(v is None for v in vals):
            if not t.axes[0].generic and t.axes[0].parent is None:
                # the analysis fixes one order of the unknown values
                ip.events.append(Event("argsort", value=t))
                order = ip.order_oracle(t)
                r = lift([int(i) for i in order], "np")
                return r
            raise Unsupported("argsort of unknown values")
        order = sorted(range(len(vals)), key=lambda i: vals[i])
        return lift(order, "np") if order else T(np.empty((0,), dtype=object), (tn.literal_axis(0),), "np", "int64")

    ip.order_oracle = lambda t: (_ for _ in ()).throw(Unsupported("argsort of unknown values"))
    d["argsort"] = Model(argsort, "argsort")

    def solve(a, b):
        a, b = lift(a), lift(b)
        n = a.axes[0].n
        if a.ndim != 2 or not tn.same_axis(a.axes[0], a.axes[1]) or b.ndim != 1:
            raise Unsupported("linalg.solve on this shape")
        ip.events.append(Event("solve", A=a, b=b, site=ip.site()))
        hook = getattr(ip, "solve_hook", None)
        if hook is not None:
            r = hook(a, b)
            if r is not None:
                return r
        if n is None or any(ax.n is None for ax in a.axes):
            raise Unsupported("linalg.solve of symbolic size")
        out = np.empty(n, dtype=object)
        out[:] = cramer([[a.data[i, j] for j in range(n)] for i in range(n)], list(b.data))
        return T(out, (b.axes[0],), "np")

    def normal(a, b):
        """Least squares through the normal equations."""
        m, n = a.data.shape
        M = [[sum((a.data[k, i] * a.data[k, j] for k in range(m)), A.ZERO) for j in range(n)] for i in range(n)]
        v = [sum((a.data[k, i] * b.data[k] for k in range(m)), A.ZERO) for i in range(n)]
        return cramer(M, v)

    def lstsq(a, b, rcond=None):
        a, b = lift(a), lift(b)
        if a.ndim != 2 or b.ndim != 1 or any(ax.n is None for ax in a.axes + b.axes) or a.axes[0].n < a.axes[1].n:
            raise Unsupported("linalg.lstsq on this shape")
        out = np.empty(a.axes[1].n, dtype=object)
        out[:] = normal(a, b)
        return (T(out, (a.axes[1],), "np"), Opaque("residuals"), Opaque("rank"), Opaque("singular values"))

    def inv(a):
        a = lift(a)
        if a.ndim != 2 or any(ax.n is None for ax in a.axes) or a.axes[0].n != a.axes[1].n:
            raise Unsupported("linalg.inv on this shape")
        n = a.axes[0].n
        out = np.empty((n, n), dtype=object)
        for k in range(n):
            out[:, k] = cramer([list(r) for r in a.data], [A.ONE if i == k else A.ZERO for i in range(n)])
        return T(out, a.axes, "np")

    def norm(x, ord=None, axis=None):
        t = lift(x)
        if ord not in (None, 2):
            raise Unsupported("norm order")
        return tn.mapped(lambda e: A.power(e, F(1, 2)), [tsum(tn.mapped(lambda e: e * e, [t]), axis)])

    d["linalg"] = ExtModule("numpy.linalg", {"solve": Model(solve, "solve"), "lstsq": Model(lstsq), "inv": Model(inv), "norm": Model(norm, "norm")})

    def polyfit(x, y, deg, w=None, **k):
        if k:
            raise Unsupported("polyfit options")
        x, y = lift(x), lift(y)
        V = vander(x, as_int(deg) + 1)
        if w is not None:
            w = lift(w)
            V = arith_t("mul", V, tn.getitem(w, (slice(None), None)))
            y = arith_t("mul", y, w)
        return lstsq(V, y)[0]

    def polyval(p, x):
        v = lift(0)
        for k in range(lift(p).axes[0].n):
            v = arith_t("add", arith_t("mul", v, lift(x)), tn.getitem(lift(p), k))
        return v

    d["polyval"] = Model(polyval, "polyval")

    d["polyfit"] = Model(polyfit, "polyfit")

    def un(name):
        def f(*a, **k):
            raise Unsupported("numpy.%s" % name)
        return Model(f, name)

    d["random"] = ExtModule("numpy.random", {})
    d["float128"] = d["longdouble"] = DType("float64")
    d["inexact"] = BuiltinType("inexact", lambda v: False, lambda *a: None)

    class Ogrid:
        def __init__(self, column):
            self.column = column

        def abs_getitem(self, ip_, i):
            items = i if isinstance(i, tuple) else (i,)
            parts = []
            for x in items:
                if isinstance(x, slice):
                    if x.stop is None:
                        raise Unsupported("numpy.r_ slice")
                    if isinstance(x.step, complex):
                        raise Unsupported("numpy.r_ with a complex step")
                    parts.append(do_arange(x.start or 0, x.stop, x.step if x.step is not None else 1, "np"))
                elif isinstance(x, str):
                    raise Unsupported("numpy.r_ directive")
                else:
                    parts.append(lift(x, "np"))
            if self.column:
                return d["column_stack"].f([_atleast(q, 1) for q in parts])
            return d["hstack"].f(parts)

    d["r_"], d["c_"], d["s_"] = Ogrid(False), Ogrid(True), SIndex()
    d["index_exp"] = SIndex(True)

    def hooked(name):
        def f(*a, **k):
            hook = ip.hooks.get(name)
            if hook is None:
                raise Unsupported("numpy." + name)
            return hook(*a, **k)
        return Model(f, name)

    # arrays are real; transforms are opaque (their hooks return real stand-ins)
    d["conjugate"] = d["conj"] = d["real"] = Model(lambda x: lift(x), "conjugate")
    d["fft"] = ExtModule("numpy.fft", {n: hooked("fft." + n) for n in ("fft", "ifft", "rfft", "irfft")})
    d["interp"] = hooked("interp")
    d["float_"] = DType("float64")
    d["int_"] = DType("int64")
    d["finfo"] = un("finfo")
    d["errstate"] = Model(lambda **k: NullCM(), "errstate")
    d["vectorize"] = un("vectorize")
    d["allclose"] = un("allclose")
    d["unique"] = un("unique")
    d["split"] = un("split")
    d["ix_"] = un("ix_")
    d["cross"] = un("cross")

    def isscalar(x):
        return isinstance(x, (bool, int, F, str)) or (isinstance(x, T) and x.ndim == 0 and x.kind == "py")

    d["isscalar"] = Model(isscalar, "isscalar")
    d["__version__"] = "2"
    m = ExtModule("numpy", d)
    ip.np_table = d
    return m


class SIndex:
    def __init__(self, tup=False):
        self.tup = tup

    def abs_getitem(self, ip, i):
        return (i,) if self.tup and not isinstance(i, tuple) else i


class NullCM:
    def abs_enter(self, ip):
        return self

    def abs_exit(self, ip, e):
        return False

    def abs_call(self, ip, args, kw):
        return args[0]


# ---------------------------------------------------------------------------
# everything else


class Environ:
    def __init__(self, ip):
        self.ip = ip

    def abs_getattr(self, ip, name):
        if name == "get":
            return Model(lambda k, d=None: ip.environ.get(k, d), "get")
        if name == "setdefault":
            def sd(k, v):
                ip.events.append(Event("global_write", name=k, module="os.environ", site=ip.site()))
                return ip.environ.setdefault(k, v)
            return Model(sd)
        raise Unsupported("os.environ.%s" % name)

    def abs_getitem(self, ip, k):
        if k in ip.environ:
            return ip.environ[k]
        raise AbsRaise(KeyError(k))

    def abs_setitem(self, ip, k, v):
        ip.events.append(Event("global_write", name=k, module="os.environ", site=ip.site()))
        ip.environ[k] = v

    def abs_contains(self, ip, k):
        return k in ip.environ


class Logger:
    def __init__(self, ip):
        self.ip = ip

    def abs_getattr(self, ip, name):
        if name == "level":
            return 0
        if name == "handlers":
            return []
        return Model(lambda *a, **k: None, name)


def build(ip):
    IP[0] = ip
    e = {}
    np_ = numpy_module(ip)
    e["numpy"] = np_
    e["numpy.linalg"] = np_.attrs["linalg"]
    tname = "pytensor.tensor" if ip.backend == "pymc" else "theano.tensor"
    tm = tensor_module(ip, tname)
    pm = pm_module(ip, ip.backend)
    ops = ops_module(ip, "exoplanet_core.%s.ops" % ip.backend)

    def ifelse(cond, a, b):
        c = as_bool(lift(cond))
        if c.ndim:
            araise(TypeError, "ifelse condition must be a scalar")
        cc = c.item()
        a, b = ip.as_tensor(a), ip.as_tensor(b)
        k = cc.const()
        if k is not None:
            return a if k else b
        if a.idx is not None and b.idx is not None:
            ra = a.idx.parent or a.idx
            rb = b.idx.parent or b.idx
            if not tn.same_axis(ra, rb):
                raise Unsupported("ifelse over different index vectors")
            n = ra.size
            sa = a.idx.sel if a.idx.parent is not None else [A.ONE] * n
            sb = b.idx.sel if b.idx.parent is not None else [A.ONE] * n
            sel = [A.switch(cc, p, q) for p, q in zip(sa, sb)]
            ax = tn.sub_axis(ra, sel)
            r = T(a.data, (ax,), "pt", a.dtype)
            r.idx = ax
            return r
        if a.ndim != b.ndim:
            araise(TypeError, "ifelse branches must have the same type")
        return tn.mapped(lambda p, q: A.switch(cc, p, q), [a, b], kind="pt")

    class AssertOp:
        def __init__(self, msg="assert"):
            self.msg = msg

        def abs_call(self, ip_, args, kw):
            x = ip.as_tensor(args[0])
            conds = []
            for c in args[1:]:
                for cc in as_bool(ip.as_tensor(c)).flat():
                    conds.append(cc)
            ip.events.append(Event("assert_op", conds=conds, site=ip.site()))
            if any(c.const() == 0 for c in conds):
                araise(AssertionError, self.msg)
            return x

    assert_cls = ClassModel("Assert", lambda msg="": AssertOp(msg), lambda v: isinstance(v, AssertOp))

    def unsup(n):
        def f(*a, **k):
            raise Unsupported(n)
        return Model(f, n)

    config = ExtModule("config", {"change_flags": Model(lambda *a, **k: NullCM(), "change_flags"), "floatX": "float64", "compute_test_value": "off"})
    if ip.backend == "pymc":
        pt = ExtModule("pytensor", {
            "function": unsup("function"), "grad": unsup("grad"), "tensor": tm,
            "config": config, "shared": Model(lambda x, name=None: ip.as_tensor(x), "shared"),
        })
        e["pytensor"] = pt
        e["pytensor.tensor"] = tm
        e["pytensor.tensor.extra_ops"] = tm.attrs["extra_ops"]
        e["pytensor.tensor.subtensor"] = tm.attrs["subtensor"]
        e["pytensor.tensor.math"] = tm.attrs["math"]
        e["pytensor.tensor.variable"] = tm.attrs["variable"]
        e["pytensor.gradient"] = ExtModule("pytensor.gradient", cutters(ip, unsup))
        e["pytensor.ifelse"] = ExtModule("pytensor.ifelse", {"ifelse": Model(ifelse, "ifelse")})
        e["pytensor.raise_op"] = ExtModule("pytensor.raise_op", {"Assert": assert_cls, "assert_op": assert_cls})
        e["pytensor.compile"] = ExtModule("pytensor.compile", {})
        e["pymc"] = pm
        e["pymc.math"] = pm.attrs["math"]
        core = ExtModule("exoplanet_core.pymc", {"ops": ops})
        e["exoplanet_core.pymc"] = core
        e["exoplanet_core.pymc.ops"] = ops
        e["exoplanet_core"] = ExtModule("exoplanet_core", {"pymc": core})
    else:
        e["theano"] = ExtModule("theano", {
            "function": unsup("function"), "grad": unsup("grad"), "tensor": tm, "config": config,
        })
        e["theano.tensor"] = tm
        e["theano.tensor.extra_ops"] = tm.attrs["extra_ops"]
        e["theano.gradient"] = ExtModule("theano.gradient", cutters(ip, unsup))
        e["theano.ifelse"] = ExtModule("theano.ifelse", {"ifelse": Model(ifelse, "ifelse")})
        e["theano.assert_op"] = ModuleNotFoundError("No module named 'theano.assert_op'")
        e["theano.tensor.opt"] = ExtModule("theano.tensor.opt", {"Assert": assert_cls})
        e["theano.configparser"] = ExtModule("theano.configparser", {"change_flags": Model(lambda *a, **k: NullCM())})
        e["pymc3"] = pm
        core = ExtModule("exoplanet_core.pymc3", {"ops": ops})
        e["exoplanet_core.pymc3"] = core
        e["exoplanet_core.pymc3.ops"] = ops
        e["exoplanet_core"] = ExtModule("exoplanet_core", {"pymc3": core})
    um = units_module(ip)
    cm = constants_module(ip)
    e["astropy.units"] = um
    e["astropy.constants"] = cm
    e["astropy"] = ExtModule("astropy", {"units": um, "constants": cm})

    def ext_fn(name):
        def f(*a, **k):
            hook = ip.hooks.get(name)
            if hook is not None:
                return hook(*a, **k)
            raise Unsupported(name)
        return Model(f, name)

    ip.hooks = {}
    ts = ExtModule("astropy.timeseries", {
        "LombScargle": ext_fn("LombScargle"), "BoxLeastSquares": ext_fn("BoxLeastSquares"),
    })
    e["astropy.timeseries"] = ts
    e["astropy.stats"] = ts
    e["scipy"] = ExtModule("scipy", {})
    e["scipy.ndimage"] = ExtModule("scipy.ndimage", {"gaussian_filter": ext_fn("gaussian_filter")})
    e["scipy.ndimage.filters"] = e["scipy.ndimage"]

    # standard library
    def warn(message, category=UserWarning, stacklevel=1, source=None):
        ip.events.append(Event("warning", message=message, category=category, site=ip.site()))

    e["warnings"] = ExtModule("warnings", {"warn": Model(warn, "warn"), "simplefilter": Model(lambda *a, **k: ip.events.append(Event("global_write", name="simplefilter", module="warnings", site=ip.site()))), "filterwarnings": Model(lambda *a, **k: ip.events.append(Event("global_write", name="filterwarnings", module="warnings", site=ip.site()))), "catch_warnings": Model(lambda **k: NullCM())})
    lg = Logger(ip)
    e["logging"] = ExtModule("logging", {"getLogger": Model(lambda n=None: lg), "ERROR": 40, "DEBUG": 10, "INFO": 20, "WARNING": 30, "warning": Model(lambda *a, **k: ip.events.append(Event("log_warning", site=ip.site()))), "info": Model(lambda *a, **k: None), "debug": Model(lambda *a, **k: None), "error": Model(lambda *a, **k: None), "basicConfig": Model(lambda **k: None)})
    env = Environ(ip)
    e["os"] = ExtModule("os", {"environ": env, "getenv": Model(lambda k, d=None: ip.environ.get(k, d)), "path": ExtModule("os.path", {})})
    e["sys"] = ExtModule("sys", {"version_info": (3, 12, 3), "modules": OrderedDict(), "platform": "linux"})
    import textwrap

    e["textwrap"] = ExtModule("textwrap", {n: Model(getattr(textwrap, n), n) for n in ("wrap", "dedent", "fill", "indent")})
    import itertools as _it

    def product(*its, repeat=1):
        return list(_it.product(*[list(ip.iterate(i)) for i in its], repeat=repeat))

    def groupby(it, key=None):
        out = []
        for x in ip.iterate(it):
            k = x if key is None else ip.call(key, [x])
            if out and ip.truth(ip.compare("Eq", out[-1][0], k)):
                out[-1][1].append(x)
            else:
                out.append((k, [x]))
        return out

    e["itertools"] = ExtModule("itertools", {
        "product": Model(product, "product"),
        "chain": ChainModel(ip),
        "zip_longest": Model(lambda *a, fillvalue=None: list(_it.zip_longest(*[list(ip.iterate(x)) for x in a], fillvalue=fillvalue))),
        "combinations": Model(lambda x, r: list(_it.combinations(list(ip.iterate(x)), r))),
        "permutations": Model(lambda x, r=None: list(_it.permutations(list(ip.iterate(x)), r))),
        "repeat": Model(lambda x, n: [x] * n),
        "islice": Model(lambda it, *a: list(_it.islice(iter(list(ip.iterate(it))), *a))),
        "accumulate": Model(lambda it, f=None: list(_it.accumulate(list(ip.iterate(it)), lambda x, y: ip.call(f, [x, y]) if f else ip.binop("add", x, y)))),
        "starmap": Model(lambda f, it: [ip.call(f, list(ip.iterate(a))) for a in ip.iterate(it)]),
        "pairwise": Model(lambda it: list(_it.pairwise(list(ip.iterate(it))))),
        "count": Model(lambda start=0, step=1: Counting(start, step)),
        "cycle": Model(lambda it: Cycling(list(ip.iterate(it)))),
        "compress": Model(lambda it, sel: [x for x, c in zip(ip.iterate(it), ip.iterate(sel)) if ip.truth(c)]),
        "filterfalse": Model(lambda f, it: [x for x in ip.iterate(it) if not ip.truth(x if f is None else ip.call(f, [x]))]),
        "takewhile": Model(lambda f, it: list(_it.takewhile(lambda x: ip.truth(ip.call(f, [x])), ip.iterate(it)))),
        "dropwhile": Model(lambda f, it: list(_it.dropwhile(lambda x: ip.truth(ip.call(f, [x])), ip.iterate(it)))),
        "tee": Model(lambda it, n=2: tuple(iter(x) for x in [list(ip.iterate(it))] * n)),
        "combinations_with_replacement": Model(lambda x, r: list(_it.combinations_with_replacement(list(ip.iterate(x)), r))),
        "groupby": Model(groupby, "groupby"),
    })

    def wraps(f, *a, **k):
        def deco(g):
            if isinstance(g, Func):
                g.attrs["__wrapped__"] = f
                try:
                    g.attrs["__name__"] = ip.getattr(f, "__name__")
                    g.attrs["__doc__"] = ip.getattr(f, "__doc__")
                except (AbsRaise, Unsupported):
                    pass
            return g
        return Model(deco, "wraps")

    def reduce_(f, it, *init):
        items = list(ip.iterate(it))
        v = init[0] if init else items.pop(0)
        for x in items:
            v = ip.call(f, [v, x])
        return v

    def lru(*a, **k):
        if len(a) == 1 and not k and not isinstance(a[0], int) and a[0] is not None:
            return a[0]
        return Model(lambda f: f)

    e["functools"] = ExtModule("functools", {
        "wraps": Model(wraps, "wraps"),
        "partial": Model(lambda f, *a, **k: Partial(f, a, k), "partial"),
        "reduce": Model(reduce_, "reduce"),
        "lru_cache": Model(lru, "lru_cache"), "cache": Model(lambda f: f),
        "cached_property": Model(lambda f: CachedProperty(f)),
        "cmp_to_key": Model(lambda f: Model(lambda x: CmpKey(ip, f, x))),
        "singledispatch": Model(lambda f: Dispatch(ip, f)),
    })

    def dd(factory=None, *a, **k):
        r = DefaultDict()
        r.factory = factory
        if a:
            r.update(a[0])
        r.update(k)
        return r

    def nt(name, fields, defaults=(), **k):
        if isinstance(fields, str):
            fields = fields.replace(",", " ").split()
        return NTClass(name, list(fields), tuple(defaults or ()))

    e["collections"] = ExtModule("collections", {
        "defaultdict": ClassModel("defaultdict", dd, lambda v: isinstance(v, DefaultDict)),
        "OrderedDict": ip_dict(ip), "namedtuple": Model(nt, "namedtuple"),
    })
    e["collections.abc"] = ExtModule("collections.abc", {
        "Iterable": BuiltinType("Iterable", lambda v: isinstance(v, (list, tuple, dict, set, str)) or (isinstance(v, T) and v.ndim > 0), None),
        "Sequence": BuiltinType("Sequence", lambda v: isinstance(v, (list, tuple, str)), None),
        "Mapping": BuiltinType("Mapping", lambda v: isinstance(v, dict), None),
        "Callable": BuiltinType("Callable", lambda v: isinstance(v, (Func, Model, BoundMethod)), None),
    })
    e["numbers"] = ExtModule("numbers", {
        "Number": BuiltinType("Number", lambda v: isinstance(v, (int, F)) or (isinstance(v, T) and v.kind == "py"), None),
        "Real": BuiltinType("Real", lambda v: isinstance(v, (int, F)) or (isinstance(v, T) and v.kind == "py"), None),
        "Integral": BuiltinType("Integral", lambda v: isinstance(v, int), None),
    })
    opm = {}
    for n, o in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "truediv"), ("pow", "pow"), ("mod", "mod"), ("and_", "and_"), ("or_", "or_"), ("xor", "xor"), ("matmul", "matmul"), ("floordiv", "floordiv")):
        opm[n] = Model(lambda a, b, o=o: ip.binop(o, a, b), n)
    for n, o in (("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("eq", "Eq"), ("ne", "NotEq")):
        opm[n] = Model(lambda a, b, o=o: ip.compare(o, a, b), n)
    opm["neg"] = Model(lambda a: ip.unary("neg", a))
    opm["invert"] = Model(lambda a: ip.unary("invert", a))
    opm["itemgetter"] = Model(lambda *k: Model(lambda o: ip.getitem(o, k[0]) if len(k) == 1 else tuple(ip.getitem(o, x) for x in k)))

    def dotted(o, k):
        for part in k.split("."):
            o = ip.getattr(o, part)
        return o
    opm["attrgetter"] = Model(lambda *k: Model(lambda o: dotted(o, k[0]) if len(k) == 1 else tuple(dotted(o, x) for x in k)))
    opm["methodcaller"] = Model(lambda n, *a, **k: Model(lambda o: ip.call(ip.getattr(o, n), list(a), k)))
    opm["not_"] = Model(lambda a: not ip.truth(a))
    opm["truth"] = Model(lambda a: bool(ip.truth(a)))
    opm["is_"] = Model(lambda a, b: a is b)
    opm["is_not"] = Model(lambda a, b: a is not b)
    opm["contains"] = Model(lambda a, b: ip.compare("In", b, a))
    opm["getitem"] = Model(lambda a, b: ip.getitem(a, b))
    opm["pos"] = Model(lambda a: a)
    opm["abs"] = Model(lambda a: tn.mapped(lambda x: A.fn("abs", x), [lift(a)]))
    opm["concat"] = opm["add"]
    e["operator"] = ExtModule("operator", opm)
    md = {"pi": T(A.PI, (), "py"), "inf": T(A.INF, (), "py"), "nan": T(A.NAN, (), "py"), "e": T(A.fn("exp", 1), (), "py"), "tau": T(A.PI * 2, (), "py")}

    def mfun(n):
        def f(*a):
            if any(isinstance(x, T) and x.kind == "pt" for x in a):
                araise(TypeError, "must be real number, not TensorVariable")
            r = T(A.fn(n, *[lift(x).item() for x in a]), (), "py")
            if n in ("floor", "ceil"):
                c = r.const()
                r.dtype = "int64"
                return int(c) if c is not None else r
            return r
        return Model(f, n)

    for n, m in (("sqrt", "sqrt"), ("sin", "sin"), ("cos", "cos"), ("tan", "tan"), ("exp", "exp"), ("log", "log"), ("acos", "arccos"), ("asin", "arcsin"), ("atan", "arctan"), ("atan2", "arctan2"), ("floor", "floor"), ("ceil", "ceil"), ("fabs", "abs")):
        md[n] = mfun(m)
    for n, m in (("log1p", "log1p"), ("expm1", "expm1"), ("log10", "log10"), ("log2", "log2"), ("cosh", "cosh"), ("sinh", "sinh"), ("tanh", "tanh")):
        if n in np_.attrs:
            def viaup(n=n):
                def f(x):
                    if isinstance(x, T) and x.kind == "pt":
                        araise(TypeError, "must be real number, not TensorVariable")
                    return T(lift(np_.attrs[n].f(lift(x, "np"))).item(), (), "py")
                return f
            md[n] = Model(viaup(), n)
    md["pow"] = Model(lambda a, b: ip.binop("pow", lift(a), b), "pow")
    md["hypot"] = Model(lambda *a: T(A.power(sum((lift(x).item() ** 2 for x in a), A.ZERO), F(1, 2)), (), "py"), "hypot")
    md["fsum"] = Model(lambda it: T(sum((lift(x).item() for x in ip.iterate(it)), A.ZERO), (), "py"), "fsum")
    md["radians"] = Model(lambda x: T(lift(x).item() * A.PI / 180, (), "py"), "radians")
    md["degrees"] = Model(lambda x: T(lift(x).item() * 180 / A.PI, (), "py"), "degrees")
    md["isclose"] = Model(lambda *a, **k: (_ for _ in ()).throw(Unsupported("math.isclose")))
    md["isnan"] = Model(lambda x: False)
    md["prod"] = Model(lambda it: reduce_(Model(lambda a, b: ip.binop("mul", a, b)), it, 1))
    md["isfinite"] = Model(lambda x: True)
    e["math"] = ExtModule("math", md)

    def cpy(x):
        if isinstance(x, T):
            r = T(x.data.copy(), x.axes, x.kind, x.dtype)
            r.attrs = dict(x.attrs)
            r.idx = x.idx
            return r
        if isinstance(x, Obj):
            o = Obj(x.cls)
            o.attrs.update(x.attrs)
            return o
        if isinstance(x, dict):
            r = type(x)(x) if not isinstance(x, DefaultDict) else OrderedDict(x)
            return r
        if isinstance(x, list):
            return list(x)
        return x

    e["dataclasses"] = dataclasses_module(ip)
    e["copy"] = ExtModule("copy", {"copy": Model(cpy), "deepcopy": Model(cpy)})

    class TypingAny:
        def abs_getitem(self, ip_, i):
            return self

        def abs_getattr(self, ip_, n):
            return self

        def abs_call(self, ip_, a, k):
            return self

        def abs_binop(self, ip_, op, o, rev):
            return self

    ta = TypingAny()

    def tres(attr):
        if attr == "cast":
            return Model(lambda t, v: v)
        if attr == "TYPE_CHECKING":
            return False
        if attr == "NamedTuple":
            return NamedTupleBase(ip)
        if attr in ("TypeVar", "NewType", "ParamSpec"):
            return Model(lambda *a, **k: ta)
        if attr in ("overload", "final", "no_type_check", "runtime_checkable"):
            return Model(lambda f: f)
        return ta

    e["typing"] = ExtModule("typing", {}, resolver=tres)
    e["__future__"] = ExtModule("__future__", {}, resolver=lambda a: True)

    def cm_deco(f):
        if not isinstance(f, Func) or not f.is_gen:
            raise Unsupported("contextmanager of %r" % (f,))
        return CMFactory(f)

    e["contextlib"] = ExtModule("contextlib", {"contextmanager": Model(cm_deco), "nullcontext": Model(lambda x=None: NullCM()), "suppress": Model(lambda *a: Suppress(ip, a))})
    e["abc"] = ExtModule("abc", {"ABC": object, "abstractmethod": Model(lambda f: f)})
    e["inspect"] = ExtModule("inspect", {})
    e["time"] = ExtModule("time", {})
    e["re"] = ExtModule("re", {})
    e["string"] = ExtModule("string", {})
    e["matplotlib"] = ExtModule("matplotlib", {})
    e["matplotlib.pyplot"] = ExtModule("matplotlib.pyplot", {})
    if True:
        for n in list(e):
            v = e[n]
            if isinstance(v, ExtModule) and "." in n:
                head, _, tail = n.rpartition(".")
                h = e.get(head)
                if isinstance(h, ExtModule):
                    h.attrs.setdefault(tail, v)
    return e


def cutters(ip, unsup):
    d = {"verify_grad": unsup("verify_grad"), "grad": unsup("grad")}
    for n in ("disconnected_grad", "zero_grad", "consider_constant", "undefined_grad", "grad_undefined", "grad_not_implemented"):
        d[n] = Model(lambda x, *a, n=n: marker(ip, x, n), n)
    d["grad_clip"] = Model(lambda x, lo, hi: marker(ip, x, "grad_clip"), "grad_clip")
    d["grad_scale"] = Model(lambda x, m: marker(ip, x, "grad_scale"), "grad_scale")
    return d


def marker(ip, x, what):
    ip.events.append(Event("gradient_cut", what=what, site=ip.site(), trace=ip.trace()))
    return x


class CMFactory:
    """A function decorated with contextlib.contextmanager."""

    def __init__(self, f):
        self.f = f

    def abs_call(self, ip, args, kw):
        return GenCM(self.f, list(args), OrderedDict(kw))

    def abs_getattr(self, ip, name):
        return ip.getattr(self.f, name)

    def abs_bind(self, o):
        return Model(lambda *a, **k: GenCM(self.f, [o] + list(a), OrderedDict(k)))


class NamedTupleBase:
    abs_typing = "NamedTuple"

    def __init__(self, ip):
        self.ip = ip

    def abs_call(self, ip, args, kw):
        name, fields = args
        return NTClass(name, [f[0] for f in ip.iterate(fields)])


MISSING_ = object()


class DField:
    def __init__(self, default=MISSING_, factory=MISSING_, init=True):
        self.default, self.factory, self.init = default, factory, init


def dataclasses_module(ip):
    def field(*, default=MISSING_, default_factory=MISSING_, init=True, repr=True, hash=None, compare=True, metadata=None, kw_only=False):
        return DField(default, default_factory, init)

    def make(frozen=False, eq=True, kw_only=False, init=True):
        def deco(c):
            if not isinstance(c, Class):
                raise Unsupported("dataclass of %r" % (c,))
            fields = OrderedDict()
            for b in reversed(c.mro):
                if isinstance(b, Class):
                    for n, ann in b.ns.get("__annotations__", {}).items():
                        if "ClassVar" in ann:
                            continue
                        d = b.ns.get(n, MISSING_)
                        fields[n] = d if isinstance(d, DField) else DField(d)
                        if isinstance(d, DField) and b is c:
                            if d.default is MISSING_:
                                b.ns.pop(n, None)
                            else:
                                b.ns[n] = d.default
                            b.ns.setdefault("__dfields__", {})[n] = d
                    fields.update({n: d for n, d in b.ns.get("__dfields__", {}).items() if n in fields})
            c.ns["__dataclass_fields__"] = fields

            def init_(self, *args, **kw):
                names = [n for n, f in fields.items() if f.init]
                if kw_only and args or len(args) > len(names):
                    araise(TypeError, "%s.__init__() takes %d positional arguments" % (c.name, len(names) + 1))
                vals = dict(zip(names, args))
                for k, v in kw.items():
                    if k not in names or k in vals:
                        araise(TypeError, "%s.__init__() got an unexpected argument %r" % (c.name, k))
                    vals[k] = v
                for n, f in fields.items():
                    if n not in vals:
                        if f.factory is not MISSING_:
                            vals[n] = ip.call(f.factory, [])
                        elif f.default is not MISSING_:
                            vals[n] = f.default
                        elif f.init:
                            araise(TypeError, "%s.__init__() missing argument %r" % (c.name, n))
                        else:
                            continue
                    self.attrs[n] = vals[n]
                m = c.lookup("__post_init__")
                if m is not None:
                    ip.call(BoundMethod(m, self), [])

            def eq_(self, other):
                if not isinstance(other, Obj) or other.cls is not self.cls:
                    return False
                for n in fields:
                    a, b = self.attrs[n], other.attrs[n]
                    if a is not b and not ip.truth(ip.compare("Eq", a, b)):
                        return False
                return True

            def frozen_(self, name, v):
                araise(AttributeError, "cannot assign to field %r" % name)
            if init and "__init__" not in c.ns:
                c.ns["__init__"] = Model(init_, "__init__")
            if eq and "__eq__" not in c.ns:
                c.ns["__eq__"] = Model(eq_, "__eq__")
            if frozen:
                c.frozen = True
            return c
        return deco

    def dataclass(cls=None, *, init=True, repr=True, eq=True, order=False, unsafe_hash=False, frozen=False, match_args=True, kw_only=False, slots=False, weakref_slot=False):
        d = make(frozen, eq, kw_only, init)
        return Model(d) if cls is None else d(cls)

    def fields_of(o):
        c = o.cls if isinstance(o, Obj) else o
        return c.lookup("__dataclass_fields__")

    def asdict(o):
        return OrderedDict((n, asdict(o.attrs[n]) if isinstance(o.attrs[n], Obj) and fields_of(o.attrs[n]) else o.attrs[n]) for n in fields_of(o))

    def replace(o, **k):
        kw = {n: o.attrs[n] for n, f in fields_of(o).items() if f.init}
        kw.update(k)
        return ip.call(o.cls, [], kw)

    def fields(o):
        out = []
        for n in fields_of(o):
            r = NTuple((n,))
            r.nt = NTClass("Field", ["name"])
            out.append(r)
        return tuple(out)

    return ExtModule("dataclasses", {
        "dataclass": Model(dataclass), "field": Model(field), "asdict": Model(asdict), "replace": Model(replace),
        "astuple": Model(lambda o: tuple(o.attrs[n] for n in fields_of(o))), "fields": Model(fields),
        "is_dataclass": Model(lambda o: isinstance(o, (Obj, Class)) and fields_of(o) is not None),
    })


class Suppress:
    def __init__(self, ip, excs):
        self.excs = excs

    def abs_enter(self, ip):
        return None

    def abs_exit(self, ip, e):
        return e is not None and ip.exc_match(e.exc, tuple(self.excs))


class CmpKey:
    def __init__(self, ip, f, x):
        self.ip, self.f, self.x = ip, f, x

    def abs_order(self, other):
        c = self.ip.call(self.f, [self.x, other.x])
        if isinstance(c, T):
            c = c.const()
            if c is None:
                raise Unsupported("sorting symbolic values")
        return (c > 0) - (c < 0)


class Dispatch:
    """functools.singledispatch."""

    def __init__(self, ip, f):
        self.ip, self.f, self.table = ip, f, []

    def abs_call(self, ip, args, kw):
        for t, f in reversed(self.table):
            if args and ip.isinst(args[0], t):
                return ip.call(f, args, kw)
        return ip.call(self.f, args, kw)

    def abs_getattr(self, ip, name):
        if name == "register":
            def register(t, f=None):
                if f is not None:
                    self.table.append((t, f))
                    return f
                if isinstance(t, Func):
                    raise Unsupported("singledispatch by annotation")

                def deco(g):
                    self.table.append((t, g))
                    return g
                return Model(deco)
            return Model(register)
        return ip.getattr(self.f, name)


class Counting:
    """itertools.count: only usable beside something finite."""

    def __init__(self, start, step):
        self.v, self.step, self.n = start, step, 0

    def __next__(self):
        v = self.v
        self.n += 1
        if self.n > 5000:
            raise Unsupported("unbounded iteration")
        self.v = v + self.step
        return v

    def __iter__(self):
        return self


class Cycling:
    def __init__(self, items):
        self.items, self.k = items, 0

    def __next__(self):
        if not self.items:
            raise StopIteration
        if self.k > 5000:
            raise Unsupported("unbounded iteration")
        v = self.items[self.k % len(self.items)]
        self.k += 1
        return v

    def __iter__(self):
        return self


class ChainModel:
    def __init__(self, ip):
        self.ip = ip

    def abs_call(self, ip, args, kw):
        return [x for a in args for x in ip.iterate(a)]

    def abs_getattr(self, ip, name):
        if name == "from_iterable":
            return Model(lambda it: [x for a in ip.iterate(it) for x in ip.iterate(a)])
        araise(AttributeError, name)


def ip_dict(ip):
    def mk(*a, **k):
        d = OrderedDict()
        if a:
            d.update(a[0] if isinstance(a[0], dict) else list(ip.iterate(a[0])))
        d.update(k)
        return d

    return ClassModel("OrderedDict", mk, lambda v: isinstance(v, dict))
