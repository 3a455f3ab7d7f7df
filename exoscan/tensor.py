"""The array domain: labelled axes over algebraic normal forms.

An axis is either literal (a known length), symbolic (an arbitrary length,
represented by one generic element) or a selection of another axis (the result
of indexing with a mask or with an index vector derived from one).  Broadcasting
is checked: two different axes never line up silently.
"""

import contextlib
import itertools
from fractions import Fraction as F

import numpy as np

from . import algebra as A
from .algebra import Expr, ex


class AbsRaise(Exception):
    """An exception raised by the analysed program."""

    def __init__(self, exc, node=None):
        super().__init__(repr(exc))
        self.exc = exc
        self.trace = []


class Unsupported(Exception):
    """The analysis has no model for a construct it met."""


def araise(cls, msg=""):
    raise AbsRaise(cls(msg))


_axis_ids = itertools.count()


class Axis:
    """n: literal length, or None for a symbolic length named `name`."""

    __slots__ = ("n", "name", "length", "parent", "sel", "id")

    def __init__(self, n=None, name=None, length=None, parent=None, sel=None):
        self.n = n
        self.id = next(_axis_ids)
        self.name = name
        self.parent = parent
        self.sel = sel
        if length is None:
            if n is not None:
                length = ex(n)
            else:
                length = A.sym(
                    "N_%s" % (name or "ax%d" % self.id), lo=1, flags=("int",)
                )
                REGISTRY[("N_%s" % (name or "ax%d" % self.id))] = self
        self.length = length

    @property
    def size(self):
        """Size of the data array along this axis."""
        if self.parent is not None:
            return self.parent.size
        return self.n if self.n is not None else 1

    @property
    def generic(self):
        if self.parent is not None:
            return self.parent.generic
        return self.n is None

    def __repr__(self):
        if self.parent is not None:
            return "%r[sel]" % (self.parent,)
        return str(self.n) if self.n is not None else str(self.name)


REGISTRY = {}


def literal_axis(n):
    return Axis(n=n, length=ex(n))


def axis_for_length(n):
    """The axis whose length is n (int or Expr)."""
    if isinstance(n, int):
        return literal_axis(n)
    c = n.const()
    if c is not None:
        if c.denominator != 1:
            raise Unsupported("non-integer length")
        return literal_axis(int(c))
    for name, ax in REGISTRY.items():
        if (ax.length - n).is_zero():
            return ax
    ax = Axis(n=None, name="len", length=n)
    REGISTRY["len%d" % ax.id] = ax
    return ax


def sub_axis(parent, sel):
    """Axis selecting the elements of `parent` whose indicator `sel` is 1."""
    ax = Axis(parent=parent, sel=sel)
    return ax


def same_axis(a, b):
    if a is b:
        return True
    if (a.parent is None) != (b.parent is None):
        return False
    if a.parent is not None:
        return same_axis(a.parent, b.parent) and len(a.sel) == len(b.sel) and all(
            (x - y).is_zero() for x, y in zip(a.sel, b.sel)
        )
    if a.n is not None or b.n is not None:
        return a.n == b.n
    return (a.length - b.length).is_zero()


def is_one(a):
    return a.parent is None and a.n == 1


RANK = {"py": 0, "np": 1, "pt": 2}
DRANK = {"bool": 0, "int64": 1, "float64": 2}


class T:
    """An abstract array value."""

    __slots__ = (
        "data", "axes", "kind", "dtype", "attrs", "base", "name", "owner",
        "idx", "rv", "unit", "constant",
    )

    def __init__(self, data, axes=(), kind="np", dtype="float64"):
        if not isinstance(data, np.ndarray):
            a = np.empty((), dtype=object)
            a[()] = ex(data)
            data = a
        self.data = data
        self.axes = tuple(axes)
        assert data.ndim == len(self.axes), (data.shape, self.axes)
        self.kind = kind
        self.dtype = dtype
        self.attrs = {}
        self.base = None
        self.name = None
        self.owner = None
        self.idx = None
        self.rv = None
        self.unit = None
        self.constant = False

    @property
    def ndim(self):
        return len(self.axes)

    def item(self):
        if self.data.size != 1:
            raise Unsupported("item of a non-scalar")
        return self.data.reshape(-1)[0]

    def flat(self):
        return list(self.data.reshape(-1))

    def const(self):
        """Python number if a constant scalar, else None."""
        if self.ndim:
            return None
        return self.item().const()

    def __repr__(self):
        s = repr(self.flat()[0]) if self.data.size else "-"
        return "<%s %s%r %s>" % (self.kind, self.dtype, list(self.axes), s[:200])


def scalar(e, kind="py", dtype="float64"):
    return T(ex(e), (), kind, dtype)


def is_num(x):
    return isinstance(x, (bool, int, F)) and not isinstance(x, str)


def lift(x, kind="py"):
    """Any numeric abstract value to T (lists become arrays)."""
    if isinstance(x, T):
        return x
    if isinstance(x, (np.bool_,)):
        x = bool(x)
    if isinstance(x, bool):
        return T(ex(int(x)), (), kind, "bool")
    if isinstance(x, int):
        return T(ex(x), (), kind, "int64")
    if isinstance(x, F):
        return T(ex(x), (), kind, "float64")
    if isinstance(x, Expr):
        return T(x, (), kind, "float64")
    if isinstance(x, (list, tuple, range)):
        items = [lift(i, kind if kind != "py" else "np") for i in x]
        if not items:
            return T(np.empty((0,), dtype=object), (literal_axis(0),),
                     kind if kind != "py" else "np")
        k = kind if kind != "py" else "np"
        for i in items:
            if RANK[i.kind] > RANK[k]:
                k = i.kind
        nd = {i.ndim for i in items}
        if len(nd) > 1:
            araise(ValueError, "inhomogeneous shape")
        return stack(items, 0, kind=k)
    if x is None:
        araise(TypeError, "None is not numeric")
    if isinstance(x, str):
        araise(TypeError, "string is not numeric")
    raise Unsupported("cannot treat %r as an array" % (type(x).__name__,))


def broadcast_axes(axlists):
    nd = max((len(a) for a in axlists), default=0)
    out = []
    for k in range(nd):
        cur = None
        for al in axlists:
            j = k - (nd - len(al))
            if j < 0:
                continue
            a = al[j]
            if cur is None or is_one(cur):
                cur = a
            elif is_one(a) or same_axis(cur, a):
                continue
            else:
                araise(
                    ValueError,
                    "Input dimension mismatch: shapes %s cannot be broadcast"
                    % (axlists,),
                )
        out.append(cur)
    return tuple(out)


def expand_to(t, axes):
    """View of t.data with ndim len(axes) (numpy broadcasting rules)."""
    d = t.data
    while d.ndim < len(axes):
        d = d[None]
    return d


def not_a_number():
    return A.sym("not_a_number")


def undefined(v):
    """Is an element a quotient that is not defined?"""
    if isinstance(v, A.Expr) and len(v.d) == 1:
        ((m, _),) = v.d.items()
        return len(m) == 1 and A.ATOMS[m[0][0]].name == "not_a_number"
    return False


@contextlib.contextmanager
def quotients():
    """Follow divisions by an exact zero: the elements they reach become
    not_a_number, through every operation but a selection."""
    old = A.UNDEF[0]
    A.UNDEF[0] = []
    try:
        yield
    finally:
        A.UNDEF[0] = old


def strict_nan(f, selects, dtype):
    def g(*args):
        if not selects and any(undefined(a) for a in args):
            return A.ZERO if dtype == "bool" else not_a_number()
        del A.UNDEF[0][:]
        r = f(*args)
        if A.UNDEF[0] and not selects:
            return A.ZERO if dtype == "bool" else not_a_number()
        return r
    return g


def mapped(f, ts, kind=None, dtype=None, selects=False):
    if A.UNDEF[0] is not None:
        f = strict_nan(f, selects, dtype)
    axes = broadcast_axes([t.axes for t in ts])
    shape = tuple(a.size for a in axes)
    arrs = [np.broadcast_to(expand_to(t, axes), shape) for t in ts]
    out = np.empty(shape, dtype=object)
    cache = {}
    for i in np.ndindex(*shape):
        args = [a[i] for a in arrs]
        k = tuple(id(x) for x in args)
        r = cache.get(k)
        if r is None:
            r = f(*args)
            if A.GATE[0] is not None and isinstance(r, A.Expr):
                r = A.let(r)
            cache[k] = (r, args)
        else:
            r = r[0]
        out[i] = r
    if kind is None:
        kind = max((t.kind for t in ts), key=lambda k: RANK[k])
    if dtype is None:
        dtype = max((t.dtype for t in ts), key=lambda k: DRANK.get(k, 2))
    r = T(out, axes, kind, dtype)
    return r


def promote_dtype(ts):
    return max((t.dtype for t in ts), key=lambda k: DRANK.get(k, 2))


def stack(items, axis=0, kind=None):
    items = [lift(i) for i in items]
    nd = items[0].ndim
    axes = items[0].axes
    for i in items[1:]:
        if i.ndim != nd:
            araise(ValueError, "all input arrays must have the same shape")
        for a, b in zip(axes, i.axes):
            if not same_axis(a, b):
                araise(ValueError, "all input arrays must have the same shape")
    if axis < 0:
        axis += nd + 1
    out = np.stack([i.data for i in items], axis=axis) if items else None
    o = np.empty(out.shape, dtype=object)
    o[...] = out
    na = list(axes)
    na.insert(axis, literal_axis(len(items)))
    k = kind or max((t.kind for t in items), key=lambda k: RANK[k])
    return T(o, na, k, promote_dtype(items))


def concat(items, axis=0, kind=None):
    items = [lift(i) for i in items]
    nd = items[0].ndim
    if any(i.ndim != nd for i in items) or nd == 0:
        araise(ValueError, "all the input array dimensions must match")
    if axis < 0:
        axis += nd
    if len(items) == 1:
        return items[0]
    axes = list(items[0].axes)
    for i in items[1:]:
        for k in range(nd):
            if k != axis and not same_axis(axes[k], i.axes[k]):
                araise(ValueError, "concatenate: dimension mismatch")
    for i in items:
        if i.axes[axis].parent is not None or i.axes[axis].n is None:
            raise Unsupported("concatenate along an axis of unknown length")
    out = np.concatenate([i.data for i in items], axis=axis)
    axes[axis] = literal_axis(sum(i.axes[axis].n for i in items))
    k = kind or max((t.kind for t in items), key=lambda k: RANK[k])
    return T(out, axes, k, promote_dtype(items))


def norm_axis(axis, nd):
    if isinstance(axis, T):
        c = axis.const()
        if c is None:
            raise Unsupported("symbolic axis")
        axis = int(c)
    if not isinstance(axis, int):
        if isinstance(axis, F) and axis.denominator == 1:
            axis = int(axis)
        else:
            araise(TypeError, "axis must be an integer")
    if axis < 0:
        axis += nd
    if not 0 <= axis < nd:
        araise(ValueError, "axis out of bounds")
    return axis


def reduce_axis(t, axis, f, init, keepdims=False, generic=None):
    """Fold f over one axis (None: all)."""
    if axis is None:
        r = t
        for k in reversed(range(t.ndim)):
            r = reduce_axis(r, k, f, init, False, generic)
        if keepdims:
            r = T(r.data.reshape((1,) * t.ndim), [literal_axis(1)] * t.ndim,
                  r.kind, r.dtype)
        return r
    if isinstance(axis, (tuple, list)):
        r = t
        for k in sorted((norm_axis(a, t.ndim) for a in axis), reverse=True):
            r = reduce_axis(r, k, f, init, keepdims, generic)
        return r
    axis = norm_axis(axis, t.ndim)
    ax = t.axes[axis]
    d = np.moveaxis(t.data, axis, 0)
    shape = d.shape[1:]
    out = np.empty(shape, dtype=object)
    if ax.generic or ax.parent is not None:
        if generic is None:
            raise Unsupported("reduction over an axis of unknown length")
        for i in np.ndindex(*shape):
            out[i] = generic([d[(j,) + i] for j in range(d.shape[0])], ax)
    else:
        for i in np.ndindex(*shape):
            v = init
            for j in range(d.shape[0]):
                v = d[(j,) + i] if v is None else f(v, d[(j,) + i])
            if v is None:
                araise(ValueError, "reduction of an empty axis")
            out[i] = v
    axes = list(t.axes)
    if keepdims:
        axes[axis] = literal_axis(1)
        out = np.expand_dims(out, axis)
        o = np.empty(out.shape, dtype=object)
        o[...] = out
        out = o
    else:
        del axes[axis]
    return T(out, axes, t.kind, t.dtype)


def squeeze(t, axis=None):
    if axis is not None:
        axs = axis if isinstance(axis, (tuple, list)) else [axis]
        axs = {norm_axis(a, t.ndim) for a in axs}
        for a in axs:
            if not is_one(t.axes[a]):
                araise(ValueError, "cannot squeeze an axis of length != 1")
    else:
        axs = {k for k, a in enumerate(t.axes) if is_one(a)}
    if not axs:
        return t
    keep = [k for k in range(t.ndim) if k not in axs]
    d = t.data.reshape([t.data.shape[k] for k in keep])
    return T(d, [t.axes[k] for k in keep], t.kind, t.dtype)


def length_of(ax):
    if ax.n is not None and ax.parent is None:
        return ax.n
    return ax.length


def dim_value(ax, kind="py"):
    """The run-time length of an axis as a program value."""
    if ax.parent is None and ax.n is not None:
        return ax.n
    r = T(ax.length, (), kind, "int64")
    return r


def axis_from_dim(v):
    """The axis for a program value used as a length."""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        if v < 0:
            araise(ValueError, "negative dimensions are not allowed")
        return literal_axis(v)
    if isinstance(v, F) and v.denominator == 1:
        return literal_axis(int(v))
    if isinstance(v, F):
        araise(TypeError, "non-integer dimension")
    if isinstance(v, T):
        if v.ndim == 0:
            return axis_for_length(v.item())
        araise(TypeError, "only a scalar can be a dimension")
    if v is None or isinstance(v, (str, tuple, list, dict, float)):
        araise(TypeError, "%r cannot be a dimension" % (v,))
    raise Unsupported("length %r" % (v,))


def shape_to_axes(shape):
    if isinstance(shape, T):
        if shape.ndim == 0:
            shape = [shape]
        else:
            shape = [T(e, (), "py", "int64") for e in shape.flat()]
    elif not isinstance(shape, (tuple, list)):
        shape = [shape]
    return tuple(axis_from_dim(s) for s in shape)


def filled(axes, value, kind, dtype="float64"):
    d = np.empty(tuple(a.size for a in axes), dtype=object)
    d[...] = None
    for i in np.ndindex(*d.shape):
        d[i] = value
    return T(d, axes, kind, dtype)


def with_data(t, d, axes=None):
    return T(d, t.axes if axes is None else axes, t.kind, t.dtype)


# ---------------------------------------------------------------------------
# indexing


class Gather:
    """Book-keeping of a selection so that set_subtensor can scatter back."""

    __slots__ = ("base", "index")

    def __init__(self, base, index):
        self.base = base
        self.index = index


def _is_full_slice(s):
    return isinstance(s, slice) and s.start is None and s.stop is None and s.step in (None, 1)


def to_index(i):
    if isinstance(i, T):
        if i.ndim == 0:
            c = i.const()
            if c is not None and i.dtype != "bool":
                if c.denominator != 1:
                    araise(IndexError, "non-integer index")
                return int(c)
            return i
        return i
    if isinstance(i, (list,)):
        return lift(i)
    if isinstance(i, F):
        araise(IndexError, "only integers can be used as indices")
    if isinstance(i, slice):
        def conv(v):
            if v is None:
                return None
            v = to_index(v)
            if isinstance(v, T):
                return v
            return int(v)
        return slice(conv(i.start), conv(i.stop), conv(i.step))
    return i


def _prefix(d):
    out = np.empty(d.shape, dtype=object)
    for k in np.ndindex(*d.shape):
        x = d[k]
        out[k] = x if A.ex(x).const() is not None else A.fn_raw("elsewhere", (x,))
    return out


def getitem(t, index):
    if not isinstance(index, tuple):
        index = (index,)
    index = [to_index(i) for i in index]
    # expand Ellipsis
    used = sum(
        (i.ndim if isinstance(i, T) and i.dtype == "bool" and i.ndim else 1)
        for i in index if i is not None and i is not Ellipsis
    )
    if any(i is Ellipsis for i in index):
        k = next(j for j, i in enumerate(index) if i is Ellipsis)
        index[k:k + 1] = [slice(None)] * (t.ndim - used)
    else:
        index = index + [slice(None)] * (t.ndim - used)
    if used > t.ndim:
        araise(IndexError, "too many indices for array")
    adv = [
        i for i in index
        if isinstance(i, T)
    ]
    if len([i for i in adv]) > 1:
        return _multi_gather(t, index)
    # process axis by axis
    d = t.data
    axes = list(t.axes)
    k = 0
    for i in index:
        if i is None:
            d = np.expand_dims(d, k)
            axes.insert(k, literal_axis(1))
            k += 1
        elif isinstance(i, slice):
            if not _is_full_slice(i):
                ax = axes[k]
                if i.start in (None, 0) and i.step in (None, 1) and isinstance(i.stop, T):
                    # the first so many entries: positions are not those of
                    # the entries kept, whatever the axis of that length is
                    new = axis_for_length(i.stop.item())
                    if not same_axis(new, ax):
                        if len(getattr(new, "sel", None) or [0]) != d.shape[k] and d.shape[k] != new.size:
                            raise Unsupported("prefix of an axis of unknown length")
                        d = _prefix(d)
                        axes[k] = new
                    k += 1
                    continue
                if any(isinstance(q, T) for q in (i.start, i.stop, i.step)):
                    raise Unsupported("symbolic slice bound")
                if ax.parent is not None or ax.n is None:
                    raise Unsupported("slice of an axis of unknown length")
                sl = [slice(None)] * d.ndim
                sl[k] = i
                d = d[tuple(sl)]
                axes[k] = literal_axis(d.shape[k])
            k += 1
        elif isinstance(i, (int,)) and not isinstance(i, bool):
            ax = axes[k]
            if ax.parent is not None:
                raise Unsupported("element of a selected axis")
            if ax.n is None:
                if d.ndim and d.shape[k] == 1:
                    # generic element at a concrete position
                    raise Unsupported(
                        "element %d of an axis of unknown length" % i
                    )
            if not -ax.n <= i < ax.n:
                araise(IndexError, "index %d is out of bounds" % i)
            d = np.take(d, i, axis=k)
            if not isinstance(d, np.ndarray):
                a = np.empty((), dtype=object)
                a[()] = d
                d = a
            del axes[k]
        elif isinstance(i, T):
            d, axes, k = _gather(d, axes, k, i)
        else:
            raise Unsupported("index %r" % (i,))
    r = T(d if isinstance(d, np.ndarray) else _box(d), axes, t.kind, t.dtype)
    r.base = Gather(t, list(index))
    if t.idx is not None and len(index) == 1 and isinstance(index[0], T):
        r.idx = r.axes[0] if r.axes else None
    return r


def _box(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _gather(d, axes, k, i):
    ax = axes[k]
    if i.dtype == "bool":
        if i.ndim != 1:
            raise Unsupported("multi-dimensional mask")
        if not same_axis(i.axes[0], ax):
            araise(IndexError, "boolean index did not match")
        sel = list(i.data)
        if not ax.generic and ax.parent is None and all(
            s.const() is not None for s in sel
        ):
            keep = [j for j, s in enumerate(sel) if s.const()]
            d = np.take(d, keep, axis=k)
            axes[k] = literal_axis(len(keep))
            return d, axes, k + 1
        axes[k] = _canon_sub(ax, sel)
        return d, axes, k + 1
    if i.idx is not None:
        # an index vector over a (selection of a) axis
        src = i.idx
        root = src.parent if src.parent is not None else src
        if not same_axis(root, ax):
            araise(IndexError, "index vector built for another axis")
        axes[k] = src
        return d, axes, k + 1
    # integer gather
    consts = [e.const() for e in i.flat()]
    if all(c is not None and c.denominator == 1 for c in consts) and not any(
        a.generic or a.parent is not None for a in i.axes
    ) and ax.parent is None and ax.n is not None:
        idx = np.array([int(c) for c in consts], dtype=int).reshape(i.data.shape)
        if idx.size and (idx.max() >= ax.n or idx.min() < -ax.n):
            araise(IndexError, "index out of bounds")
        d = np.take(d, idx, axis=k)
        axes[k:k + 1] = list(i.axes)
        if not isinstance(d, np.ndarray):
            d = _box(d)
        return d, axes, k + i.ndim
    if ax.parent is not None or ax.n is None:
        raise Unsupported("symbolic index into an axis of unknown length")
    # symbolic integer index into a literal axis: gated sum
    dm = np.moveaxis(d, k, 0)
    oshape = i.data.shape + dm.shape[1:]
    out = np.empty(oshape, dtype=object)
    for p in np.ndindex(*i.data.shape):
        e = i.data[p]
        w = index_gates(e, ax.n)
        for q in np.ndindex(*dm.shape[1:]):
            v = A.ZERO
            for j in range(ax.n):
                if w[j].d:
                    v = v + w[j] * dm[(j,) + q]
            out[p + q] = v
    # numpy semantics for a single advanced index: result axes at position k
    nd_i = i.ndim
    perm = list(range(nd_i, nd_i + k)) + list(range(nd_i)) + list(
        range(nd_i + k, out.ndim)
    )
    out = out.transpose(perm)
    axes[k:k + 1] = list(i.axes)
    return out, axes, k + nd_i


def index_gates(e, n):
    """Indicators [e == 0, ..., e == n-1] for an integer expression e."""
    c = e.const()
    if c is not None:
        if c.denominator != 1:
            araise(IndexError, "non-integer index")
        c = int(c)
        if not -n <= c < n:
            araise(IndexError, "index out of bounds")
        c %= n
        return [A.ONE if j == c else A.ZERO for j in range(n)]
    bs = A.bool_atoms(e)
    if bs and len(bs) <= 12:
        # e is a sum of indicators: expand
        a = min(bs)
        s = A.atom_expr(A.ATOMS[a])
        try:
            g1 = index_gates(A.cofactor(e, a, 1), n)
        except AbsRaise:
            g1 = [A.fn_raw("oob", ())] * n
        try:
            g0 = index_gates(A.cofactor(e, a, 0), n)
        except AbsRaise:
            g0 = [A.fn_raw("oob", ())] * n
        return [y + s * (x - y) for x, y in zip(g1, g0)]
    return [A.sym_bool("is<%d,%d>" % (A.fn_key("idx", e), j)) for j in range(n)]


def _canon_sub(ax, sel):
    return sub_axis(ax, sel) if ax.parent is None else sub_axis(
        ax.parent, [a * b for a, b in zip(ax.sel, sel)]
    )


def _multi_gather(t, index):
    """Advanced indexing with several index arrays (all leading, adjacent)."""
    ks = [k for k, i in enumerate(index) if isinstance(i, T) or (isinstance(i, int) and not isinstance(i, bool))]
    if any(i is None for i in index):
        raise Unsupported("newaxis with several index arrays")
    if ks != list(range(ks[0], ks[-1] + 1)):
        raise Unsupported("separated advanced indices")
    idx = [lift(index[k]) for k in ks]
    if any(i.dtype == "bool" for i in idx):
        raise Unsupported("several boolean masks")
    baxes = broadcast_axes([i.axes for i in idx])
    shape = tuple(a.size for a in baxes)
    arrs = [np.broadcast_to(expand_to(i, baxes), shape) for i in idx]
    k0 = ks[0]
    for k in ks:
        if t.axes[k].n is None or t.axes[k].parent is not None:
            raise Unsupported("symbolic index into an axis of unknown length")
    rest_axes = list(t.axes[:k0]) + list(t.axes[ks[-1] + 1:])
    for k, i in enumerate(index):
        if k not in ks and not _is_full_slice(i):
            raise Unsupported("slices with several index arrays")
    dm = np.moveaxis(t.data, ks, range(len(ks)))
    lens = [t.axes[k].n for k in ks]
    out = np.empty(shape + dm.shape[len(ks):], dtype=object)
    for p in np.ndindex(*shape):
        gates = [index_gates(a[p], n) for a, n in zip(arrs, lens)]
        terms = [((), A.ONE)]
        for g in gates:
            terms = [
                (pre + (j,), w * gj)
                for pre, w in terms
                for j, gj in enumerate(g)
                if gj.d
            ]
        for q in np.ndindex(*dm.shape[len(ks):]):
            v = A.ZERO
            for pre, w in terms:
                v = v + w * dm[pre + q]
            out[p + q] = v
    nb = len(shape)
    perm = list(range(nb, nb + k0)) + list(range(nb)) + list(
        range(nb + k0, out.ndim)
    )
    out = out.transpose(perm)
    axes = rest_axes[:k0] + list(baxes) + rest_axes[k0:]
    return T(out, axes, t.kind, t.dtype)


def set_subtensor(view, value, inc=False):
    """Result of pt.set_subtensor / x[idx] = value."""
    g = view.base
    if g is None:
        araise(TypeError, "x must be the result of a subtensor operation")
    base, index = g.base, g.index
    value = lift(value)
    if not base.axes:
        raise Unsupported("assignment into a scalar")
    out = base.data.copy()
    # single advanced leading index?
    adv = [k for k, i in enumerate(index) if isinstance(i, T)]
    if len(adv) > 1 or any(i is None for i in index):
        raise Unsupported("assignment with several index arrays")
    if adv:
        k = adv[0]
        i = index[k]
        for j, o in enumerate(index):
            if j != k and not _is_full_slice(o):
                raise Unsupported("assignment with mixed indices")
        ax = base.axes[k]
        vax = broadcast_axes([view.axes, value.axes])
        if len(vax) != view.ndim:
            araise(ValueError, "cannot broadcast value into selection")
        for a, b in zip(vax, view.axes):
            if not same_axis(a, b):
                araise(ValueError, "cannot broadcast value into selection")
        consts = [e.const() for e in i.flat()]
        if i.dtype != "bool" and i.idx is None:
            if not all(c is not None for c in consts) or i.ndim != 1:
                raise Unsupported("scatter with a symbolic index")
            vd = np.broadcast_to(
                expand_to(value, view.axes),
                tuple(a.size for a in view.axes),
            )
            om = np.moveaxis(out, k, 0)
            vm = np.moveaxis(vd, k, 0)
            for j, c in enumerate(consts):
                if not -om.shape[0] <= c < om.shape[0]:
                    araise(IndexError, "index out of bounds")
                for q in np.ndindex(*om.shape[1:]):
                    old = om[(int(c),) + q]
                    new = vm[(j,) + q]
                    om[(int(c),) + q] = old + new if inc else new
            return T(np.moveaxis(om, 0, k), base.axes, base.kind, base.dtype)
        vshape = tuple(a.size for a in view.axes)
        vd = np.broadcast_to(expand_to(value, view.axes), vshape)
        vk = view.axes[k]
        if vk.parent is None and not vk.generic and vk.n != ax.n:
            # concrete mask
            keep = [j for j, s in enumerate(i.data) if s.const()]
            om = np.moveaxis(out, k, 0)
            vm = np.moveaxis(vd, k, 0)
            for j, c in enumerate(keep):
                for q in np.ndindex(*om.shape[1:]):
                    om[(c,) + q] = (
                        om[(c,) + q] + vm[(j,) + q] if inc else vm[(j,) + q]
                    )
            return T(np.moveaxis(om, 0, k), base.axes, base.kind, base.dtype)
        sel = vk.sel if vk.parent is not None else [A.ONE] * ax.size
        # broadcast base too (its data may be narrower than the value only if
        # shapes differ, which numpy would reject)
        om = np.moveaxis(out, k, 0)
        vm = np.moveaxis(vd, k, 0)
        for j in range(om.shape[0]):
            for q in np.ndindex(*om.shape[1:]):
                old = om[(j,) + q]
                new = vm[(j,) + q]
                if inc:
                    new = old + new
                om[(j,) + q] = old + sel[j] * (new - old)
        return T(np.moveaxis(om, 0, k), base.axes, base.kind, base.dtype)
    # basic indices
    npidx = []
    for j, o in enumerate(index):
        if isinstance(o, slice):
            ax = base.axes[j] if j < base.ndim else None
            npidx.append(o)
        else:
            npidx.append(o)
    tgt = out[tuple(npidx)]
    vax = broadcast_axes([view.axes, value.axes])
    if len(vax) != view.ndim or not all(
        same_axis(a, b) for a, b in zip(vax, view.axes)
    ):
        araise(ValueError, "could not broadcast input array")
    vshape = tuple(a.size for a in view.axes)
    vd = np.broadcast_to(expand_to(value, view.axes), vshape)
    if vd.ndim == 0:
        new = vd[()]
        if inc:
            new = out[tuple(npidx)] + new
        out[tuple(npidx)] = new
    else:
        if inc:
            vd = tgt + vd
        out[tuple(npidx)] = vd
    return T(out, base.axes, base.kind, base.dtype)


def reshape(t, shape):
    if not isinstance(shape, (tuple, list)):
        if isinstance(shape, T) and shape.ndim == 1:
            shape = [T(e, (), "py", "int64") for e in shape.flat()]
        else:
            shape = [shape]
    shape = [int(s.const()) if isinstance(s, T) and s.const() is not None else s for s in shape]
    minus = [k for k, s in enumerate(shape) if isinstance(s, int) and s == -1]
    if minus:
        if len(minus) > 1:
            araise(ValueError, "can only specify one unknown dimension")
        known = [axis_from_dim(s) for k, s in enumerate(shape) if k != minus[0]]
        if len(shape) == 1:
            ax = _flat_axis(t)
            if ax is not None:
                return T(t.data.reshape(-1), (ax,), t.kind, t.dtype)
        # remove matching axes
        rem = list(t.axes)
        for a in known:
            if is_one(a):
                continue
            hit = next((r for r in rem if same_axis(r, a)), None)
            if hit is None and any(r.id in _PARTS for r in rem):
                parts = split_axes(rem)
                hit = next((r for r in parts if same_axis(r, a)), None)
                if hit is not None:
                    rem = parts
            if hit is None:
                if all(r.n is not None and r.parent is None for r in rem) and a.n:
                    tot = 1
                    for r in t.axes:
                        tot *= r.n
                    for b in known:
                        tot //= b.n
                    rem = [literal_axis(tot)]
                    break
                raise Unsupported("reshape with -1")
            rem.remove(hit)
        rem = [r for r in rem if not is_one(r)]
        if len(rem) > 1:
            if not plain_symbolic(rem):
                raise Unsupported("reshape merging axes")
            rem = [merged_axis(rem)]
        new = []
        it = iter(known)
        for k, s in enumerate(shape):
            new.append((rem[0] if rem else literal_axis(1)) if k == minus[0] else next(it))
        axes = new
    else:
        axes = [axis_from_dim(s) for s in shape]
    src = [a for a in t.axes if not is_one(a)]
    dst = [a for a in axes if not is_one(a)]
    if len(src) == len(dst) and all(same_axis(a, b) for a, b in zip(src, dst)):
        # identity up to unit axes: keep the source axis objects
        it = iter(src)
        axes = [a if is_one(a) else next(it) for a in axes]
        return T(t.data.reshape([a.size for a in axes]), axes, t.kind, t.dtype)
    ss, ds = split_axes(src), split_axes(dst)
    if len(ss) == len(ds) and (len(ss) > len(src) or len(ds) > len(dst)) and all(
        same_axis(a, b) for a, b in zip(ss, ds)
    ):
        return T(t.data.reshape([a.size for a in axes]), axes, t.kind, t.dtype)
    if all(a.n is not None and a.parent is None for a in src + dst):
        ns = 1
        for a in src:
            ns *= a.n
        nd = 1
        for a in dst:
            nd *= a.n
        if ns != nd:
            araise(ValueError, "cannot reshape array")
        return T(t.data.reshape([a.n for a in axes]), axes, t.kind, t.dtype)
    # a total-size mismatch is an error at run time
    ps = A.ONE
    for a in src:
        ps = ps * a.length
    pd = A.ONE
    for a in dst:
        pd = pd * a.length
    if not (ps - pd).is_zero():
        araise(ValueError, "cannot reshape array of shape %r to %r" % (t.axes, tuple(axes)))
    if sorted(map(repr, src)) == sorted(map(repr, dst)):
        # same size but axes in another order: elements would be scrambled
        out = np.empty([a.size for a in axes], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = A.fn_raw("scrambled", (t.data.reshape(-1)[0],))
        return T(out, axes, t.kind, t.dtype)
    if len(dst) == 1 and len(src) > 1:
        ax = _flat_axis(t)
        return T(t.data.reshape(-1), (ax,), t.kind, t.dtype)
    raise Unsupported("reshape %r -> %r" % (t.axes, tuple(axes)))


_MERGED = {}
_PARTS = {}


def merged_axis(parts):
    """The axis that enumerates the elements of several symbolic axes."""
    parts = tuple(parts)
    key = tuple(a.length.key() for a in parts)
    ax = _MERGED.get(key)
    if ax is None:
        n = A.ONE
        for a in parts:
            n = n * a.length
        ax = _MERGED[key] = Axis(name="*".join(map(repr, parts)), length=n)
        _PARTS[ax.id] = parts
    return ax


def split_axes(axes):
    out = []
    for a in axes:
        parts = _PARTS.get(a.id)
        if parts is None and a.n is None and a.parent is None:
            parts = next((_PARTS[m.id] for m in _MERGED.values() if (m.length - a.length).is_zero()), None)
        out.extend(split_axes(parts) if parts else [a])
    return out


def plain_symbolic(axes):
    return all(a.n is None and a.parent is None for a in axes)


def _flat_axis(t):
    src = [a for a in t.axes if not is_one(a)]
    if len(src) > 1 and plain_symbolic(src):
        return merged_axis(src)
    if len(src) == 1:
        return src[0]
    if not src:
        return literal_axis(1)
    if all(a.n is not None and a.parent is None for a in src):
        n = 1
        for a in src:
            n *= a.n
        return literal_axis(n)
    return None
