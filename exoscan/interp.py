"""Abstract interpreter for the analysed package.

The package's modules are parsed from source on every run.  Functions are
evaluated over the array domain of :mod:`exoscan.tensor`; library calls go to
the summaries of :mod:`exoscan.models`.  Where a branch depends on a value the
domain cannot decide, the analysis is partitioned and both sides are followed
(:meth:`Interp.explore`).
"""

import ast
import operator
import os
from collections import OrderedDict
from fractions import Fraction as F

from . import algebra as A
from . import tensor as tn
from .tensor import AbsRaise, T, Unsupported, araise


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class PathLimit(Exception):
    pass


class Namespace:
    """A module or class namespace."""

    def __init__(self, name):
        self.name = name
        self.vars = OrderedDict()


class Module(Namespace):
    def __init__(self, name, path=None):
        super().__init__(name)
        self.path = path
        self.tree = None

    def __repr__(self):
        return "<module %s>" % self.name


class ExtModule:
    """A modelled external module: name -> value, or a resolver."""

    def __init__(self, name, attrs=None, resolver=None, strict=False):
        self.name = name
        self.attrs = attrs if attrs is not None else {}
        self.resolver = resolver
        self.strict = strict
        self.writes = {}

    def get(self, attr):
        if attr in self.writes:
            return self.writes[attr]
        if attr in self.attrs:
            return self.attrs[attr]
        if self.resolver is not None:
            v = self.resolver(attr)
            if v is not None:
                return v
        if self.strict:
            araise(AttributeError, "module %s has no attribute %s" % (self.name, attr))
        raise Unsupported("no model for %s.%s" % (self.name, attr))

    def __repr__(self):
        return "<ext %s>" % self.name


class Cell:
    __slots__ = ("vars", "parent", "globals", "fn", "nonlocals", "globs", "cls")

    def __init__(self, parent, globals_, fn=None, cls=None):
        self.vars = {}
        self.parent = parent
        self.globals = globals_
        self.fn = fn
        self.nonlocals = set()
        self.globs = set()
        self.cls = cls


class Func:
    """An interpreted function."""

    def __init__(self, node, env, module, defaults, kwdefaults, qual, cls=None):
        self.node = node
        self.env = env
        self.module = module
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qual = qual
        self.cls = cls
        self.attrs = {}
        self.is_gen = _is_generator(node)
        self.dec_abstract = False

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    def __repr__(self):
        return "<function %s>" % self.qual


def _is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class BoundMethod:
    def __init__(self, func, obj):
        self.func = func
        self.obj = obj

    def __eq__(self, o):
        return isinstance(o, BoundMethod) and o.func is self.func and o.obj is self.obj

    def __hash__(self):
        return hash((id(self.func), id(self.obj)))

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class Class:
    def __init__(self, name, bases, ns, module, node=None):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.mro = self._mro()

    def _mro(self):
        out = [self]
        seqs = [list(b.mro) if isinstance(b, Class) else [b] for b in self.bases]
        seqs.append(list(self.bases))
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported("inconsistent MRO")
            out.append(c)
            for t in seqs:
                if t[0] is c:
                    t.pop(0)

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, Class):
                if name in c.ns:
                    return c.ns[name]
            elif isinstance(c, type) and c is not object and hasattr(c, name) and not name.startswith("__"):
                return getattr(c, name)
        return None

    def __repr__(self):
        return "<class %s>" % self.name


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = OrderedDict()
        self.sealed = False

    def __repr__(self):
        return "<%s object>" % self.cls.name


class PropertyObj:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class SuperObj:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Model:
    """A library function summary."""

    def __init__(self, f, name=None):
        self.f = f
        self.name = name or getattr(f, "__name__", "?")
        self.attrs = {}

    def __repr__(self):
        return "<model %s>" % self.name


class Partial:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class NTClass:
    """collections.namedtuple class."""

    def __init__(self, name, fields, defaults=(), base=None, ns=None):
        self.name = name
        self.fields = fields
        self.defaults = defaults
        self.base = base
        self.ns = ns or {}

    def lookup(self, name):
        c = self
        while c is not None:
            if name in c.ns:
                return c.ns[name]
            c = c.base
        return None

    def derives(self, other):
        c = self
        while c is not None:
            if c is other:
                return True
            c = c.base
        return False


class NTuple(tuple):
    nt = None


class Poison:
    """What a module-level name is bound to when the statement that binds it
    is beyond the interpreter: only a use of the name is undecided."""

    def __init__(self, name, why):
        self.name = name
        self.why = why

    def use(self):
        raise Unsupported("%s (bound by a statement that is not supported: %s)" % (self.name, self.why))

    def abs_call(self, *a, **k):
        self.use()

    def abs_getattr(self, *a):
        self.use()

    def abs_binop(self, *a):
        self.use()


class DefaultDict(OrderedDict):
    factory = None


class Event:
    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)

    def __repr__(self):
        return "Event(%s)" % ", ".join(
            "%s=%r" % kv for kv in self.__dict__.items()
        )


BUILTIN_EXC = {
    n: getattr(__import__("builtins"), n)
    for n in dir(__import__("builtins"))
    if isinstance(getattr(__import__("builtins"), n), type)
    and issubclass(getattr(__import__("builtins"), n), BaseException)
}

_BIN = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv",
    ast.Pow: "pow", ast.Mod: "mod", ast.FloorDiv: "floordiv",
    ast.BitAnd: "and_", ast.BitOr: "or_", ast.BitXor: "xor",
    ast.LShift: "lshift", ast.RShift: "rshift", ast.MatMult: "matmul",
}
_DUNDER = {
    "add": "__add__", "sub": "__sub__", "mul": "__mul__",
    "truediv": "__truediv__", "pow": "__pow__", "mod": "__mod__",
    "floordiv": "__floordiv__", "and_": "__and__", "or_": "__or__",
    "xor": "__xor__", "matmul": "__matmul__",
}


def bound_names(st):
    """The names a simple binding statement binds (none: do not go on)."""
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return [st.name]
    if isinstance(st, ast.Assign) and all(isinstance(t, ast.Name) for t in st.targets):
        return [t.id for t in st.targets]
    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
        return [st.target.id]
    if isinstance(st, ast.Import):
        return [al.asname or al.name.split(".")[0] for al in st.names]
    return []


class Interp:
    def __init__(self, root, backend="pymc", env=None):
        self.root = root  # directory containing exoplanet/
        self.backend = backend
        self.environ = dict(env or {})
        self.modules = {}
        self.events = []
        self.decisions = []
        self.dpos = 0
        self.assumed = []
        self.stack = []
        self.steps = 0
        self.max_steps = 4_000_000
        self.functions_seen = {}
        self.call_sites = 0
        self.on_instance = None
        from . import models

        self.models = models
        self.ext = models.build(self)
        self.builtins = models.builtins(self)

    # -- partitioned exploration -----------------------------------------
    def explore(self, thunk, limit=64):
        """All outcomes of thunk over undecidable branches.

        Returns a list of (assumptions, outcome) with outcome ('ok', value) or
        ('raise', AbsRaise).
        """
        results = []
        work = [[]]
        while work:
            prefix = work.pop()
            if len(results) > limit:
                raise PathLimit("more than %d partitions" % limit)
            self.decisions = list(prefix)
            self.dpos = 0
            self.assumed = []
            ev = len(self.events)
            try:
                out = ("ok", thunk())
            except AbsRaise as e:
                out = ("raise", e)
            taken = self.decisions
            for k in range(len(prefix), len(taken)):
                if taken[k][1]:
                    work.append(
                        [d for d in taken[:k]] + [(False, False)]
                    )
            results.append((list(self.assumed), out, self.events[ev:]))
        self.decisions = []
        self.dpos = 0
        return results

    def decide(self, cond, node=None):
        """Truth of an undecided indicator on the current partition."""
        for e, v in self.assumed:
            if (e - cond).is_zero():
                return v
            if (e + cond - 1).is_zero():
                return not v
        if self.dpos < len(self.decisions):
            v = self.decisions[self.dpos][0]
        else:
            v = True
            self.decisions.append((True, True))
        self.dpos += 1
        self.assumed.append((cond, v))
        return v

    def truth(self, v):
        if v is None or v is False:
            return False
        if v is True:
            return True
        if isinstance(v, (int, F)):
            return v != 0
        if isinstance(v, (str, bytes, list, tuple, dict, set, frozenset, range)):
            return len(v) > 0
        if isinstance(v, T):
            if v.data.size == 0:
                return False
            if v.data.size > 1 or any(a.generic for a in v.axes):
                araise(
                    ValueError if v.kind != "pt" else TypeError,
                    "truth value of an array is ambiguous",
                )
            if v.kind == "pt":
                self.events.append(Event("tensor_truth", site=self.site()))
                araise(
                    TypeError,
                    "Variables do not support boolean operations.",
                )
            e = v.item()
            if v.dtype != "bool":
                e = A.ONE - A.eq0(e)
            c = e.const()
            if c is not None:
                return c != 0
            return self.decide(e)
        if isinstance(v, Obj):
            m = v.cls.lookup("__bool__")
            if m is not None:
                return self.truth(self.call(BoundMethod(m, v), []))
            m = v.cls.lookup("__len__")
            if m is not None:
                return self.truth(self.call(BoundMethod(m, v), []))
            return True
        tr = getattr(v, "abs_truth", None)
        if tr is not None:
            return tr(self)
        return True

    # -- modules ------------------------------------------------------------
    def site(self):
        if not self.stack:
            return "?"
        f, n = self.stack[-1]
        mod = f.module.name if isinstance(f, Func) else f.name
        return "%s:%s:%s" % (
            mod, getattr(f, "qual", ""), getattr(n, "lineno", "?")
        )

    def trace(self):
        out = []
        for f, n in self.stack:
            mod = f.module if isinstance(f, Func) else f
            out.append(
                "%s:%s (%s)"
                % (mod.path, getattr(n, "lineno", "?"), getattr(f, "qual", "module"))
            )
        return out

    def find_module(self, name):
        rel = name.replace(".", "/")
        p = os.path.join(self.root, rel + ".py")
        if os.path.isfile(p):
            return p, False
        p = os.path.join(self.root, rel, "__init__.py")
        if os.path.isfile(p):
            return p, True
        return None, False

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name.split(".")[0] == "exoplanet":
            parent = name.rpartition(".")[0]
            if parent:
                self.import_module(parent)
                if name in self.modules:
                    return self.modules[name]
            path, pkg = self.find_module(name)
            if path is None:
                if name == "exoplanet.exoplanet_version":
                    m = Module(name, "<generated>")
                    m.vars["__version__"] = "0"
                    m.vars["version"] = "0"
                    self.modules[name] = m
                    return m
                araise(ImportError, "No module named %r" % name)
            m = Module(name, path)
            m.is_pkg = pkg
            self.modules[name] = m
            with open(path) as fh:
                src = fh.read()
            m.tree = ast.parse(src, path)
            m.vars["__name__"] = name
            m.vars["__doc__"] = ast.get_docstring(m.tree)
            m.vars["__file__"] = path
            env = Cell(None, m)
            env.vars = m.vars
            self.stack.append((m, m.tree))
            try:
                self.exec_block(m.tree.body, env)
            except AbsRaise:
                self.modules.pop(name, None)
                raise
            finally:
                self.stack.pop()
            if parent:
                pm = self.modules.get(parent)
                if pm is not None:
                    pm.vars.setdefault(name.rpartition(".")[2], m)
                    pm.vars[name.rpartition(".")[2]] = m
            return m
        v = self.ext.get(name)
        if v is None:
            if name in self.models.MISSING.get(self.backend, ()) or name.split(".")[0] in self.models.MISSING.get(self.backend, ()):
                araise(ModuleNotFoundError, "No module named %r" % name)
            # a submodule reachable as attribute
            head, _, tail = name.rpartition(".")
            if head:
                h = self.import_module(head)
                return h.get(tail) if isinstance(h, ExtModule) else self.getattr(h, tail)
            raise Unsupported("no model for module %r" % name)
        if isinstance(v, Exception):
            raise AbsRaise(v)
        return v

    # -- execution ------------------------------------------------------------
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step bound exceeded")
        if self.stack:
            self.stack[-1] = (self.stack[-1][0], st)
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        if env.vars is not env.globals.vars:
            return m(st, env)
        try:
            m(st, env)
        except Unsupported as e:
            # at the level of a module: only what uses the name is undecided
            names = bound_names(st)
            if not names or self.steps > self.max_steps:
                raise
            for n in names:
                env.vars[n] = Poison(n, str(e))

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def x_Pass(self, st, env):
        pass

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if env.fn == "class" and isinstance(st.target, ast.Name):
            env.vars.setdefault("__annotations__", OrderedDict())[st.target.id] = ast.unparse(st.annotation)
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def x_AugAssign(self, st, env):
        tgt = st.target
        op = _BIN[type(st.op)]
        if isinstance(tgt, ast.Name):
            cur = self.load_name(tgt.id, env)
            new = self.inplace(op, cur, self.eval(st.value, env))
            self.store_name(tgt.id, new, env)
        elif isinstance(tgt, ast.Attribute):
            o = self.eval(tgt.value, env)
            cur = self.getattr(o, tgt.attr)
            new = self.inplace(op, cur, self.eval(st.value, env))
            self.setattr(o, tgt.attr, new)
        elif isinstance(tgt, ast.Subscript):
            o = self.eval(tgt.value, env)
            i = self.eval_index(tgt.slice, env)
            cur = self.getitem(o, i)
            new = self.inplace(op, cur, self.eval(st.value, env))
            self.setitem(o, i, new)
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, cur, val):
        if isinstance(cur, list) and op == "add":
            self.mutated(cur)
            cur.extend(self.iterate(val))
            return cur
        if isinstance(cur, set) and op in ("or_", "and_", "sub"):
            new = getattr(operator, op)(cur, val)
            cur.clear()
            cur.update(new)
            return cur
        if isinstance(cur, dict) and op == "or_":
            self.mutated(cur)
            cur.update(val)
            return cur
        if isinstance(cur, T) and cur.kind == "np" and cur.ndim > 0:
            r = self.binop(op, cur, val)
            if isinstance(r, T):
                if r.kind == "pt":
                    return r
                if len(r.axes) != cur.ndim or not all(
                    tn.same_axis(a, b) for a, b in zip(r.axes, cur.axes)
                ):
                    araise(ValueError, "non-broadcastable output operand")
                if cur.dtype == "int64" and r.dtype == "float64":
                    araise(TypeError, "Cannot cast ufunc output from float64 to int64")
                self.np_write(cur, r.data)
                return cur
            return r
        if isinstance(cur, Obj):
            m = cur.cls.lookup("__i" + _DUNDER.get(op, "__?").lstrip("_"))
            if m is not None:
                return self.call(BoundMethod(m, cur), [val])
        return self.binop(op, cur, val)

    def np_write(self, t, data):
        """In-place update of a numpy array (and the array it is a view of)."""
        self.mutated(t)
        t.data = data
        g = t.base
        if g is not None and all(
            not isinstance(i, T) for i in g.index
        ) and g.base.kind == "np":
            new = tn.set_subtensor(t, T(data, t.axes, t.kind, t.dtype))
            self.np_write(g.base, new.data)

    def mutated(self, v):
        o = self.owner_of(v)
        if o is not None:
            self.events.append(Event("mutate_input", owner=o, site=self.site(), trace=self.trace()))

    def owner_of(self, v):
        if isinstance(v, T):
            return v.owner
        return self.models.OWNED.get(id(v), (None, None))[1]

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = list(self.iterate(v))
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(vals) < k + after:
                    araise(ValueError, "not enough values to unpack")
                for e, x in zip(t.elts[:k], vals[:k]):
                    self.assign(e, x, env)
                self.assign(t.elts[k].value, vals[k:len(vals) - after], env)
                for e, x in zip(t.elts[k + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, env)
            else:
                if len(vals) < len(t.elts):
                    araise(ValueError, "not enough values to unpack")
                if len(vals) > len(t.elts):
                    araise(ValueError, "too many values to unpack")
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_index(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id not in env.vars:
                    raise Unsupported("del of an outer name")
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                i = self.eval_index(t.slice, env)
                if isinstance(o, dict):
                    if i not in o:
                        raise AbsRaise(KeyError(i))
                    self.mutated(o)
                    del o[i]
                elif isinstance(o, list):
                    self.mutated(o)
                    del o[i]
                else:
                    raise Unsupported("del item")
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, (Obj, T)):
                    if t.attr not in o.attrs:
                        araise(AttributeError, t.attr)
                    del o.attrs[t.attr]
                else:
                    raise Unsupported("del attribute")

    def x_Return(self, st, env):
        raise _Return(None if st.value is None else self.eval(st.value, env))

    def x_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def x_While(self, st, env):
        n = 0
        while self.truth(self.eval(st.test, env)):
            n += 1
            if n > 200:
                raise Unsupported("loop bound exceeded")
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(st.orelse, env)

    def x_For(self, st, env):
        for v in self.iterate(self.eval(st.iter, env)):
            self.assign(st.target, v, env)
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(st.orelse, env)

    def x_Break(self, st, env):
        raise _Break()

    def x_Continue(self, st, env):
        raise _Continue()

    def x_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(self, "_cur_exc", None)
            if cur is None:
                araise(RuntimeError, "No active exception to reraise")
            raise cur
        v = self.eval(st.exc, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = v()
        if isinstance(v, Class):
            v = self.call(v, [])
        if isinstance(v, Obj):
            v = self.as_exc(v)
        if not isinstance(v, BaseException):
            araise(TypeError, "exceptions must derive from BaseException")
        e = AbsRaise(v)
        e.trace = self.trace()
        raise e

    def as_exc(self, o):
        base = next(
            (c for c in o.cls.mro if isinstance(c, type) and issubclass(c, BaseException)),
            None,
        )
        if base is None:
            araise(TypeError, "exceptions must derive from BaseException")
        e = base(*o.attrs.get("args", ()))
        e.abs_obj = o
        return e

    def x_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            araise(AssertionError, "assertion")

    def x_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except AbsRaise as e:
                h = self.find_handler(st.handlers, e, env)
                if h is None:
                    raise
                prev = getattr(self, "_cur_exc", None)
                self._cur_exc = e
                if h.name:
                    env.vars[h.name] = e.exc
                try:
                    self.exec_block(h.body, env)
                finally:
                    self._cur_exc = prev
            else:
                self.exec_block(st.orelse, env)
        finally:
            import sys

            et = sys.exc_info()[0]
            if et is None or not issubclass(et, (Unsupported, A.AlgebraLimit)):
                self.exec_block(st.finalbody, env)

    def find_handler(self, handlers, e, env):
        for h in handlers:
            if h.type is None:
                return h
            t = self.eval(h.type, env)
            if self.exc_match(e.exc, t):
                return h
        return None

    def exc_match(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_match(exc, x) for x in t)
        if isinstance(t, type):
            return isinstance(exc, t)
        if isinstance(t, Class):
            o = getattr(exc, "abs_obj", None)
            return o is not None and t in o.cls.mro
        if isinstance(t, ExcModel):
            return isinstance(exc, ExternalError) and exc.name == t.name
        raise Unsupported("except clause type")

    def x_With(self, st, env):
        self.with_items(list(st.items), st.body, env)

    def with_items(self, items, body, env):
        if not items:
            self.exec_block(body, env)
            return
        it = items[0]
        m = self.eval(it.context_expr, env)
        if isinstance(m, GenCM):
            # the body runs in place of the generator's one yield: exceptions
            # go through its try statements; return, break and continue are
            # carried round it
            done = []

            def run(v):
                if done:
                    raise AbsRaise(RuntimeError("generator didn't stop"))
                done.append(None)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
                try:
                    self.with_items(items[1:], body, env)
                except (_Return, _Break, _Continue) as sig:
                    done[0] = sig
                return None

            self.call_func(m.func, m.args, m.kw, on_yield=run)
            if not done:
                raise AbsRaise(RuntimeError("generator didn't yield"))
            if done[0] is not None:
                raise done[0]
            return
        v = self.enter(m)
        left = False
        try:
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            self.with_items(items[1:], body, env)
        except AbsRaise as e:
            left = True
            if not self.leave(m, e):
                raise
        finally:
            if not left:
                self.leave(m, None)

    def x_Match(self, st, env):
        v = self.eval(st.subject, env)
        for case in st.cases:
            if self.matches(case.pattern, v, env) and (case.guard is None or self.truth(self.eval(case.guard, env))):
                self.exec_block(case.body, env)
                return

    def matches(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, env):
                return False
            if p.name is not None:
                self.store_name(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.matches(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                return False
            star = [k for k, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            vs = list(v)
            if star:
                k = star[0]
                tail = len(p.patterns) - k - 1
                if len(vs) < k + tail:
                    return False
                if not all(self.matches(q, x, env) for q, x in zip(p.patterns[:k], vs[:k])):
                    return False
                if not all(self.matches(q, x, env) for q, x in zip(p.patterns[k + 1:], vs[len(vs) - tail:])):
                    return False
                if p.patterns[k].name is not None:
                    self.store_name(p.patterns[k].name, vs[k:len(vs) - tail], env)
                return True
            return len(vs) == len(p.patterns) and all(self.matches(q, x, env) for q, x in zip(p.patterns, vs))
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, dict):
                return False
            seen = []
            for k, q in zip(p.keys, p.patterns):
                k = self.eval(k, env)
                if k not in v or not self.matches(q, v[k], env):
                    return False
                seen.append(k)
            if p.rest is not None:
                self.store_name(p.rest, OrderedDict((k, x) for k, x in v.items() if k not in seen), env)
            return True
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, env)
            if not self.isinst(v, c):
                return False
            if p.patterns and (len(p.patterns) > 1 or p.kwd_attrs):
                raise Unsupported("positional class pattern")
            if p.patterns and not self.matches(p.patterns[0], v, env):
                return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                try:
                    x = self.getattr(v, n)
                except AbsRaise as e:
                    if isinstance(e.exc, AttributeError):
                        return False
                    raise
                if not self.matches(q, x, env):
                    return False
            return True
        raise Unsupported("match pattern")

    def enter(self, m):
        f = getattr(m, "abs_enter", None)
        if f is not None:
            return f(self)
        if isinstance(m, Obj):
            g = m.cls.lookup("__enter__")
            if g is not None:
                return self.call(BoundMethod(g, m), [])
        raise Unsupported("context manager %r" % (m,))

    def leave(self, m, e):
        f = getattr(m, "abs_exit", None)
        if f is not None:
            return f(self, e)
        if isinstance(m, Obj):
            g = m.cls.lookup("__exit__")
            if g is not None:
                r = self.call(
                    BoundMethod(g, m),
                    [None, None, None] if e is None else [type(e.exc), e.exc, None],
                )
                return r is True
        return False

    def x_FunctionDef(self, st, env):
        self.store_name(st.name, self.make_function(st, env), env)

    def make_function(self, st, env):
        f = self.mkfunc(st, env)
        v = f
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d, env), [v])
        return v

    def mkfunc(self, st, env):
        a = st.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {
            arg.arg: self.eval(d, env)
            for arg, d in zip(a.kwonlyargs, a.kw_defaults)
            if d is not None
        }
        e = env
        while e is not None and e.cls is not None and e.fn == "class":
            e = e.parent
        q = getattr(st, "name", "<lambda>")
        if env.cls is not None and env.fn == "class":
            q = env.cls + "." + q
        elif isinstance(env.fn, Func):
            q = env.fn.qual + "." + q
        f = Func(st, e, env.globals, defaults, kwd, q)
        self.functions_seen.setdefault((f.module.name, q), st.lineno)
        return f

    def x_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        for b in bases:
            if isinstance(b, ExtModule) or isinstance(b, Model):
                raise Unsupported("class deriving from %r" % (b,))
        sub = Cell(env, env.globals, fn="class", cls=st.name)
        self.exec_block(st.body, sub)
        if len(bases) == 1 and isinstance(bases[0], NTClass):
            b = bases[0]
            self.store_name(st.name, self.named_tuple(st, b.fields, b.defaults, b, sub.vars, env), env)
            return
        if any(isinstance(b, NTClass) or getattr(b, "abs_typing", None) for b in bases):
            names = list(sub.vars.get("__annotations__", ()))
            if len(bases) > 1 or getattr(bases[0], "abs_typing", None) not in ("NamedTuple",):
                raise Unsupported("class deriving from %r" % (bases,))
            defaults = tuple(sub.vars[k] for k in names if k in sub.vars)
            self.store_name(st.name, self.named_tuple(st, names, defaults, None, sub.vars, env), env)
            return
        c = Class(st.name, bases or [object], sub.vars, env.globals, st)
        for v in sub.vars.values():
            g = v
            if isinstance(g, (StaticM, ClassM)):
                g = g.f
            if isinstance(g, PropertyObj):
                for h in (g.fget, g.fset):
                    if isinstance(h, Func):
                        h.cls = c
            if isinstance(g, Func):
                g.cls = c
        v = c
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d, env), [v])
        self.store_name(st.name, v, env)

    def named_tuple(self, st, fields, defaults, base, ns, env):
        """A class of named tuples, with the methods its body defines."""
        ns = {k: v for k, v in ns.items() if k not in fields and k != "__annotations__"}
        for k in ns:
            if k.startswith("__") and k not in (
                "__doc__", "__slots__", "__module__", "__qualname__", "__repr__", "__str__", "__call__",
            ):
                raise Unsupported("method %s of a named tuple" % k)
        c = NTClass(st.name, fields, defaults, base, ns)
        v = c
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d, env), [v])
        return v

    def x_Import(self, st, env):
        for al in st.names:
            m = self.import_module(al.name)
            if al.asname:
                self.store_name(al.asname, m, env)
            else:
                top = al.name.split(".")[0]
                self.store_name(top, self.import_module(top), env)

    def x_ImportFrom(self, st, env):
        name = st.module or ""
        if st.level:
            base = env.globals.name.split(".")
            if not getattr(env.globals, "is_pkg", False):
                base = base[:-1]
            if st.level > 1:
                base = base[: -(st.level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name == "__future__":
            return
        m = self.import_module(name)
        for al in st.names:
            if al.name == "*":
                if not isinstance(m, Module):
                    raise Unsupported("star import of %r" % name)
                names = m.vars.get("__all__")
                if names is None:
                    names = [k for k in m.vars if not k.startswith("_")]
                for n in names:
                    if n not in m.vars:
                        araise(AttributeError, "module %s has no attribute %s" % (name, n))
                    self.store_name(n, m.vars[n], env)
                continue
            self.store_name(al.asname or al.name, self.import_attr(m, name, al.name), env)

    def import_attr(self, m, name, attr):
        if isinstance(m, Module):
            if attr in m.vars:
                return m.vars[attr]
            path, _ = self.find_module(name + "." + attr)
            if path is not None:
                return self.import_module(name + "." + attr)
            araise(ImportError, "cannot import name %r from %r" % (attr, name))
        try:
            return m.get(attr) if isinstance(m, ExtModule) else self.getattr(m, attr)
        except AbsRaise:
            pass
        v = self.ext.get(name + "." + attr)
        if v is not None:
            return v
        araise(ImportError, "cannot import name %r from %r" % (attr, name))

    def x_Global(self, st, env):
        env.globs.update(st.names)

    def x_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    # -- names ---------------------------------------------------------------
    def store_name(self, n, v, env):
        if n in env.globs:
            self.events.append(Event("global_write", name=n, module=env.globals.name, site=self.site()))
            env.globals.vars[n] = v
            return
        if n in env.nonlocals:
            e = env.parent
            while e is not None:
                if n in e.vars:
                    e.vars[n] = v
                    return
                e = e.parent
        env.vars[n] = v

    def load_name(self, n, env):
        e = env
        if n in env.globs:
            e = None
        while e is not None:
            if n in e.vars:
                v = e.vars[n]
                return v.use() if isinstance(v, Poison) else v
            e = e.parent
        g = env.globals.vars
        if n in g:
            v = g[n]
            return v.use() if isinstance(v, Poison) else v
        if n in self.builtins:
            return self.builtins[n]
        # python distinguishes unbound locals; both are NameErrors
        araise(NameError, "name %r is not defined" % n)

    # -- expressions -----------------------------------------------------------
    def eval(self, node, env):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(node).__name__)
        return m(node, env)

    def e_Constant(self, n, env):
        v = n.value
        if isinstance(v, float):
            if v != v:
                return T(A.NAN, (), "py")
            if v in (float("inf"), float("-inf")):
                return T(A.INF if v > 0 else -A.INF, (), "py")
            return F(repr(v))
        if isinstance(v, complex):
            raise Unsupported("complex literal")
        return v

    def e_Name(self, n, env):
        return self.load_name(n.id, env)

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def e_List(self, n, env):
        return self.elts(n.elts, env)

    def e_Set(self, n, env):
        return set(self.elts(n.elts, env))

    def elts(self, es, env):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value, env)))
            else:
                out.append(self.eval(e, env))
        return out

    def e_Dict(self, n, env):
        d = OrderedDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(v, env)
                if not isinstance(src, dict):
                    raise Unsupported("dict unpacking")
                d.update(src)
            else:
                d[self.hashable(self.eval(k, env))] = self.eval(v, env)
        return d

    def hashable(self, k):
        if isinstance(k, (list, dict, set)):
            araise(TypeError, "unhashable type")
        return k

    def e_Lambda(self, n, env):
        return self.mkfunc(n, env)

    def e_IfExp(self, n, env):
        return self.eval(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)

    def e_BoolOp(self, n, env):
        v = None
        for e in n.values:
            v = self.eval(e, env)
            t = self.truth(v) if e is not n.values[-1] else None
            if isinstance(n.op, ast.And):
                if t is False:
                    return v
            elif t is True:
                return v
        return v

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        return self.unary({ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "invert"}[type(n.op)], v)

    def unary(self, op, v):
        if isinstance(v, Obj):
            m = v.cls.lookup({"neg": "__neg__", "pos": "__pos__", "invert": "__invert__"}[op])
            if m is not None:
                return self.call(BoundMethod(m, v), [])
        h = getattr(v, "abs_unary", None)
        if h is not None:
            return h(self, op)
        if isinstance(v, (bool, int, F)):
            if op == "invert" and isinstance(v, F):
                araise(TypeError, "bad operand type for unary ~: 'float'")
            return {"neg": operator.neg, "pos": operator.pos, "invert": operator.invert}[op](v)
        if isinstance(v, T):
            if op == "neg":
                if v.dtype == "bool" and v.kind != "py":
                    araise(TypeError, "boolean negative is not supported")
                return tn.mapped(lambda x: -x, [v])
            if op == "pos":
                return v
            if v.dtype == "bool":
                return tn.mapped(lambda x: A.ONE - x, [v])
            if v.dtype == "float64":
                araise(TypeError, "ufunc 'invert' not supported for float")
            return tn.mapped(lambda x: -x - 1, [v])
        araise(TypeError, "bad operand type for unary operator")

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        return self.binop(_BIN[type(n.op)], a, b)

    def binop(self, op, a, b):
        for x, y, rev in ((a, b, False), (b, a, True)):
            h = getattr(x, "abs_binop", None)
            if h is not None:
                r = h(self, op, y, rev)
                if r is not NotImplemented:
                    return r
            if isinstance(x, Obj):
                d = _DUNDER.get(op)
                if d:
                    if rev:
                        d = "__r" + d[2:]
                    m = x.cls.lookup(d)
                    if m is not None:
                        return self.call(BoundMethod(m, x), [y])
        if isinstance(a, T) or isinstance(b, T):
            return self.models.arith(self, op, a, b)
        num = (bool, int, F)
        if isinstance(a, num) and isinstance(b, num):
            return self.num_binop(op, a, b)
        if op == "add":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, list) and isinstance(b, list):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return tuple(a) + tuple(b)
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (str, list, tuple)) and isinstance(y, (int, bool)):
                    return x * y
        if op == "mod" and isinstance(a, str):
            return self.format_percent(a, b)
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return getattr(operator, op)(a, b)
        if op == "or_" and isinstance(a, dict) and isinstance(b, dict):
            d = OrderedDict(a)
            d.update(b)
            return d
        if op == "and_" or op == "or_" or op == "xor":
            if isinstance(a, bool) and isinstance(b, bool):
                return getattr(operator, op)(a, b)
        araise(
            TypeError,
            "unsupported operand type(s) for %s: %r and %r"
            % (op, type(a).__name__, type(b).__name__),
        )

    def format_percent(self, a, b):
        vals = b if isinstance(b, tuple) else (b,)
        try:
            return a % tuple(self.to_str(v) if not isinstance(v, (int, str)) else v for v in vals)
        except Exception:
            raise Unsupported("percent formatting")

    def num_binop(self, op, a, b):
        fl = isinstance(a, F) or isinstance(b, F)
        try:
            if op == "truediv":
                return F(a) / F(b)
            if op == "pow":
                if isinstance(b, F) and b.denominator != 1 or (not fl and b < 0) or (isinstance(b, F)):
                    r = A.power(A.ex(a), F(b))
                    c = r.const()
                    return F(c) if c is not None else T(r, (), "py")
                return a**b if not isinstance(a, F) else F(a) ** int(b)
            if op in ("and_", "or_", "xor", "lshift", "rshift"):
                if fl:
                    araise(TypeError, "unsupported operand type for bitwise op")
                return getattr(operator, op)(a, b)
            if op == "floordiv":
                r = F(a) // F(b)
                return F(r) if fl else int(r)
            if op == "mod":
                r = F(a) % F(b)
                return r if fl else int(r)
            if op == "matmul":
                araise(TypeError, "matmul of scalars")
            r = getattr(operator, op)(a, b)
            return F(r) if fl else r
        except ZeroDivisionError:
            araise(ZeroDivisionError, "division by zero")

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, env)
            r = self.compare(type(op).__name__, left, right)
            if res is None:
                res = r
            else:
                if not self.truth(res):
                    return res
                res = r
            left = right
        return res

    def compare(self, op, a, b):
        if op == "Is":
            return self.is_same(a, b)
        if op == "IsNot":
            return not self.is_same(a, b)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else not r
        for x, y, rev in ((a, b, False), (b, a, True)):
            h = getattr(x, "abs_compare", None)
            if h is not None:
                r = h(self, op, y, rev)
                if r is not NotImplemented:
                    return r
            if isinstance(x, Obj) and op in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"):
                nm = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}
                m = x.cls.lookup(nm[op]) if not rev else None
                if m is not None:
                    return self.call(BoundMethod(m, x), [y])
        num = (bool, int, F)
        if isinstance(a, num) and isinstance(b, num):
            return {
                "Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt,
                "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge,
            }[op](a, b)
        if isinstance(a, T) or isinstance(b, T):
            if op in ("Eq", "NotEq") and (
                (isinstance(a, T) and a.kind == "pt")
                or (isinstance(b, T) and b.kind == "pt")
            ):
                if not (isinstance(a, T) and isinstance(b, T)) or True:
                    return (a is b) == (op == "Eq")
            if op in ("Eq", "NotEq"):
                if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                    return op == "NotEq"
            return self.models.compare(self, op, a, b)
        if op == "Eq":
            return self.py_eq(a, b)
        if op == "NotEq":
            return not self.py_eq(a, b)
        if isinstance(a, (str, list, tuple, set, frozenset)) and type(a) == type(b):
            return {
                "Lt": operator.lt, "LtE": operator.le,
                "Gt": operator.gt, "GtE": operator.ge,
            }[op](a, b)
        araise(TypeError, "'%s' not supported between %s and %s" % (op, type(a).__name__, type(b).__name__))

    def py_eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
                return False
            return all(self.truth(self.compare("Eq", x, y)) for x, y in zip(a, b))
        if isinstance(a, (Obj, Func, Class, Module, ExtModule, Model)) or isinstance(
            b, (Obj, Func, Class, Module, ExtModule, Model)
        ):
            return a is b
        return a == b

    def is_same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (bool, str, int)) and isinstance(b, (bool, str, int)):
            return type(a) is type(b) and a == b
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
            return False
        return False

    def contains(self, c, x):
        if isinstance(c, (dict, set, frozenset)):
            try:
                return self.hashable(x) in c
            except TypeError:
                araise(TypeError, "unhashable")
        if isinstance(c, str):
            if not isinstance(x, str):
                araise(TypeError, "'in <string>' requires string")
            return x in c
        if isinstance(c, (list, tuple, range)):
            for y in c:
                if y is x:
                    return True
                if isinstance(y, T) or isinstance(x, T):
                    if self.truth(self.compare("Eq", y, x)):
                        return True
                    continue
                if self.py_eq(y, x):
                    return True
            return False
        if isinstance(c, Obj):
            m = c.cls.lookup("__contains__")
            if m is not None:
                return self.truth(self.call(BoundMethod(m, c), [x]))
        h = getattr(c, "abs_contains", None)
        if h is not None:
            return h(self, x)
        if isinstance(c, (dict.keys.__class__,)):
            return x in c
        try:
            return x in c
        except TypeError:
            araise(TypeError, "argument is not iterable")

    def e_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        o = self.eval(n.value, env)
        return self.getitem(o, self.eval_index(n.slice, env))

    def eval_index(self, n, env):
        if isinstance(n, ast.Slice):
            return slice(
                *(None if x is None else self.eval(x, env) for x in (n.lower, n.upper, n.step))
            )
        if isinstance(n, ast.Tuple):
            return tuple(
                i
                for e in n.elts
                for i in (
                    self.iterate(self.eval(e.value, env))
                    if isinstance(e, ast.Starred)
                    else [self.eval_index(e, env)]
                )
            )
        return self.eval(n, env)

    def e_Slice(self, n, env):
        return self.eval_index(n, env)

    def e_Starred(self, n, env):
        raise Unsupported("starred expression")

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_JoinedStr(self, n, env):
        return "".join(self.eval(v, env) for v in n.values)

    def e_FormattedValue(self, n, env):
        v = self.eval(n.value, env)
        spec = self.eval(n.format_spec, env) if n.format_spec else ""
        if n.conversion == 114:
            return self.to_repr(v)
        if spec:
            try:
                if isinstance(v, F):
                    v = float(v)
                return format(v, spec)
            except Exception:
                return self.to_str(v)
        return self.to_str(v)

    def to_str(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, F):
            return repr(float(v))
        if isinstance(v, BaseException):
            return str(v)
        if isinstance(v, Obj):
            for nm in ("__str__", "__repr__"):
                m = v.cls.lookup(nm)
                if m is not None:
                    return self.call(BoundMethod(m, v), [])
        return str(v)

    def to_repr(self, v):
        if isinstance(v, str):
            return repr(v)
        return self.to_str(v)

    def e_ListComp(self, n, env):
        return list(self.comp(n, env, lambda e: self.eval(n.elt, e)))

    def e_GeneratorExp(self, n, env):
        return iter(list(self.comp(n, env, lambda e: self.eval(n.elt, e))))

    def e_SetComp(self, n, env):
        return set(self.comp(n, env, lambda e: self.eval(n.elt, e)))

    def e_DictComp(self, n, env):
        d = OrderedDict()
        for k, v in self.comp(n, env, lambda e: (self.eval(n.key, e), self.eval(n.value, e))):
            d[k] = v
        return d

    def comp(self, n, env, f):
        e = Cell(env, env.globals, fn=env.fn if env.fn != "class" else None)
        out = []

        def rec(k):
            if k == len(n.generators):
                out.append(f(e))
                return
            g = n.generators[k]
            src = self.eval(g.iter, e if k else env)
            for v in self.iterate(src):
                self.assign(g.target, v, e)
                if all(self.truth(self.eval(c, e)) for c in g.ifs):
                    rec(k + 1)

        rec(0)
        return out

    def e_Yield(self, n, env):
        e = env
        while e is not None and not (isinstance(e.fn, Func) and "$yield" in e.vars):
            e = e.parent
        v = None if n.value is None else self.eval(n.value, env)
        run = e.vars.get("$body")
        if run is not None:
            return run(v)
        e.vars["$yield"].append(v)
        return None

    def e_YieldFrom(self, n, env):
        e = env
        while e is not None and not (isinstance(e.fn, Func) and "$yield" in e.vars):
            e = e.parent
        if e.vars.get("$body") is not None:
            raise Unsupported("yield from in a context manager")
        e.vars["$yield"].extend(self.iterate(self.eval(n.value, env)))
        return None

    # -- iteration --------------------------------------------------------------
    def iterate(self, v):
        if isinstance(v, T):
            if v.ndim == 0:
                araise(TypeError, "iteration over a 0-d array")
            ax = v.axes[0]
            if ax.n is None or ax.parent is not None:
                raise Unsupported("iteration over an axis of unknown length")
            return [tn.getitem(v, k) for k in range(ax.n)]
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, (list, tuple, str, range, set, frozenset)):
            return list(v)
        h = getattr(v, "abs_iter", None)
        if h is not None:
            return h(self)
        if isinstance(v, Obj):
            m = v.cls.lookup("__iter__")
            if m is not None:
                return self.iterate(self.call(BoundMethod(m, v), []))
            m = v.cls.lookup("__getitem__")
        if hasattr(v, "__next__") or isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))):
            return v
        if isinstance(v, (type(OrderedDict().keys()), type(OrderedDict().values()), type(OrderedDict().items()))):
            return list(v)
        araise(TypeError, "%s object is not iterable" % type(v).__name__)

    # -- attributes ---------------------------------------------------------------
    def hasattr(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except AbsRaise as e:
            if isinstance(e.exc, AttributeError):
                return False
            raise

    def getattr(self, o, name):
        if isinstance(o, Obj):
            v = o.cls.lookup(name)
            if isinstance(v, PropertyObj):
                return self.call(v.fget, [o])
            if isinstance(v, CachedProperty):
                if name in o.attrs:
                    return o.attrs[name]
                r = self.call(v.f, [o])
                o.attrs[name] = r
                return r
            if name in o.attrs:
                return o.attrs[name]
            if v is not None:
                return self.bind(v, o)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            g = o.cls.lookup("__getattr__")
            if g is not None:
                return self.call(BoundMethod(g, o), [name])
            araise(AttributeError, "%r object has no attribute %r" % (o.cls.name, name))
        if isinstance(o, Module):
            if name in o.vars:
                return o.vars[name]
            sub = o.name + "." + name
            if sub in self.modules:
                return self.modules[sub]
            if name == "__dict__":
                return o.vars
            araise(AttributeError, "module %r has no attribute %r" % (o.name, name))
        if isinstance(o, ExtModule):
            v = self.ext.get(o.name + "." + name)
            if v is not None and name not in o.attrs and name not in o.writes:
                return v
            return o.get(name)
        if isinstance(o, T):
            if name in o.attrs:
                return o.attrs[name]
            return self.models.t_attr(self, o, name)
        if isinstance(o, Class):
            v = o.lookup(name)
            if v is not None:
                if isinstance(v, StaticM):
                    return v.f
                if isinstance(v, ClassM):
                    return BoundMethod(v.f, o)
                return v
            if name == "__name__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__init__":
                return Model(lambda *a, **k: None, "object.__init__")
            if name == "__new__":
                return Model(lambda cls, *a, **k: Obj(cls), "object.__new__")
            araise(AttributeError, name)
        if isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__",):
                return o.name
            if name == "__qualname__":
                return o.qual
            if name == "__doc__":
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name == "__module__":
                return o.module.name
            araise(AttributeError, name)
        if isinstance(o, SuperObj):
            mro = o.obj.cls.mro if isinstance(o.obj, Obj) else o.obj.mro
            k = mro.index(o.cls)
            for c in mro[k + 1:]:
                if isinstance(c, Class) and name in c.ns:
                    return self.bind(c.ns[name], o.obj)
            if name == "__init__":
                obj = o.obj

                def init(*a, **k):
                    if isinstance(obj, Obj) and any(
                        isinstance(c, type) and issubclass(c, BaseException) for c in obj.cls.mro
                    ):
                        obj.attrs["args"] = a
                        return None
                    if a or k:
                        araise(TypeError, "object.__init__() takes exactly one argument")
                    return None

                return Model(init, "object.__init__")
            if name == "__setattr__":
                obj = o.obj
                return Model(lambda n, v: obj.attrs.__setitem__(n, v), "setattr")
            if name == "__new__":
                return Model(lambda cls, *a, **k: Obj(cls), "object.__new__")
            araise(AttributeError, "'super' object has no attribute %r" % name)
        if isinstance(o, Model):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.name
            if name == "__doc__":
                return ""
            raise Unsupported("attribute %s of %r" % (name, o))
        if isinstance(o, BoundMethod):
            if name == "__self__":
                return o.obj
            if name == "__func__":
                return o.func
            return self.getattr(o.func, name)
        if isinstance(o, NTuple):
            if name in o.nt.fields:
                return o[o.nt.fields.index(name)]
            if name == "_asdict":
                return Model(lambda: OrderedDict(zip(o.nt.fields, o)))
            if name == "_fields":
                return tuple(o.nt.fields)
            if name == "__class__":
                return o.nt
            g = o.nt.lookup(name)
            if g is not None:
                return BoundMethod(g.f, o.nt) if isinstance(g, ClassM) else self.bind(g, o)
            if name == "_replace":
                def rep(**k):
                    r = NTuple(k.get(f, v) for f, v in zip(o.nt.fields, o))
                    r.nt = o.nt
                    return r
                return Model(rep)
        if isinstance(o, NTClass):
            if name == "_fields":
                return tuple(o.fields)
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "_make":
                return Model(lambda it: self.call(o, list(self.iterate(it))))
            g = o.lookup(name)
            if g is not None:
                if isinstance(g, ClassM):
                    return BoundMethod(g.f, o)
                return g.f if isinstance(g, StaticM) else g
        h = getattr(o, "abs_getattr", None)
        if h is not None:
            return h(self, name)
        return self.models.py_attr(self, o, name)

    def bind(self, v, o):
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return BoundMethod(v.f, o.cls if isinstance(o, Obj) else o)
        if isinstance(v, (Func,)):
            return BoundMethod(v, o)
        if isinstance(v, PropertyObj):
            return self.call(v.fget, [o])
        if isinstance(v, Partial):
            return v
        if isinstance(v, Model) and getattr(v, "binds", False):
            return BoundMethod(v, o)
        h = getattr(v, "abs_bind", None)
        if h is not None:
            return h(o)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            c = o.cls.lookup(name)
            if isinstance(c, PropertyObj):
                if c.fset is None:
                    araise(AttributeError, "can't set attribute")
                self.call(c.fset, [o, v])
                return
            g = o.cls.lookup("__setattr__")
            if isinstance(g, Func):
                self.call(BoundMethod(g, o), [name, v])
                return
            if any(getattr(k, "frozen", False) for k in o.cls.mro):
                araise(AttributeError, "cannot assign to field %r" % name)
            if o.sealed:
                self.events.append(
                    Event("attr_write", obj=o.cls.name, name=name, site=self.site(), trace=self.trace(),
                          old=o.attrs.get(name), new=v)
                )
            o.attrs[name] = v
            return
        if isinstance(o, T):
            if o.kind != "pt":
                araise(AttributeError, "object has no attribute %r" % name)
            if o.owner is not None:
                self.events.append(Event("tensor_attr", owner=o.owner, name=name, site=self.site()))
            o.attrs[name] = v
            return
        if isinstance(o, Module):
            self.events.append(Event("global_write", name=name, module=o.name, site=self.site()))
            o.vars[name] = v
            return
        if isinstance(o, ExtModule):
            self.events.append(Event("global_write", name=name, module=o.name, site=self.site()))
            o.writes[name] = v
            return
        if isinstance(o, Class):
            self.events.append(Event("global_write", name=name, module="class " + o.name, site=self.site()))
            o.ns[name] = v
            return
        if isinstance(o, Func) or isinstance(o, Model):
            o.attrs[name] = v
            return
        h = getattr(o, "abs_setattr", None)
        if h is not None:
            h(self, name, v)
            return
        araise(AttributeError, "cannot set attribute %r" % name)

    # -- items ------------------------------------------------------------------
    def getitem(self, o, i):
        h = getattr(o, "abs_getitem", None)
        if h is not None:
            return h(self, i)
        if isinstance(o, T):
            i2 = i
            return tn.getitem(o, i2)
        if isinstance(o, dict):
            k = self.hashable(i)
            if k in o:
                return o[k]
            if isinstance(o, DefaultDict):
                if o.factory is None:
                    raise AbsRaise(KeyError(k))
                v = self.call(o.factory, [])
                o[k] = v
                return v
            raise AbsRaise(KeyError(k))
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(i, slice):
                i = tn.to_index(i)
                r = o[i]
                return r
            if isinstance(i, T):
                i = tn.to_index(i)
                if isinstance(i, T):
                    raise Unsupported("symbolic index into a python sequence")
            if isinstance(i, bool):
                i = int(i)
            if not isinstance(i, int):
                araise(TypeError, "indices must be integers or slices")
            try:
                return o[i]
            except IndexError:
                araise(IndexError, "index out of range")
        if isinstance(o, Obj):
            m = o.cls.lookup("__getitem__")
            if m is not None:
                return self.call(BoundMethod(m, o), [i])
        araise(TypeError, "%s object is not subscriptable" % type(o).__name__)

    def setitem(self, o, i, v):
        h = getattr(o, "abs_setitem", None)
        if h is not None:
            return h(self, i, v)
        if isinstance(o, T):
            if o.kind == "pt":
                araise(TypeError, "'TensorVariable' object does not support item assignment")
            view = tn.getitem(o, i)
            new = tn.set_subtensor(view, v)
            self.np_write(o, new.data)
            return
        if isinstance(o, dict):
            self.mutated(o)
            o[self.hashable(i)] = v
            return
        if isinstance(o, list):
            self.mutated(o)
            i = tn.to_index(i) if isinstance(i, (T, slice)) else i
            try:
                o[i] = v if not isinstance(i, slice) else list(self.iterate(v))
            except IndexError:
                araise(IndexError, "assignment index out of range")
            return
        if isinstance(o, Obj):
            m = o.cls.lookup("__setitem__")
            if m is not None:
                return self.call(BoundMethod(m, o), [i, v])
        araise(TypeError, "object does not support item assignment")

    # -- calls ----------------------------------------------------------------
    def e_Call(self, n, env):
        if (
            isinstance(n.func, ast.Name)
            and n.func.id == "super"
            and not n.args
            and "super" not in env.vars
        ):
            e = env
            while e is not None and not isinstance(e.fn, Func):
                e = e.parent
            while e is not None and isinstance(e.fn, Func) and e.fn.cls is None:
                e = e.parent
            if e is None:
                araise(RuntimeError, "super(): no arguments")
            f = e.fn
            first = f.node.args.args[0].arg
            return SuperObj(f.cls, e.vars[first])
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals", "vars") and not n.args:
            if n.func.id == "globals":
                return env.globals.vars
            e = env
            while e is not None and not isinstance(e.fn, Func):
                e = e.parent
            return OrderedDict((k, v) for k, v in (e or env).vars.items() if not k.startswith("$"))
        f = self.eval(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kw = OrderedDict()
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, dict):
                    araise(TypeError, "argument after ** must be a mapping")
                for kk, vv in d.items():
                    if kk in kw:
                        araise(TypeError, "got multiple values for keyword argument %r" % kk)
                    kw[kk] = vv
            else:
                if k.arg in kw:
                    araise(TypeError, "got multiple values for keyword argument %r" % k.arg)
                kw[k.arg] = self.eval(k.value, env)
        if self.stack:
            self.stack[-1] = (self.stack[-1][0], n)
        self.call_sites += 1
        return self.call(f, args, kw)

    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.obj] + args, kw)
        if isinstance(f, Model):
            import inspect

            try:
                sig = getattr(f, "_sig", None)
                if sig is None:
                    sig = inspect.signature(f.f)
                    f._sig = sig
                sig.bind(*args, **kw)
            except TypeError as e:
                raise Unsupported("call signature of %s: %s" % (f.name, e))
            return f.f(*args, **kw)
        if isinstance(f, Class):
            return self.instantiate(f, args, kw)
        if isinstance(f, Partial):
            k = OrderedDict(f.kwargs)
            k.update(kw)
            return self.call(f.func, list(f.args) + args, k)
        if isinstance(f, NTuple) and f.nt.lookup("__call__") is not None:
            return self.call(BoundMethod(f.nt.lookup("__call__"), f), args, kw)
        if isinstance(f, NTClass):
            vals = dict(zip(f.fields, args))
            vals.update(kw)
            nd = len(f.defaults)
            for fld, d in zip(f.fields[len(f.fields) - nd:], f.defaults):
                vals.setdefault(fld, d)
            if set(vals) != set(f.fields) or len(args) > len(f.fields):
                araise(TypeError, "%s: bad arguments" % f.name)
            r = NTuple(vals[x] for x in f.fields)
            r.nt = f
            return r
        if isinstance(f, type) and issubclass(f, BaseException):
            return f(*args)
        if isinstance(f, Obj):
            m = f.cls.lookup("__call__")
            if m is not None:
                return self.call(BoundMethod(m, f), args, kw)
            araise(TypeError, "%r object is not callable" % f.cls.name)
        h = getattr(f, "abs_call", None)
        if h is not None:
            return h(self, args, kw)
        if isinstance(f, ExtModule):
            raise Unsupported("call of %r" % (f,))
        araise(TypeError, "%s object is not callable" % type(f).__name__)

    def instantiate(self, c, args, kw):
        if any(isinstance(b, type) and issubclass(b, BaseException) for b in c.mro):
            o = Obj(c)
            o.attrs["args"] = tuple(args)
            m = c.lookup("__init__")
            if isinstance(m, Func):
                self.call(BoundMethod(m, o), args, kw)
            return o
        new = c.lookup("__new__")
        if isinstance(new, (Func, StaticM)):
            o = self.call(new.f if isinstance(new, StaticM) else new, [c] + list(args), kw)
        else:
            o = Obj(c)
        m = c.lookup("__init__")
        if m is not None:
            self.call(BoundMethod(m, o), args, kw)
        elif args or kw:
            araise(TypeError, "%s() takes no arguments" % c.name)
        if self.on_instance is not None:
            self.on_instance(o)
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kw = OrderedDict(kw)
        npos = len(names)
        if len(args) > npos and a.vararg is None:
            araise(
                TypeError,
                "%s() takes %d positional arguments but %d were given"
                % (f.qual, npos, len(args)),
            )
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[npos:])
        posonly = {x.arg for x in a.posonlyargs}
        extra = OrderedDict()
        kwnames = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if not isinstance(k, str):
                araise(TypeError, "keywords must be strings")
            if (k in names and k not in posonly) or k in kwnames:
                if k in out:
                    araise(TypeError, "%s() got multiple values for argument %r" % (f.qual, k))
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                araise(
                    TypeError,
                    "%s() got an unexpected keyword argument %r" % (f.qual, k),
                )
        nd = len(f.defaults)
        for n, d in zip(names[npos - nd:], f.defaults):
            out.setdefault(n, d)
        for n in kwnames:
            if n not in out:
                if n in f.kwdefaults:
                    out[n] = f.kwdefaults[n]
                else:
                    araise(TypeError, "%s() missing required keyword-only argument %r" % (f.qual, n))
        for n in names:
            if n not in out:
                araise(TypeError, "%s() missing required argument %r" % (f.qual, n))
        if a.kwarg is not None:
            out[a.kwarg.arg] = extra
        return out

    def call_func(self, f, args, kw, on_yield=None):
        vars_ = self.bind_args(f, args, kw)
        env = Cell(f.env, f.module, fn=f)
        env.vars = vars_
        if len(self.stack) > 80:
            araise(RecursionError, "maximum recursion depth exceeded")
        self.stack.append((f, f.node))
        self.functions_seen.setdefault((f.module.name, f.qual), f.node.lineno)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if f.is_gen:
                env.vars["$yield"] = []
                env.vars["$body"] = on_yield
                try:
                    self.exec_block(f.node.body, env)
                except _Return:
                    pass
                return iter(env.vars["$yield"])
            try:
                self.exec_block(f.node.body, env)
            except _Return as r:
                return r.v
            return None
        except AbsRaise as e:
            if not e.trace:
                e.trace = self.trace()
            raise
        finally:
            self.stack.pop()


class CachedProperty:
    def __init__(self, f):
        self.f = f


class GenCM:
    """contextlib.contextmanager over an interpreted generator (one yield)."""

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class ExternalError(Exception):
    def __init__(self, name, msg=""):
        super().__init__(msg)
        self.name = name


class ExcModel:
    def __init__(self, name):
        self.name = name
