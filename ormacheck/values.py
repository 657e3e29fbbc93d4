"""Abstract values of the interpreter that are not scalars."""
import numpy as np

from . import terms
from .terms import T, Undecidable


class Fork(Exception):
    """The analysis must be partitioned on this condition."""

    def __init__(self, cond):
        self.cond = cond


class Unsupported(Undecidable):
    pass


class Bounded(Exception):
    """The partition lies outside the analysed bound (reported, never a verdict)."""


class PyRaise(Exception):
    """A Python exception raised by the analysed code on this partition."""

    def __init__(self, exc):
        Exception.__init__(self, repr(exc))
        self.exc = exc
        self.where = None


class ExcVal:
    def __init__(self, names, args=(), inst=None):
        self.names = names  # class names, most derived first
        self.args = args
        self.inst = inst

    @property
    def name(self):
        return self.names[0]

    def __repr__(self):
        return "%s(%s)" % (self.names[0], ", ".join(str(a)[:80] for a in self.args))


class ExtVal:
    """A name of an external library (numpy.zeros, jax.jit, ...)."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, ExtVal) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Poison:
    """A binding whose defining statement could not be analysed."""

    def __init__(self, why):
        self.why = why


class FuncVal:
    def __init__(self, node, env, module, qualname, defaults, kw_defaults, owner=None):
        self.node, self.env, self.module, self.qualname = node, env, module, qualname
        self.defaults, self.kw_defaults, self.owner = defaults, kw_defaults, owner
        self.jit = None
        self.attrs = {}

    def __repr__(self):
        return "<function %s>" % self.qualname


class HostFn:
    """A callable modelled on the host side: fn(interp, args, kwargs)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<model %s>" % self.name


class BoundMethod:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return isinstance(o, BoundMethod) and o.func is self.func and o.self_ is self.self_

    def __hash__(self):
        return hash((id(self.func), id(self.self_)))

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class PartialVal:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class PropertyVal:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticVal:
    def __init__(self, func):
        self.func = func


class ClassMethodVal:
    def __init__(self, func):
        self.func = func


class ClassVal:
    def __init__(self, name, bases, ns, module, node):
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node
        self.dataclass = False
        self.annots = []  # ordered field names with annotation
        self.defaults = {}

    def mro(self):
        out = [self]
        # C3 is not needed for this code base: depth-first, last occurrence kept
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, ExtVal):
                    out.append(b.name)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    @property
    def qualname(self):
        return self.module.name + "." + self.name

    def __repr__(self):
        return "<class %s>" % self.name


class Inst:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.frozen = False

    def __repr__(self):
        return "<%s instance>" % self.cls.name


class SuperVal:
    def __init__(self, owner, self_):
        self.owner, self.self_ = owner, self_


class ModuleVal:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.ns = {}
        self.loaded = False


class Env:
    __slots__ = ("vars", "parent", "func", "globals_", "nonlocals", "self_")

    def __init__(self, parent, func=None):
        self.vars, self.parent, self.func = {}, parent, func
        self.globals_, self.nonlocals = (), ()


class FutureVal:
    def __init__(self, thunk):
        self.thunk, self.done, self.value = thunk, False, None

    def force(self):
        if not self.done:
            self.value = self.thunk()
            self.done = True
        return self.value


class ExecutorVal:
    def __init__(self, lazy):
        self.lazy = lazy
        self.futures = []


F64, C128, I64, BOOL = np.dtype("float64"), np.dtype("complex128"), np.dtype("int64"), np.dtype("bool")


class Arr:
    """Array of abstract scalars with concrete shape."""
    __slots__ = ("a", "dt", "lib", "tag")

    def __init__(self, a, dt=F64, lib="jnp", tag=None):
        self.a, self.dt, self.lib, self.tag = a, dt, lib, tag

    @property
    def shape(self):
        return self.a.shape

    @property
    def kind(self):
        return self.dt.kind

    def flat(self):
        return list(self.a.reshape(-1))

    def __repr__(self):
        return "Arr%s%s" % (self.a.shape, [terms.show(x, 2) for x in self.a.reshape(-1)[:6]])


class FieldArr(Arr):
    """Array with named companions (a finite-element field and its gradient)."""
    __slots__ = ("fields",)

    def __init__(self, a, fields, dt=F64, lib="np"):
        super().__init__(a, dt, lib)
        self.fields = fields


class SpArr(Arr):
    """jax BCOO matrix: no jax.Array; conversion gives one."""
    __slots__ = ()


class BcsrArr(SpArr):
    """jax BCSR matrix: supports products and conversion only."""
    __slots__ = ()


class WDict(dict):
    """dict with attribute access (skfem form parameters)."""


def oarr(data, shape=None):
    """object ndarray from nested lists/flat list without numpy guessing."""
    if shape is None:
        a = np.array(data, dtype=object)
        return a
    a = np.empty(int(np.prod(shape)) if len(shape) else 1, dtype=object)
    for i, v in enumerate(data):
        a[i] = v
    return a.reshape(shape)


def is_scalar(v):
    return isinstance(v, (bool, int, float, T)) or isinstance(v, terms.Fraction)


def scalar_dtype(v):
    if isinstance(v, bool):
        return BOOL
    if isinstance(v, int):
        return I64
    if isinstance(v, T):
        if terms.is_cond(v):
            return BOOL
        return F64 if v.real else C128
    return F64
