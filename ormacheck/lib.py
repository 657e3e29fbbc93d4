"""Models of the Python/NumPy/JAX operations used by the analysed code."""
import copy
import itertools
import math
import operator
from collections import deque
from fractions import Fraction

import numpy as np

from . import terms
from .terms import T, Undecidable
from .values import *

NUMT = (bool, int, Fraction, float)


# ------------------------------------------------------------------ helpers

def wrap(a, dt, lib):
    """ndarray or element -> abstract value (0-d arrays are scalars)."""
    if isinstance(a, np.ndarray):
        if a.ndim == 0:
            return a.item()
        return Arr(a, dt, lib)
    return a


def as_obj(v):
    """abstract value -> (object ndarray, dtype, lib)"""
    if isinstance(v, Arr):
        return v.a, v.dt, v.lib
    if is_scalar(v):
        a = np.empty((), dtype=object)
        a[()] = v
        return a, scalar_dtype(v), None
    if isinstance(v, (list, tuple, range, deque)):
        return from_nested(list(v))
    if isinstance(v, Inst) and hasattr(v, "__array__"):
        raise Unsupported("array from object")
    raise Unsupported("array from %r" % (type(v).__name__,))


def from_nested(v):
    parts = [as_obj(x) for x in v]
    if not parts:
        return np.empty((0,), dtype=object), F64, None
    sh = parts[0][0].shape
    if any(p[0].shape != sh for p in parts):
        raise PyRaise(ExcVal(("ValueError", "Exception"), ("inhomogeneous shape",)))
    out = np.empty((len(parts),) + sh, dtype=object)
    for i, p in enumerate(parts):
        out[i] = p[0] if p[0].ndim else p[0].item()
    return out, promote(*[p[1] for p in parts]), None


def promote(*dts):
    d = dts[0]
    for x in dts[1:]:
        d = np.promote_types(d, x)
    return d


def weak(v):
    """Python scalars are weakly typed."""
    return is_scalar(v)


def result_dt(a, b, op=None):
    da = a.dt if isinstance(a, Arr) else None
    db = b.dt if isinstance(b, Arr) else None
    if da is None and db is None:
        d = promote(scalar_dtype(a), scalar_dtype(b))
    elif da is None or db is None:
        d, s = (db, a) if da is None else (da, b)
        if isinstance(s, (list, tuple)):
            d = promote(d, as_obj(s)[1])
        else:
            k = scalar_dtype(s).kind
            order = "biufc"
            if order.index(k) > order.index(d.kind):
                if k == "c":
                    d = np.dtype("complex64") if d == np.dtype("float32") else C128
                elif k == "f":
                    d = F64
                else:
                    d = I64
    else:
        d = promote(da, db)
    if op == "Div" and d.kind in "biu":
        d = F64
    return d


def libof(*vs):
    l = None
    for v in vs:
        if isinstance(v, Arr):
            if v.lib == "jnp":
                return "jnp"
            l = v.lib
    return l or "np"


def safediv(a, b):
    try:
        return terms.div(a, b)
    except terms.DivByZero:
        # IEEE semantics of array division
        if isinstance(a, T):
            return math.nan
        return math.nan if a == 0 or (isinstance(a, float) and math.isnan(a)) else math.copysign(math.inf, a)


def sfun(f):
    """nan-propagating scalar function."""
    def g(*xs):
        if any(isinstance(x, float) and math.isnan(x) for x in xs):
            return math.nan
        return f(*xs)
    return g


def mod_(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return a % b
    return terms.sub(a, terms.mul(b, terms.floor(terms.div(a, b))))


def floordiv_(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return a // b
    return terms.floor(terms.div(a, b))


def bitand(a, b):
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
        return a & b
    return terms.land(a, b)


def bitor(a, b):
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
        return a | b
    return terms.lor(a, b)


def bitxor(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    return terms.lor(terms.land(a, terms.lnot(b)), terms.land(terms.lnot(a), b))


def pow_(a, b):
    try:
        return terms.power(a, b)
    except terms.DivByZero:
        return math.inf


BIN = {
    "Add": sfun(terms.add), "Sub": sfun(terms.sub), "Mult": sfun(terms.mul), "Div": sfun(safediv),
    "Pow": sfun(pow_), "Mod": sfun(mod_), "FloorDiv": sfun(floordiv_),
    "BitAnd": bitand, "BitOr": bitor, "BitXor": bitxor,
    "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b,
}
DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "MatMult": "matmul", "Mod": "mod", "FloorDiv": "floordiv"}
CMP = {"Lt": terms.lt, "LtE": terms.le, "Gt": terms.gt, "GtE": terms.ge, "Eq": terms.eq,
       "NotEq": lambda a, b: terms.lnot(terms.eq(a, b))}


def ufunc2(f):
    return np.frompyfunc(f, 2, 1)


def broadcast2(f, a, b):
    oa, ob = as_obj(a)[0], as_obj(b)[0]
    try:
        return np.frompyfunc(f, 2, 1)(oa, ob)
    except ValueError as e:
        raise PyRaise(ExcVal(("ValueError", "Exception"), (str(e),)))


def elementwise1(I, f, v, dt=None):
    if isinstance(v, Arr):
        r = np.frompyfunc(f, 1, 1)(v.a)
        return wrap(np.asarray(r, dtype=object) if not isinstance(r, np.ndarray) else r, dt or v.dt, v.lib)
    if is_scalar(v):
        return f(v)
    if isinstance(v, (list, tuple)):
        a, d, _ = as_obj(v)
        return elementwise1(I, f, Arr(a, d, "np"), dt)
    if isinstance(v, Inst) and v.cls.lookup("__neg__")[0] is not None:
        return I.call(BoundMethod(v.cls.lookup("__neg__")[0], v), [], {})
    raise Unsupported("elementwise on %r" % (v,))


def isarr(v):
    return isinstance(v, Arr)


def binop(I, op, a, b, node=None):
    if isinstance(a, Inst) or isinstance(b, Inst):
        d = DUNDER.get(op)
        if isinstance(a, Inst) and d:
            f, _ = a.cls.lookup("__%s__" % d)
            if f is not None:
                return I.call(BoundMethod(f, a), [b], {})
        if isinstance(b, Inst) and d:
            f, _ = b.cls.lookup("__r%s__" % d)
            if f is not None:
                return I.call(BoundMethod(f, b), [a], {})
        raise I.err("TypeError", "unsupported operand")
    if isinstance(a, str) or isinstance(b, str):
        if op == "Mod" and isinstance(a, str):
            return fmt(a, b)
        if op == "Add" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == "Mult":
            return a * b
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            pass
        raise I.err("TypeError", "unsupported operand type(s) for str")
    if a is None or b is None:
        raise I.err("TypeError", "unsupported operand type(s): NoneType")
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op == "Add":
        return a + b
    if isinstance(a, (list, tuple)) and isinstance(b, int) and op == "Mult":
        return a * b
    if isinstance(b, (list, tuple)) and isinstance(a, int) and op == "Mult":
        return a * b
    if isinstance(a, (set, dict)) and isinstance(b, (set, dict)):
        return {"BitOr": operator.or_, "BitAnd": operator.and_, "Sub": operator.sub, "BitXor": operator.xor}[op](a, b)
    if isinstance(a, (ExtVal, ClassVal)) or isinstance(b, (ExtVal, ClassVal)):
        if op == "BitOr":
            return ExtVal("typing.Union")
        raise I.unsupported("operator on external object %r %s %r" % (a, op, b), node)
    if op == "MatMult":
        return matmul(I, a, b)
    if isinstance(a, BcsrArr) or isinstance(b, BcsrArr):
        raise I.err("NotImplementedError", "BCSR %s" % op)
    f = BIN.get(op)
    if f is None:
        raise I.unsupported("operator " + op, node)
    if is_scalar(a) and is_scalar(b):
        if op == "Div" and not isinstance(b, T) and b == 0:
            # numpy/jax scalars (the only quotients in this code base) do not raise
            if isinstance(a, T):
                if terms.IEEE[0]:
                    return math.nan
                raise terms.DivByZero("%s / 0" % terms.show(a))
            return math.nan if a == 0 or a != a else math.copysign(math.inf, a)
        r = f(a, b)
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            if isinstance(r, int) and not isinstance(r, bool):
                r = Fraction(r)
        return r
    if isarr(a) or isarr(b):
        r = broadcast2(f, a, b)
        r = wrap(r if isinstance(r, np.ndarray) else np.asarray(r, dtype=object), result_dt(a, b, op), libof(a, b))
        if op == "Mult" and (isinstance(a, SpArr) or isinstance(b, SpArr)) or isinstance(a, SpArr) and (op == "Div" or isinstance(b, SpArr)):
            r = SpArr(r.a, r.dt, "jnp")
        return r
    raise I.unsupported("operator %s on %s and %s" % (op, type(a).__name__, type(b).__name__), node)


def fmt(s, args):
    t = args if isinstance(args, tuple) else (args,)
    try:
        h = tuple(float(x) if isinstance(x, Fraction) else x for x in t)
        if all(isinstance(x, (str, int, float)) for x in h):
            return s % h
    except (TypeError, ValueError):
        pass
    return "<fmt>" + s


def compare(I, op, a, b, node=None):
    if op in ("Is", "IsNot"):
        if is_scalar(a) and is_scalar(b) and not isinstance(a, bool) and not isinstance(b, bool):
            r = a is b
        elif isinstance(a, ExtVal) and isinstance(b, ExtVal):
            r = a.name == b.name
        else:
            r = a is b
        return r if op == "Is" else not r
    if op in ("In", "NotIn"):
        r = contains(I, a, b, node)
        return r if op == "In" else terms.lnot(r)
    if op in ("Eq", "NotEq"):
        if a is None or b is None or isinstance(a, (str, ExtVal, ClassVal, FuncVal)) or isinstance(b, (str, ExtVal, ClassVal, FuncVal)):
            if isarr(a) or isarr(b):
                r = False
            else:
                r = a == b
            return r if op == "Eq" else not r
        if isinstance(a, (list, tuple, dict, set)) and isinstance(b, (list, tuple, dict, set)):
            r = deep_eq(I, a, b)
            return r if op == "Eq" else terms.lnot(r)
        if isinstance(a, Inst) or isinstance(b, Inst):
            r = a is b
            return r if op == "Eq" else not r
    if isinstance(a, str) and isinstance(b, str):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    if a is None or b is None:
        raise I.err("TypeError", "ordering of None")
    f = CMP[op]

    def g(x, y):
        if isinstance(x, float) and math.isnan(x) or isinstance(y, float) and math.isnan(y):
            return op == "NotEq"
        return f(x, y)
    if is_scalar(a) and is_scalar(b):
        return g(a, b)
    if isarr(a) or isarr(b):
        r = broadcast2(g, a, b)
        return wrap(r if isinstance(r, np.ndarray) else np.asarray(r, dtype=object), BOOL, libof(a, b))
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    raise I.unsupported("comparison %s of %r and %r" % (op, type(a).__name__, type(b).__name__), node)


def deep_eq(I, a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = terms.land(r, deep_eq(I, x, y))
        return r
    if is_scalar(a) and is_scalar(b):
        return terms.eq(a, b)
    if isinstance(a, (str, type(None), dict, set, ExtVal)) or isinstance(b, (str, type(None), dict, set, ExtVal)):
        return a == b
    return a is b


def contains(I, a, b, node=None):
    if isinstance(b, (dict, set, frozenset, type({}.keys()))):
        try:
            return I.hashkey(a) in b
        except TypeError:
            raise I.err("TypeError", "unhashable")
    if isinstance(b, str):
        return a in b
    if isinstance(b, (list, tuple, deque, range, type({}.values()), type({}.items()))):
        r = False
        for x in b:
            e = compare(I, "Eq", a, x, node) if not (isinstance(a, Inst) or isarr(a)) else (a is x)
            if e is True:
                return True
            if e is not False:
                r = terms.lor(r, e)
        return r
    raise I.unsupported("membership in %r" % (b,), node)


def matmul(I, a, b):
    oa, da, _ = as_obj(a)
    ob, db, _ = as_obj(b)
    if oa.ndim == 0 or ob.ndim == 0:
        raise I.err("ValueError", "matmul with scalar")
    try:
        r = mm(oa, ob)
    except ValueError as e:
        raise I.err("ValueError", str(e))
    if isinstance(a, SpArr) and isinstance(b, SpArr):
        return SpArr(r, promote(da, db), "jnp")
    return wrap(r, promote(da, db), libof(a, b))


def dot1(x, y):
    s = 0
    for u, v in zip(x, y):
        if not isinstance(u, T) and u == 0 or not isinstance(v, T) and v == 0:
            continue
        s = BIN["Add"](s, BIN["Mult"](u, v))
    return s


def mm(a, b):
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError("matmul shapes %s %s" % (a.shape, b.shape))
        r = np.empty((), dtype=object)
        r[()] = dot1(a, b)
        return r
    if a.ndim > 2 or b.ndim > 2:
        if a.ndim > 2 and b.ndim > 2 and a.shape[0] == b.shape[0]:
            return np.array([mm(x, y) for x, y in zip(a, b)], dtype=object)
        if a.ndim > 2:
            r0 = [mm(x, b) for x in a]
        else:
            r0 = [mm(a, y) for y in b]
        out = np.empty((len(r0),) + r0[0].shape, dtype=object)
        for i, x in enumerate(r0):
            out[i] = x
        return out
    A = a.reshape(1, -1) if a.ndim == 1 else a
    B = b.reshape(-1, 1) if b.ndim == 1 else b
    if A.shape[1] != B.shape[0]:
        raise ValueError("matmul shapes %s %s" % (a.shape, b.shape))
    r = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            r[i, j] = dot1(A[i], B[:, j])
    if a.ndim == 1:
        r = r[0]
    elif b.ndim == 1:
        r = r[:, 0]
    return r


def mk(data, lib, dt=F64):
    return Arr(data, dt, lib)


def cast(a, dt):
    """elements cast to dtype (object ndarray)."""
    k = dt.kind
    if k in "iu":
        f = to_int
    elif k == "f":
        f = lambda x: terms.real(x) if isinstance(x, T) and not terms.is_cond(x) else (bool_num(x))
        if dt.itemsize < 8:
            g = f
            f = lambda x: lossy(g(x), dt)
    elif k == "b":
        f = terms.truthy
    else:
        f = lambda x: x
    return np.asarray(np.frompyfunc(f, 1, 1)(a), dtype=object).reshape(a.shape)


def round_(x, n=0):
    """rounded to n decimals (ties are a null set)"""
    k = Fraction(10) ** n
    return terms.div(terms.floor(terms.add(terms.mul(x, k), Fraction(1, 2))), k)


def lossy(x, dt):
    """a conversion to less than double precision; symbolically a visible rounding"""
    if isinstance(x, T):
        if x.op in ("floor", "ceil"):
            return x
        return terms.div(terms.floor(terms.add(terms.mul(x, 1024), Fraction(1, 2))), 1024)
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
        v = Fraction(float(dt.type(float(x)))) if abs(x) < 1e30 else x
        return int(v) if v.denominator == 1 else v
    return x


def bool_num(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, T) and terms.is_cond(x):
        return terms.ite(x, 1, 0)
    return x


def to_int(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int,)):
        return x
    if isinstance(x, Fraction):
        return int(x)
    if isinstance(x, float):
        return x
    if terms.is_cond(x):
        return terms.ite(x, 1, 0)
    if is_integral(x):
        return x
    if x.closed:
        v = terms.closed_value(x)
        if v is not None:
            import mpmath as mp
            n = int(mp.nint(v.real))
            if abs(v.real - n) < mp.mpf(10) ** -35:
                return n
            return int(v.real)
    if x.op == "ite":
        return terms.ite(x.args[0], to_int(x.args[1]), to_int(x.args[2]))
    return terms.ite(terms.lt(x, 0), terms.ceil(x), terms.floor(x))


def is_integral(x):
    if isinstance(x, bool) or isinstance(x, int):
        return True
    if isinstance(x, Fraction):
        return x.denominator == 1
    if isinstance(x, T):
        if x.op in ("floor", "ceil"):
            return True
        if x.op in ("ite",):
            return is_integral(x.args[1]) and is_integral(x.args[2])
        if x.op in ("max", "min"):
            return all(is_integral(y) for y in x.args)
        if x.op == "add":
            return is_integral(x.args[0]) and all(is_integral(k) and is_integral(t) for t, k in x.args[1])
        if x.op == "mul":
            return all(e > 0 and is_integral(t) for t, e in x.args)
        if x.op == "sym":
            return bool(terms.SYM_ATTRS.get(x.args[0], {}).get("integer"))
    return False


# ------------------------------------------------------------------ items

def norm_index(I, idx):
    if isinstance(idx, tuple):
        return tuple(norm_index(I, x) for x in idx)
    if isinstance(idx, Arr):
        if idx.dt.kind == "b":
            return np.array([bool(I.truth(x)) for x in idx.a.reshape(-1)], dtype=bool).reshape(idx.a.shape)
        return np.array([int(I.concretize(x)) for x in idx.a.reshape(-1)], dtype=int).reshape(idx.a.shape)
    if isinstance(idx, list):
        if idx and all(isinstance(x, bool) for x in idx):
            return idx
        return [norm_index(I, x) for x in idx]
    if isinstance(idx, T):
        return I.concretize(idx)
    if isinstance(idx, ExtVal) and idx.name.endswith(".newaxis"):
        return None
    if isinstance(idx, Fraction):
        raise I.err("TypeError", "indices must be integers")
    return idx


def getitem(I, obj, idx, node=None):
    if isinstance(obj, Arr):
        i = norm_index(I, idx)
        if obj.lib == "jnp":
            i = clip_index(i, obj.a.shape)
        try:
            r = obj.a[i]
        except IndexError as e:
            raise I.err("IndexError", str(e))
        if isinstance(r, np.ndarray):
            x = Arr(r, obj.dt, obj.lib)
            if obj.lib == "np" and r.base is not None:
                x.tag = obj.tag
            return x if r.ndim else r.item()
        return r
    if isinstance(obj, (list, tuple, str, deque, range)):
        if isinstance(idx, T):
            idx = I.concretize(idx)
        if isinstance(idx, bool):
            idx = int(idx)
        if not isinstance(idx, (int, slice)):
            raise I.err("TypeError", "indices must be integers or slices")
        try:
            return obj[idx]
        except IndexError:
            raise I.err("IndexError", "index %s out of range" % (idx,))
        except TypeError:
            raise I.err("TypeError", "sequence index")
    if isinstance(obj, dict):
        k = I.hashkey(idx)
        if k not in obj:
            raise I.err("KeyError", str(idx))
        v = obj[k]
        if isinstance(v, Poison):
            raise I.unsupported(v.why, node)
        return v
    if isinstance(obj, AtProxy):
        return AtIndexed(obj.arr, idx)
    if isinstance(obj, Inst):
        f, _ = obj.cls.lookup("__getitem__")
        if f is not None:
            return I.call(BoundMethod(f, obj), [idx], {})
    if isinstance(obj, ExtVal):
        return ExtVal(obj.name + "[]")
    if isinstance(obj, ClassVal):
        return obj
    if isinstance(obj, T) or isinstance(obj, NUMT):
        if idx == () or idx is Ellipsis:
            return obj
        raise I.err("IndexError", "scalar is not indexable")
    if obj is None:
        raise I.err("TypeError", "'NoneType' object is not subscriptable")
    raise I.unsupported("indexing %r" % (obj,), node)


def clip_index(i, shape):
    """JAX gathers clamp out-of-bound integer indices."""
    t = i if isinstance(i, tuple) else (i,)
    out, d = [], 0
    n_el = sum(1 for x in t if x is not None and x is not Ellipsis)
    for x in t:
        if x is None:
            out.append(x)
            continue
        if x is Ellipsis:
            out.append(x)
            d = len(shape) - (n_el - sum(1 for y in out if y is not None and y is not Ellipsis))
            continue
        if isinstance(x, int) and not isinstance(x, bool) and d < len(shape):
            n = shape[d]
            y = x + n if x < 0 else x
            x = min(max(y, 0), n - 1)
        out.append(x)
        d += 1
    return tuple(out) if isinstance(i, tuple) else out[0]


class AtProxy:
    def __init__(self, arr):
        self.arr = arr


class AtIndexed:
    def __init__(self, arr, idx):
        self.arr, self.idx = arr, idx


def at_method(I, p, name):
    def run(interp, args, kwargs):
        arr = p.arr
        if name == "get":
            return getitem(I, arr, p.idx)
        i = norm_index(I, p.idx)
        new = arr.a.copy()
        v = args[0]
        ov = as_obj(v)[0]
        try:
            if name != "set":
                op = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "mul": "Mult", "divide": "Div", "power": "Pow"}.get(name)
                if op is None:
                    if name in ("min", "max"):
                        f = terms.vmin if name == "min" else terms.vmax
                    else:
                        raise I.unsupported("at[]." + name)
                else:
                    f = BIN[op]
                ov = np.frompyfunc(f, 2, 1)(new[i], ov)
            if isinstance(ov, np.ndarray):
                if ov.ndim == 0:
                    new[i] = cast(ov, arr.dt).item()
                else:
                    new[i] = cast(ov, arr.dt)
            else:
                a0 = np.empty((), dtype=object)
                a0[()] = ov
                new[i] = cast(a0, arr.dt).item()
        except IndexError:
            return arr  # JAX drops out-of-bound scatter updates
        except ValueError as e:
            raise I.err("ValueError", str(e))
        return Arr(new, arr.dt, "jnp")
    return HostFn("at." + name, run)


def store(I, arr, i, v):
    if arr.lib == "jnp":
        raise I.err("TypeError", "JAX arrays are immutable")
    ov = as_obj(v)[0]
    c = cast(ov, arr.dt)
    try:
        arr.a[i] = c if c.ndim else c.item()
    except IndexError as e:
        raise I.err("IndexError", str(e))
    except ValueError as e:
        raise I.err("ValueError", str(e))


def setitem(I, obj, idx, v, node=None):
    if isinstance(obj, Arr):
        I.note_write(obj)
        store(I, obj, norm_index(I, idx), v)
        return
    if isinstance(obj, dict):
        obj[I.hashkey(idx)] = v
        return
    if isinstance(obj, (list, deque)):
        if isinstance(idx, slice):
            obj[idx] = I.iterate(v)
            return
        try:
            obj[I.concretize(idx)] = v
        except IndexError:
            raise I.err("IndexError", "assignment index out of range")
        return
    if isinstance(obj, Inst):
        f, _ = obj.cls.lookup("__setitem__")
        if f is not None:
            return I.call(BoundMethod(f, obj), [idx, v], {})
    if isinstance(obj, ExtVal):
        return
    if isinstance(obj, tuple):
        raise I.err("TypeError", "tuple does not support item assignment")
    raise I.unsupported("item store on %r" % (obj,), node)


# ------------------------------------------------------------------ attributes

def dtname(dt):
    return ExtVal("numpy." + dt.name)


def to_dt(v):
    if v is None:
        return None
    if isinstance(v, np.dtype):
        return v
    if isinstance(v, ExtVal):
        n = v.name.split(".")[-1]
        m = {"float": "float64", "int": "int64", "complex": "complex128", "bool": "bool", "bool_": "bool",
             "float_": "float64", "double": "float64", "int_": "int64"}
        n = m.get(n, n)
        try:
            return np.dtype(n)
        except TypeError:
            raise Unsupported("dtype " + v.name)
    if isinstance(v, str):
        return np.dtype(v)
    raise Unsupported("dtype %r" % (v,))


def getattr_(I, obj, name, node=None):
    if isinstance(obj, Inst):
        return I.inst_attr(obj, name, node)
    if isinstance(obj, ModuleVal):
        if name in obj.ns:
            v = obj.ns[name]
            if isinstance(v, Poison):
                raise I.unsupported("use of %s: %s" % (name, v.why), node)
            return v
        sub = I.module(obj.name + "." + name)
        if sub is not None:
            return sub
        raise I.err("AttributeError", "module %s has no attribute %s" % (obj.name, name))
    if isinstance(obj, ExtVal):
        return ext_attr(I, obj, name)
    if isinstance(obj, ClassVal):
        v, owner = obj.lookup(name)
        if owner is None:
            if name == "__name__":
                return obj.name
            if name == "mro":
                return HostFn("mro", lambda i, a, k: obj.mro())
            raise I.err("AttributeError", "%s has no attribute %s" % (obj.name, name))
        if isinstance(v, ClassMethodVal):
            return BoundMethod(v.func, obj)
        if isinstance(v, StaticVal):
            return v.func
        return v
    if isinstance(obj, SuperVal):
        mro = obj.self_.cls.mro() if isinstance(obj.self_, Inst) else obj.owner.mro()
        i = mro.index(obj.owner) + 1
        for c in mro[i:]:
            if name in c.ns:
                v = c.ns[name]
                if isinstance(v, PropertyVal):
                    return I.call(v.fget, [obj.self_], {})
                return I.bind(v, obj.self_)
        if name == "__init__":
            ext = [b for b in obj.self_.cls.ext_bases() if b not in ("equinox.Module", "builtins.object", "abc.ABC")]
            if ext and not all(e.startswith("builtins.") for e in ext):
                raise I.unsupported("super().__init__ of external base %s" % ext[0], node)
            return HostFn("object.__init__", lambda i, a, k: None)
        raise I.err("AttributeError", "super has no attribute %s" % name)
    if isinstance(obj, Arr):
        return arr_attr(I, obj, name, node)
    if isinstance(obj, WDict) and name in obj:
        return obj[name]
    if is_scalar(obj):
        return scalar_attr(I, obj, name, node)
    if isinstance(obj, AtIndexed):
        return at_method(I, obj, name)
    if isinstance(obj, PropertyVal):
        if name == "setter":
            return BoundMethod(HostFn("setter", None), obj)
        raise I.unsupported("property attribute", node)
    if isinstance(obj, (FuncVal, BoundMethod, PartialVal, HostFn)):
        if name in ("__name__", "__qualname__"):
            f = obj.func if isinstance(obj, (BoundMethod, PartialVal)) else obj
            return getattr(f, "qualname", getattr(f, "name", "f")).split(".")[-1]
        if name == "__doc__":
            return ""
        if isinstance(obj, FuncVal) and name in obj.attrs:
            return obj.attrs[name]
        if name == "__wrapped__":
            return obj
        if name == "__self__" and isinstance(obj, BoundMethod):
            return obj.self_
        if name == "__func__" and isinstance(obj, BoundMethod):
            return obj.func
        if name in ("func", "args", "keywords") and isinstance(obj, PartialVal):
            return {"func": obj.func, "args": tuple(obj.args), "keywords": dict(obj.kwargs)}[name]
        if name in ("clear_cache",):
            return HostFn(name, lambda i, a, k: None)
        raise I.err("AttributeError", "function has no attribute %s" % name)
    if isinstance(obj, ExecutorVal):
        if name == "submit":
            def submit(i, a, k):
                fut = FutureVal(lambda: I.call(a[0], list(a[1:]), k))
                obj.futures.append(fut)
                if not obj.lazy:
                    fut.force()
                return fut
            return HostFn("submit", submit)
        if name == "map":
            def mp_(i, a, k):
                seqs = [I.iterate(x) for x in a[1:]]
                futs = [FutureVal(lambda z=z: I.call(a[0], list(z), {})) for z in zip(*seqs)]
                order = list(reversed(futs)) if obj.lazy else futs
                for f in order:
                    f.force()
                return [f.value for f in futs]
            return HostFn("map", mp_)
        if name in ("shutdown",):
            return HostFn(name, lambda i, a, k: None)
        raise I.unsupported("executor." + name, node)
    if isinstance(obj, FutureVal):
        if name == "result":
            return HostFn("result", lambda i, a, k: obj.force())
        raise I.unsupported("future." + name, node)
    if isinstance(obj, np.dtype):
        if name == "kind":
            return obj.kind
        if name == "type":
            return dtname(obj)
        raise I.unsupported("dtype." + name, node)
    if isinstance(obj, (list, dict, set, tuple, str, deque, frozenset, slice, range)):
        return host_method(I, obj, name, node)
    if isinstance(obj, ExcVal):
        if name == "args":
            return tuple(obj.args)
        if obj.inst is not None:
            return I.inst_attr(obj.inst, name, node)
        raise I.err("AttributeError", name)
    if obj is None:
        raise I.err("AttributeError", "'NoneType' object has no attribute '%s'" % name)
    if isinstance(obj, FInfo):
        return getattr(obj, name)
    raise I.unsupported("attribute %s of %r" % (name, obj), node)


class FInfo:
    def __init__(self, dt):
        f = np.finfo(dt if dt.kind in "fc" else F64)
        self.eps = Fraction(float(f.eps))
        self.tiny = Fraction(float(f.tiny))
        self.max = Fraction(float(f.max))
        self.dtype = f.dtype


CONST = {
    "pi": terms.PI, "inf": math.inf, "nan": math.nan, "newaxis": None, "Inf": math.inf,
    "e": None,
}


def ext_attr(I, obj, name):
    full = obj.name + "." + name
    base = obj.name
    if base in ("numpy", "jax.numpy", "math", "scipy"):
        if name in ("pi", "inf", "nan", "newaxis"):
            return CONST[name]
        if name == "e":
            return terms.exp(1)
    if full in ("jax.numpy.float64", "numpy.float64"):
        return ExtVal("numpy.float64")
    if name == "__name__":
        return base.split(".")[-1]
    if base.startswith("builtins.") and name in ("__init__",):
        return HostFn(full, lambda i, a, k: None)
    return ExtVal(full)


LIST_METHODS = {"append", "extend", "insert", "pop", "clear", "copy", "reverse", "appendleft", "popleft", "rotate",
                "extendleft"}


def host_method(I, obj, name, node):
    if isinstance(obj, deque) and name == "maxlen":
        return obj.maxlen
    if isinstance(obj, slice) and name in ("start", "stop", "step"):
        return getattr(obj, name)
    if isinstance(obj, (list, deque)):
        if name in LIST_METHODS:
            def run(i, a, k):
                try:
                    if name in ("extend", "extendleft"):
                        return getattr(obj, name)(I.iterate(a[0]))
                    return getattr(obj, name)(*a)
                except IndexError:
                    raise I.err("IndexError", "pop from an empty container")
            return HostFn(name, run)
        if name == "count":
            return HostFn(name, lambda i, a, k: sum(1 for x in obj if contains(I, a[0], [x]) is True))
        if name == "index":
            def index(i, a, k):
                for j, x in enumerate(obj):
                    if contains(I, a[0], [x]) is True:
                        return j
                raise I.err("ValueError", "not in list")
            return HostFn(name, index)
        if name == "remove":
            def remove(i, a, k):
                for j, x in enumerate(obj):
                    if contains(I, a[0], [x]) is True:
                        del obj[j]
                        return None
                raise I.err("ValueError", "not in list")
            return HostFn(name, remove)
        if name == "sort":
            def sort(i, a, k):
                obj[:] = sorted_(I, [obj], k)
            return HostFn(name, sort)
    if isinstance(obj, dict):
        if name in ("keys", "values", "items", "copy", "clear"):
            return HostFn(name, lambda i, a, k: getattr(obj, name)())
        if name in ("get", "pop", "setdefault"):
            def run(i, a, k):
                a = [I.hashkey(a[0])] + list(a[1:])
                if "default" in k:
                    a.append(k["default"])
                try:
                    return getattr(obj, name)(*a)
                except KeyError:
                    raise I.err("KeyError", str(a[0]))
            return HostFn(name, run)
        if name == "update":
            def upd(i, a, k):
                if a:
                    obj.update(a[0] if isinstance(a[0], dict) else dict(I.iterate(a[0])))
                obj.update(k)
            return HostFn(name, upd)
    if isinstance(obj, (set, frozenset)):
        if name in ("add", "discard", "union", "update", "remove", "intersection", "difference", "issubset", "copy"):
            return HostFn(name, lambda i, a, k: getattr(obj, name)(*a))
    if isinstance(obj, tuple) and name in ("index", "count"):
        return HostFn(name, lambda i, a, k: getattr(obj, name)(*a))
    if isinstance(obj, str):
        if name in ("format", "join"):
            def run(i, a, k):
                try:
                    if name == "join":
                        return obj.join(I.iterate(a[0]))
                    return obj.format(*[float(x) if isinstance(x, Fraction) else x for x in a], **k)
                except Exception:
                    return "<fmt>" + obj
            return HostFn(name, run)
        if hasattr(str, name):
            return HostFn(name, lambda i, a, k: getattr(obj, name)(*a))
    raise I.err("AttributeError", "%s has no attribute %s" % (type(obj).__name__, name))


def scalar_attr(I, v, name, node):
    if name == "shape":
        return ()
    if name in ("ndim",):
        return 0
    if name == "size":
        return 1
    if name in ("T", "mT"):
        return v
    if name == "real":
        return terms.real(v) if isinstance(v, T) else v
    if name == "imag":
        return terms.imag(v) if isinstance(v, T) else 0
    if name == "dtype":
        return scalar_dtype(v)
    if name in ("item", "copy", "squeeze", "block_until_ready", "conj", "conjugate", "mean", "sum", "max", "min", "prod", "transpose"):
        if name in ("conj", "conjugate"):
            return HostFn(name, lambda i, a, k: terms.conj(v))
        return HostFn(name, lambda i, a, k: v)
    if name == "astype":
        def astype(i, a, k):
            x = np.empty((), dtype=object)
            x[()] = v
            return cast(x, to_dt(a[0])).item()
        return HostFn(name, astype)
    if name in ("flatten", "ravel"):
        return HostFn(name, lambda i, a, k: Arr(oarr([v], (1,)), scalar_dtype(v), "jnp"))
    if name == "reshape":
        def resh(i, a, k):
            sh = a[0] if len(a) == 1 else tuple(a)
            sh = sh if isinstance(sh, tuple) else (sh,)
            return wrap(oarr([v], (1,)).reshape(tuple(int(x) for x in sh)), scalar_dtype(v), "jnp")
        return HostFn(name, resh)
    if name == "bit_length" and isinstance(v, int):
        return HostFn(name, lambda i, a, k: v.bit_length())
    if name == "is_integer":
        return HostFn(name, lambda i, a, k: is_integral(v))
    if name == "at":
        return AtProxy(Arr(oarr([v], (1,)).reshape(()), scalar_dtype(v), "jnp"))
    raise I.err("AttributeError", "scalar has no attribute %s" % name)


def int_(I, x):
    v = I.concretize(x)
    if isinstance(v, bool):
        return int(v)
    if not isinstance(v, int):
        raise I.err("TypeError", "integer expected, got %r" % (v,))
    return v


def shape_arg(I, a):
    if isinstance(a, (list, tuple)):
        return tuple(int_(I, x) for x in a)
    if isinstance(a, Arr):
        return tuple(int_(I, x) for x in a.a.reshape(-1))
    return (int_(I, a),)


def arr_attr(I, A, name, node):
    a = A.a
    if isinstance(A, FieldArr) and name in A.fields:
        return A.fields[name]
    if isinstance(A, SpArr) and name in ("T", "mT", "transpose", "to_bcoo", "sum_duplicates", "sort_indices"):
        if name in ("T", "mT"):
            return SpArr(a.T, A.dt, A.lib)
        return HostFn(name, lambda i, x, k: (BcsrArr if isinstance(A, BcsrArr) and name != "to_bcoo" else SpArr)(a.T if name == "transpose" else a.copy(), A.dt, A.lib))
    if name in ("todense", "to_bcoo", "sum_duplicates", "tocsr", "tocsc", "toarray", "sort_indices") and A.lib == "jnp" or name in ("toarray", "todense", "tocsr", "tocsc"):
        return HostFn(name, lambda i, x, k: Arr(a.copy(), A.dt, A.lib))
    if name == "shape":
        return tuple(a.shape)
    if name == "ndim":
        return a.ndim
    if name == "size":
        return int(a.size)
    if name == "dtype":
        return A.dt
    if name in ("T", "mT"):
        r = Arr(a.T, A.dt, A.lib)
        r.tag = A.tag if A.lib == "np" else None
        return r
    if name == "at":
        if A.lib != "jnp":
            raise I.err("AttributeError", "numpy array has no attribute at")
        return AtProxy(A)
    if name == "real":
        return elementwise1(I, lambda x: terms.real(x) if isinstance(x, T) else x, A, F64)
    if name == "imag":
        return elementwise1(I, lambda x: terms.imag(x) if isinstance(x, T) else 0, A, F64)
    if name == "flat":
        return A.flat()
    if name in ("data", "base", "nbytes", "itemsize", "strides", "flags"):
        raise I.unsupported("array attribute " + name, node)
    if name == "shape":
        return a.shape

    def run(i, args, kw):
        return call_ext(I, ("jax.numpy." if A.lib == "jnp" else "numpy.") + name, [A] + list(args), kw, node)

    if name == "reshape":
        def resh(i, args, kw):
            order = kw.get("order", "C")
            sh = args[0] if len(args) == 1 else tuple(args)
            return reshape(I, A, sh, order)
        return HostFn(name, resh)
    if name in ("flatten", "ravel"):
        def fl(i, args, kw):
            order = kw.get("order", args[0] if args else "C")
            return Arr(a.flatten(order=order) if name == "flatten" else a.ravel(order=order), A.dt, A.lib)
        return HostFn(name, fl)
    if name == "astype":
        def asty(i, args, kw):
            dt = to_dt(args[0] if args else kw.get("dtype"))
            return Arr(cast(a, dt), dt, A.lib)
        return HostFn(name, asty)
    if name == "transpose":
        def tr(i, args, kw):
            ax = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else (tuple(args) or None)
            return Arr(a.transpose(ax) if ax else a.transpose(), A.dt, A.lib)
        return HostFn(name, tr)
    if name == "copy":
        return HostFn(name, lambda i, x, k: Arr(a.copy(), A.dt, A.lib))
    if name == "item":
        return HostFn(name, lambda i, x, k: a.reshape(-1)[int_(I, x[0]) if x else 0])
    if name == "tolist":
        def tl(i, x, k):
            def go(z):
                return [go(y) for y in z] if isinstance(z, np.ndarray) else z
            return go(a)
        return HostFn(name, tl)
    if name in ("block_until_ready", "todense", "toarray", "get", "tocsr", "tocsc", "tocoo"):
        return HostFn(name, lambda i, x, k: A)
    if name in ("conj", "conjugate"):
        return HostFn(name, lambda i, x, k: elementwise1(I, terms.conj, A))
    if name == "fill":
        def fill(i, x, k):
            I.note_write(A)
            store(I, A, (Ellipsis,), x[0])
        return HostFn(name, fill)
    if name == "sort" and A.lib == "np":
        def srt(i, x, k):
            I.note_write(A)
            a[:] = oarr(sorted_(I, [list(a)], {}))
        return HostFn(name, srt)
    if name in ("sum", "mean", "max", "min", "prod", "dot", "squeeze", "swapaxes", "any", "all", "cumsum", "cumprod",
                "argmax", "argmin", "diagonal", "trace", "repeat", "take", "round", "clip", "argsort", "var", "std"):
        return HostFn(name, run)
    if name == "__array__":
        return HostFn(name, lambda i, x, k: A)
    if name == "__len__":
        return HostFn(name, lambda i, x, k: a.shape[0])
    raise I.err("AttributeError", "array has no attribute %s" % name)


def reshape(I, A, sh, order="C"):
    sh = shape_arg(I, sh)
    try:
        r = A.a.reshape(sh, order=order)
    except ValueError as e:
        raise I.err("ValueError", str(e))
    out = wrap(r, A.dt, A.lib)
    if isinstance(out, Arr) and A.lib == "np":
        out.tag = A.tag
    return out


# ------------------------------------------------------------------ external calls

EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


ALIASES = [
    ("jax.scipy.", "scipy."), ("jax.numpy.", "jnp."), ("numpy.", "np."), ("jax.experimental.sparse.", "jsp."),
]


def canon(name):
    if name.startswith("jax.numpy."):
        return "xp." + name[10:], "jnp"
    if name.startswith("numpy."):
        return "xp." + name[6:], "np"
    if name.startswith("jax.scipy."):
        return "scipy." + name[10:], "jnp"
    if name.startswith("scipy."):
        return name, "np"
    return name, None


def call_ext(I, name, args, kwargs, node=None):
    con = I.contracts.get(name)
    if con is not None:
        return con(I, args, kwargs)
    c, lib = canon(name)
    f = EXT.get(c)
    if f is None and lib and c.startswith("xp."):
        f = EXT.get(c)
    if f is None:
        raise I.unsupported("external function %s" % name, node)
    kw, ar = KwWatch(kwargs), ArgWatch(args)
    r = f(I, ar, kw, lib or "jnp")
    if f is not _noop:
        left = [x for x in kwargs if x not in kw.used and x not in IGNORABLE]
        if left:
            # an option the model does not look at: no verdict rather than a wrong one
            raise I.unsupported("option %s of %s" % (left[0], name), node)
        if ar.top < len(args) - 1 and not ar.whole:
            raise I.unsupported("argument %d of %s" % (len(args) - 1, name), node)
    return r


# options without influence on the exact result
IGNORABLE = {"dtype", "copy", "precision", "unroll", "static_argnums", "static_argnames", "donate_argnums", "device", "promote_integers", "endpoint_", "inline",
             "check_finite", "overwrite_a", "overwrite_b", "mode", "flush", "file", "sep", "end", "indices_are_sorted", "unique_indices", "max_workers", "repr", "static",
             "stacklevel", "has_aux_", "preferred_element_type", "optimize", "fill_value_", "lower_", "ndmin_", "init_", "stable", "kind"}


class KwWatch(dict):
    """keyword arguments of a library call that record which of them the model consulted"""

    def __init__(self, d):
        super().__init__(d)
        self.used = set()

    def get(self, k, d=None):
        self.used.add(k)
        return super().get(k, d)

    def pop(self, k, *d):
        self.used.add(k)
        return super().pop(k, *d)

    def __getitem__(self, k):
        self.used.add(k)
        return super().__getitem__(k)

    def __contains__(self, k):
        self.used.add(k)
        return super().__contains__(k)

    def _all(self):
        self.used.update(super().keys())

    def keys(self):
        self._all()
        return super().keys()

    def items(self):
        self._all()
        return super().items()

    def values(self):
        self._all()
        return super().values()

    def __iter__(self):
        self._all()
        return super().__iter__()

    def copy(self):
        self._all()
        return dict(self)


class ArgWatch(list):
    """positional arguments of a library call that record how far the model looked"""

    def __init__(self, a):
        super().__init__(a)
        self.top, self.whole = -1, False

    def __getitem__(self, i):
        if isinstance(i, slice):
            self.whole = True
            return list(super().__getitem__(i))
        self.top = max(self.top, i if i >= 0 else len(self) + i)
        return super().__getitem__(i)

    def __iter__(self):
        self.whole = True
        return super().__iter__()

    def __add__(self, o):
        self.whole = True
        return list(self) + list(o)


def getarg(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


# ---- builtins

@ext("builtins.print", "builtins.input", "logging.basicConfig", "warnings.warn", "jax.debug.print", "jax.config.update",
     "numpy.set_printoptions", "xp.set_printoptions", "logging.info", "logging.debug", "logging.warning",
     "warnings.filterwarnings", "warnings.simplefilter", "os.makedirs", "jax.block_until_ready_",
     *["logging." + o + m for o in ("Logger.", "") for m in ("info", "debug", "warning", "error", "critical", "exception", "log", "setLevel", "addHandler")])
def _noop(I, a, k, lib):
    return None


@ext("logging.getLogger")
def _logger(I, a, k, lib):
    a[:]
    return ExtVal("logging.Logger")


@ext("builtins.len")
def _len(I, a, k, lib):
    v = a[0]
    if isinstance(v, Arr):
        if v.a.ndim == 0:
            raise I.err("TypeError", "len() of unsized object")
        return v.a.shape[0]
    if isinstance(v, (list, tuple, dict, set, str, deque, range, frozenset, type({}.keys()), type({}.values()), type({}.items()))):
        return len(v)
    if isinstance(v, Inst):
        f, _ = v.cls.lookup("__len__")
        if f is not None:
            return I.call(BoundMethod(f, v), [], {})
    if v is None or is_scalar(v):
        raise I.err("TypeError", "object has no len()")
    raise I.unsupported("len of %r" % (v,))


@ext("builtins.range")
def _range(I, a, k, lib):
    return range(*[int_(I, x) for x in a])


@ext("builtins.enumerate")
def _enum(I, a, k, lib):
    return list(enumerate(I.iterate(a[0]), int_(I, getarg(a, k, 1, "start", 0))))


@ext("builtins.zip")
def _zip(I, a, k, lib):
    return list(zip(*[I.iterate(x) for x in a]))


@ext("builtins.map")
def _map(I, a, k, lib):
    return [I.call(a[0], list(z), {}) for z in zip(*[I.iterate(x) for x in a[1:]])]


@ext("builtins.filter")
def _filter(I, a, k, lib):
    return [x for x in I.iterate(a[1]) if I.truth(x if a[0] is None else I.call(a[0], [x], {}))]


@ext("builtins.reversed")
def _reversed(I, a, k, lib):
    return list(reversed(I.iterate(a[0])))


def sorted_(I, a, k):
    xs = list(I.iterate(a[0]))
    key = k.get("key")
    ks = [x if key is None else I.call(key, [x], {}) for x in xs]
    # insertion sort with decided comparisons (stable)
    out = []
    for x, kx in zip(xs, ks):
        j = len(out)
        while j > 0 and I.truth(compare(I, "Lt", kx, out[j - 1][1])):
            j -= 1
        out.insert(j, (x, kx))
    r = [x for x, _ in out]
    if k.get("reverse"):
        r.reverse()
    return r


@ext("builtins.sorted")
def _sorted(I, a, k, lib):
    return sorted_(I, a, k)


@ext("builtins.list")
def _list(I, a, k, lib):
    return list(I.iterate(a[0])) if a else []


@ext("builtins.tuple")
def _tuple(I, a, k, lib):
    return tuple(I.iterate(a[0])) if a else ()


@ext("builtins.set", "builtins.frozenset")
def _set(I, a, k, lib):
    return set(I.iterate(a[0])) if a else set()


@ext("builtins.dict", "collections.OrderedDict")
def _dict(I, a, k, lib):
    d = {}
    if a:
        d.update(a[0] if isinstance(a[0], dict) else {I.hashkey(x): y for x, y in I.iterate(a[0])})
    d.update(k)
    return d


@ext("collections.deque")
def _deque(I, a, k, lib):
    ml = getarg(a, k, 1, "maxlen", None)
    ml = None if ml is None else int_(I, ml)
    if ml is not None and ml < 0:
        raise I.err("ValueError", "maxlen must be non-negative")
    return deque(I.iterate(a[0]) if a else [], maxlen=ml)


@ext("collections.defaultdict")
def _ddict(I, a, k, lib):
    raise I.unsupported("defaultdict")


@ext("builtins.int")
def _int(I, a, k, lib):
    v = a[0] if a else 0
    if isinstance(v, str):
        return int(v)
    if isinstance(v, Arr):
        v = v.a.reshape(-1)[0]
    return to_int(v)


@ext("builtins.float")
def _float(I, a, k, lib):
    v = a[0] if a else 0
    if isinstance(v, Arr) and v.a.size == 1:
        v = v.a.reshape(-1)[0]
    if isinstance(v, str):
        return terms.num(float(v))
    if isinstance(v, T):
        if not v.real:
            raise I.err("TypeError", "can't convert complex to float")
        return bool_num(v)
    if isinstance(v, (int,)):
        return Fraction(int(v))
    if v is None or not is_scalar(v):
        raise I.err("TypeError", "float() argument")
    return v


@ext("builtins.complex")
def _complex(I, a, k, lib):
    re = getarg(a, k, 0, "real", 0)
    im = getarg(a, k, 1, "imag", 0)
    return terms.add(re, terms.mul(im, terms.I))


@ext("builtins.bool")
def _bool(I, a, k, lib):
    v = a[0] if a else False
    if isinstance(v, T):
        return terms.truthy(v)
    return I.truth(v)


@ext("builtins.str", "builtins.repr", "builtins.format")
def _str(I, a, k, lib):
    v = a[0] if a else ""
    if isinstance(v, Fraction):
        return str(float(v))
    return str(v) if isinstance(v, (str, int, float, bool)) else "<str>"


@ext("builtins.abs", "xp.abs", "xp.absolute", "math.fabs", "jax.lax.abs", "xp.fabs")
def _abs(I, a, k, lib):
    v = a[0]
    dt = F64 if isinstance(v, Arr) and v.dt.kind == "c" else None
    return tolib(elementwise1(I, sfun(terms.absv), v, dt), lib)


def tolib(v, lib):
    if isinstance(v, Arr) and v.lib != lib and lib in ("np", "jnp"):
        if lib == "jnp":
            return Arr(v.a, v.dt, "jnp")
        return Arr(v.a, v.dt, v.lib)
    return v


@ext("builtins.max")
def _bmax(I, a, k, lib):
    xs = I.iterate(a[0]) if len(a) == 1 else list(a)
    return red_minmax(I, xs, k, terms.vmax, terms.lt)


@ext("builtins.min")
def _bmin(I, a, k, lib):
    xs = I.iterate(a[0]) if len(a) == 1 else list(a)
    return red_minmax(I, xs, k, terms.vmin, terms.gt)


def red_minmax(I, xs, k, f, less):
    if not xs:
        if "default" in k:
            return k["default"]
        raise I.err("ValueError", "empty sequence")
    key = k.get("key")
    if key is not None or any(not is_scalar(x) for x in xs):
        ks = [x if key is None else I.call(key, [x], {}) for x in xs]
        best = 0
        for j in range(1, len(xs)):
            if I.truth(compare(I, "Lt", ks[best], ks[j]) if f is terms.vmax else compare(I, "Lt", ks[j], ks[best])):
                best = j
        return xs[best]
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


@ext("builtins.sum")
def _bsum(I, a, k, lib):
    r = getarg(a, k, 1, "start", 0)
    for x in I.iterate(a[0]):
        r = binop(I, "Add", r, x)
    return r


@ext("builtins.any")
def _bany(I, a, k, lib):
    return any(I.truth(x) for x in I.iterate(a[0]))


@ext("builtins.all")
def _ball(I, a, k, lib):
    return all(I.truth(x) for x in I.iterate(a[0]))


@ext("builtins.round")
def _round(I, a, k, lib):
    v = a[0]
    nd = int_(I, a[1]) if len(a) > 1 and a[1] is not None else int_(I, k["ndigits"]) if k.get("ndigits") is not None else 0
    if isinstance(v, Arr):
        v = v.a.reshape(-1)[0]
    if isinstance(v, T):
        return round_(v, nd)
    return round(v, *a[1:], **k)


@ext("xp.round", "xp.around", "xp.rint")
def _xround(I, a, k, lib):
    nd = int_(I, a[1]) if len(a) > 1 and a[1] is not None else int_(I, k.get("decimals", 0) or 0)
    return elementwise1(I, lambda x: round_(x, nd) if isinstance(x, T) else Fraction(round(x, nd)) if isinstance(x, Fraction) else round(x, nd), a[0])


@ext("builtins.divmod")
def _divmod(I, a, k, lib):
    return (floordiv_(a[0], a[1]), mod_(a[0], a[1]))


@ext("builtins.pow")
def _pow(I, a, k, lib):
    return binop(I, "Pow", a[0], a[1])


@ext("builtins.callable")
def _callable(I, a, k, lib):
    v = a[0]
    if isinstance(v, (FuncVal, HostFn, BoundMethod, PartialVal, ClassVal)):
        return True
    if isinstance(v, ExtVal):
        return True
    if isinstance(v, Inst):
        return v.cls.lookup("__call__")[0] is not None
    return False


@ext("builtins.getattr")
def _getattr(I, a, k, lib):
    if not isinstance(a[1], str):
        raise I.unsupported("getattr with symbolic name")
    if len(a) > 2:
        return I.getattr(a[0], a[1], None, a[2], True)
    return I.getattr(a[0], a[1])


@ext("builtins.setattr")
def _setattr(I, a, k, lib):
    I.setattr(a[0], a[1], a[2])


@ext("builtins.delattr")
def _delattr(I, a, k, lib):
    if isinstance(a[0], Inst):
        if a[1] not in a[0].attrs:
            raise I.err("AttributeError", a[1])
        del a[0].attrs[a[1]]
        return
    raise I.unsupported("delattr")


@ext("object.__setattr__", "builtins.object.__setattr__")
def _osetattr(I, a, k, lib):
    a[0].attrs[a[1]] = a[2]


@ext("builtins.hasattr")
def _hasattr(I, a, k, lib):
    try:
        I.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if "AttributeError" in e.exc.names:
            return False
        raise


@ext("builtins.type")
def _type(I, a, k, lib):
    v = a[0]
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, Arr):
        return ExtVal("jax.Array" if v.lib == "jnp" else "numpy.ndarray")
    if isinstance(v, T):
        raise I.unsupported("type of a symbolic scalar")
    n = type(v).__name__
    return ExtVal("builtins." + {"Fraction": "float", "NoneType": "NoneType"}.get(n, n))


@ext("builtins.id", "builtins.hash")
def _id(I, a, k, lib):
    return id(a[0])


@ext("builtins.iter")
def _iter(I, a, k, lib):
    return iter(I.iterate(a[0]))


@ext("builtins.next")
def _next(I, a, k, lib):
    try:
        return next(a[0])
    except StopIteration:
        if len(a) > 1:
            return a[1]
        raise I.err("StopIteration")
    except TypeError:
        # a generator expression is a list here: take its first element
        if isinstance(a[0], list):
            if a[0]:
                return a[0].pop(0)
            if len(a) > 1:
                return a[1]
            raise I.err("StopIteration")
        raise I.unsupported("next")


@ext("builtins.slice")
def _slice(I, a, k, lib):
    return slice(*[None if x is None else I.concretize(x) for x in a])


@ext("builtins.isinstance")
def _isinstance(I, a, k, lib):
    v, t = a
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        if isinst(I, v, x):
            return True
    return False


def isinst(I, v, t):
    if isinstance(t, ClassVal):
        return isinstance(v, Inst) and t in v.cls.mro()
    if isinstance(t, ExtVal):
        n = t.name
        s = n.split(".")[-1]
        if s in ("Array", "ArrayLike") and n.startswith("jax") or n == "jax.numpy.ndarray":
            if isinstance(v, T):
                raise I.unsupported("isinstance(symbolic scalar, jax.Array)")
            return isinstance(v, Arr) and v.lib == "jnp" and not isinstance(v, SpArr)
        if s in ("JAXSparse", "BCOO", "BCSR"):
            return isinstance(v, SpArr) and (s == "JAXSparse" or (s == "BCSR") == isinstance(v, BcsrArr))
        if n == "numpy.ndarray":
            return isinstance(v, Arr) and v.lib == "np"
        if n == "builtins.float" or s in ("Number", "Real") or n == "numpy.floating":
            return isinstance(v, (Fraction, float, T)) or s in ("Number", "Real") and isinstance(v, int)
        if n in ("builtins.int", "numpy.integer"):
            return isinstance(v, int) or (isinstance(v, T) and is_integral(v))
        if n == "builtins.bool":
            return isinstance(v, bool) or terms.is_cond(v)
        if n == "builtins.complex":
            return isinstance(v, T) and not v.real
        hosts = {"builtins.str": str, "builtins.list": list, "builtins.tuple": tuple, "builtins.dict": dict,
                 "builtins.set": set, "collections.deque": deque, "builtins.slice": slice}
        if n in hosts:
            return isinstance(v, hosts[n])
        if s == "Callable" or n == "collections.abc.Callable":
            return _callable(I, [v], {}, None)
        if s in ("Iterable", "Sequence"):
            return isinstance(v, (list, tuple, Arr, deque, dict))
        if s in ("Mapping",):
            return isinstance(v, dict)
        if isinstance(v, Inst):
            return n in v.cls.ext_bases()
        if isinstance(v, (Arr, T, type(None), str, list, tuple, dict)) or isinstance(v, NUMT):
            return False
    if isinstance(t, type) and t is type(None):
        return v is None
    raise I.unsupported("isinstance(.., %r)" % (t,))


@ext("builtins.issubclass")
def _issubclass(I, a, k, lib):
    t = a[1] if isinstance(a[1], tuple) else (a[1],)
    return isinstance(a[0], ClassVal) and any(isinstance(x, ClassVal) and x in a[0].mro() for x in t)


@ext("builtins.NotImplementedError", "builtins.ValueError", "builtins.RuntimeError", "builtins.AttributeError",
     "builtins.TypeError", "builtins.KeyError", "builtins.IndexError", "builtins.ImportError", "builtins.Exception",
     "builtins.AssertionError", "builtins.ArithmeticError", "builtins.ZeroDivisionError", "builtins.StopIteration",
     "builtins.Warning", "builtins.UserWarning", "builtins.FloatingPointError", "builtins.NameError", "builtins.LookupError")
def _exc(I, a, k, lib):
    raise I.unsupported("exception constructor")  # replaced below


def _mk_exc(name):
    def f(I, a, k, lib):
        e = I.err(name, *a)
        return e.exc
    return f


for _n in list(EXT):
    if EXT[_n] is _exc:
        EXT[_n] = _mk_exc(_n[9:])


@ext("builtins.object")
def _object(I, a, k, lib):
    return ExtVal("object-instance")


@ext("builtins.property")
def _property(I, a, k, lib):
    return PropertyVal(*a[:2])


@ext("builtins.staticmethod")
def _static(I, a, k, lib):
    return StaticVal(a[0])


@ext("builtins.classmethod")
def _clsm(I, a, k, lib):
    return ClassMethodVal(a[0])


@ext("time.perf_counter", "time.time", "time.monotonic", "time.process_time")
def _time(I, a, k, lib):
    return 0


@ext("functools.partial", "jax.tree_util.Partial")
def _partial(I, a, k, lib):
    return PartialVal(a[0], a[1:], dict(k))


@ext("functools.reduce")
def _reduce(I, a, k, lib):
    xs = I.iterate(a[1])
    if len(a) > 2:
        r = a[2]
    else:
        r, xs = xs[0], xs[1:]
    for x in xs:
        r = I.call(a[0], [r, x], {})
    return r


@ext("functools.wraps")
def _wraps(I, a, k, lib):
    return HostFn("wraps", lambda i, x, kk: x[0])


@ext("dataclasses.dataclass")
def _dataclass(I, a, k, lib):
    if a and isinstance(a[0], ClassVal):
        a[0].dataclass = True
        return a[0]

    def deco(i, x, kk):
        x[0].dataclass = True
        return x[0]
    return HostFn("dataclass", deco)


@ext("dataclasses.field", "equinox.field")
def _field(I, a, k, lib):
    from .interp import FieldDefault
    if "default" in k or "default_factory" in k:
        return FieldDefault(k.get("default"), k.get("default_factory"))
    return FieldDefault()


@ext("dataclasses.replace", "copy.replace")
def _dreplace(I, a, k, lib):
    n = Inst(a[0].cls)
    n.attrs = dict(a[0].attrs)
    n.attrs.update(k)
    return n


@ext("copy.copy", "copy.deepcopy")
def _copy(I, a, k, lib):
    v = a[0]
    if isinstance(v, Arr):
        return Arr(v.a.copy(), v.dt, v.lib)
    if isinstance(v, Inst):
        n = Inst(v.cls)
        n.attrs = dict(v.attrs)
        return n
    if isinstance(v, (list, dict, set, deque)):
        return v.copy()
    return v


@ext("itertools.product")
def _product(I, a, k, lib):
    return list(itertools.product(*[I.iterate(x) for x in a], repeat=k.get("repeat", 1)))


@ext("itertools.chain")
def _chain(I, a, k, lib):
    return [x for y in a for x in I.iterate(y)]


@ext("itertools.accumulate")
def _accum(I, a, k, lib):
    out, r = [], None
    for i, x in enumerate(I.iterate(a[0])):
        r = x if i == 0 else (I.call(a[1], [r, x], {}) if len(a) > 1 else binop(I, "Add", r, x))
        out.append(r)
    return out


@ext("operator.itemgetter")
def _ig(I, a, k, lib):
    return HostFn("itemgetter", lambda i, x, kk: getitem(I, x[0], a[0]) if len(a) == 1 else tuple(getitem(I, x[0], q) for q in a))


for _nm, _op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("matmul", "MatMult"), ("pow", "Pow")):
    EXT["operator." + _nm] = (lambda op: lambda I, a, k, lib: binop(I, op, a[0], a[1]))(_op)


@ext("concurrent.futures.ThreadPoolExecutor", "concurrent.futures.ProcessPoolExecutor")
def _tpe(I, a, k, lib):
    return ExecutorVal(I.lazy_threads)


@ext("concurrent.futures.wait", "concurrent.futures.as_completed")
def _wait(I, a, k, lib):
    fs = I.iterate(a[0])
    for f in (reversed(fs) if I.lazy_threads else fs):
        f.force()
    return fs


# ---- jax transformations and control flow

@ext("jax.jit", "equinox.filter_jit", "jax.checkpoint", "jax.remat", "jax.named_call")
def _jit(I, a, k, lib):
    if not a:
        return HostFn("jit", lambda i, x, kk: x[0])
    return a[0]


@ext("jax.block_until_ready", "jax.device_put", "jax.device_get", "jax.lax.stop_gradient")
def _ident(I, a, k, lib):
    return a[0]


@ext("jax.devices", "jax.default_backend")
def _devices(I, a, k, lib):
    return ExtVal("devices")


def gate(I, c, x, y):
    """value-level merge: c ? x : y over nested structures."""
    if isinstance(c, bool):
        return x if c else y
    if isinstance(x, Arr) or isinstance(y, Arr):
        ox, oy = as_obj(x)[0], as_obj(y)[0]
        if ox.shape != oy.shape:
            raise I.err("TypeError", "branches have different shapes")
        r = np.frompyfunc(lambda p, q: terms.ite(c, p, q), 2, 1)(ox, oy)
        return wrap(np.asarray(r, dtype=object), promote(as_obj(x)[1], as_obj(y)[1]), libof(x, y))
    if is_scalar(x) and is_scalar(y):
        return terms.ite(c, x, y)
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and len(x) == len(y):
        return type(x)(gate(I, c, p, q) for p, q in zip(x, y))
    if isinstance(x, dict) and isinstance(y, dict) and x.keys() == y.keys():
        return {kk: gate(I, c, x[kk], y[kk]) for kk in x}
    if isinstance(x, Inst) and isinstance(y, Inst) and x.cls is y.cls:
        if x is y:
            return x
        n = Inst(x.cls)
        for kk in x.attrs:
            n.attrs[kk] = gate(I, c, x.attrs[kk], y.attrs[kk])
        n.frozen = x.frozen
        return n
    if x is y or (x is None and y is None):
        return x
    raise I.unsupported("merge of %r and %r" % (type(x).__name__, type(y).__name__))


@ext("jax.lax.cond")
def _cond(I, a, k, lib):
    p = a[0]
    if isinstance(p, Arr):
        p = p.a.reshape(-1)[0]
    p = terms.truthy(p) if isinstance(p, T) else I.truth(p)
    ops = list(a[3:])
    if "operand" in k:
        ops.append(k["operand"])
    if p is True:
        return I.call(a[1], ops, {})
    if p is False:
        return I.call(a[2], ops, {})
    if p in I.decisions:
        return I.call(a[1] if I.decisions[p] else a[2], ops, {})
    x = I.call(a[1], list(ops), {})
    y = I.call(a[2], list(ops), {})
    return gate(I, p, x, y)


@ext("jax.lax.select")
def _select(I, a, k, lib):
    return EXT["xp.where"](I, a, k, "jnp")


@ext("jax.lax.switch")
def _switch(I, a, k, lib):
    idx = a[0]
    br = list(a[1])
    ops = list(a[2:])
    if isinstance(idx, int):
        return I.call(br[min(max(idx, 0), len(br) - 1)], ops, {})
    r = I.call(br[-1], ops, {})
    for j in range(len(br) - 2, -1, -1):
        c = terms.le(idx, j) if j == 0 else terms.eq(idx, j)
        r = gate(I, c, I.call(br[j], ops, {}), r)
    return r


@ext("jax.lax.while_loop")
def _while(I, a, k, lib):
    cond = getarg(a, k, 0, "cond_fun")
    body = getarg(a, k, 1, "body_fun")
    init = getarg(a, k, 2, "init_val")
    carries, conds = [init], []
    for _ in range(I.unroll):
        c = I.call(cond, [carries[-1]], {})
        if isinstance(c, Arr):
            c = c.a.reshape(-1)[0]
        c = terms.truthy(c) if isinstance(c, T) else I.truth(c)
        if isinstance(c, T) and c in I.decisions:
            c = I.decisions[c]
        conds.append(c)
        if c is False:
            break
        carries.append(I.call(body, [carries[-1]], {}))
    else:
        c = I.call(cond, [carries[-1]], {})
        if isinstance(c, Arr):
            c = c.a.reshape(-1)[0]
        c = terms.truthy(c) if isinstance(c, T) else I.truth(c)
        if c is not False:
            live = c
            for q in conds:
                live = terms.land(live, q)
            I.cuts.append(("bound", live, "while_loop unrolled %d times" % I.unroll))
    n = len(carries)
    r = carries[-1]
    for j in range(n - 2, -1, -1):
        if conds[j] is True:
            continue
        r = gate(I, conds[j], r, carries[j])
    return r


@ext("jax.lax.fori_loop")
def _fori(I, a, k, lib):
    lo = getarg(a, k, 0, "lower")
    hi = getarg(a, k, 1, "upper")
    body = getarg(a, k, 2, "body_fun")
    v = getarg(a, k, 3, "init_val")

    def conc(x):
        if isinstance(x, Arr) and x.a.size == 1:
            x = x.a.reshape(-1)[0]
        if isinstance(x, Fraction):
            if x.denominator != 1:
                raise I.err("TypeError", "fori_loop bounds must be integers")
            x = int(x)
        if isinstance(x, T) and x.closed:
            return I.concretize(x)
        return x
    lo, hi = conc(lo), conc(hi)
    if isinstance(lo, int) and isinstance(hi, int):
        for i in range(lo, hi):
            v = I.call(body, [i, v], {})
        return v
    if isinstance(lo, T):
        lo = I.concretize(lo)
    if isinstance(lo, int):
        outs = [v]
        for i in range(lo, lo + I.unroll):
            outs.append(I.call(body, [i, copyval(outs[-1])], {}))
        r = outs[-1]
        for j in range(len(outs) - 2, -1, -1):
            r = gate(I, terms.lt(lo + j, hi), r, outs[j])
        I.cuts.append(("bound", terms.lt(lo + I.unroll, hi), "fori_loop unrolled %d times" % I.unroll))
        return r
    raise I.unsupported("fori_loop bounds")


def copyval(v):
    if isinstance(v, list):
        return [copyval(x) for x in v]
    if isinstance(v, dict):
        return {k: copyval(x) for k, x in v.items()}
    return v


@ext("jax.lax.scan")
def _scan(I, a, k, lib):
    f, init = a[0], getarg(a, k, 1, "init")
    xs = getarg(a, k, 2, "xs")
    length = getarg(a, k, 3, "length")
    n = None

    def size(x):
        if isinstance(x, Arr):
            return x.a.shape[0]
        if isinstance(x, (tuple, list)):
            for y in x:
                s = size(y)
                if s is not None:
                    return s
        if isinstance(x, dict):
            return size(list(x.values()))
        return None

    def take(x, i):
        if isinstance(x, Arr):
            return wrap(x.a[i], x.dt, x.lib)
        if isinstance(x, (tuple, list)):
            return type(x)(take(y, i) for y in x)
        if isinstance(x, dict):
            return {kk: take(y, i) for kk, y in x.items()}
        return x
    n = size(xs)
    if n is None:
        n = int_(I, length)
    idx = range(n)
    if k.get("reverse"):
        idx = reversed(idx)
    ys, c = [], init
    for i in idx:
        c, y = I.iterate(I.call(f, [c, take(xs, i)], {}))
        ys.append(y)
    if k.get("reverse"):
        ys.reverse()

    def stack(zs):
        if all(z is None for z in zs):
            return None
        if isinstance(zs[0], (tuple, list)):
            return tuple(stack([z[j] for z in zs]) for j in range(len(zs[0])))
        d, dt, _ = from_nested(zs)
        return Arr(d, dt, "jnp")
    return (c, stack(ys) if ys else None)


@ext("jax.lax.map")
def _lmap(I, a, k, lib):
    r = [I.call(a[0], [x], {}) for x in I.iterate(a[1])]
    d, dt, _ = from_nested(r)
    return Arr(d, dt, "jnp")


@ext("jax.lax.iota", "jax.lax.broadcasted_iota")
def _iota(I, a, k, lib):
    return Arr(oarr(list(range(int_(I, a[1])))), to_dt(a[0]) or F64, "jnp")


@ext("jax.lax.dynamic_slice")
def _dyn(I, a, k, lib):
    st, sz = shape_arg(I, a[1]), shape_arg(I, a[2])
    return Arr(a[0].a[tuple(slice(s, s + n) for s, n in zip(st, sz))], a[0].dt, "jnp")


@ext("jax.lax.dynamic_update_slice")
def _dynu(I, a, k, lib):
    st = shape_arg(I, a[2])
    r = a[0].a.copy()
    r[tuple(slice(s, s + n) for s, n in zip(st, a[1].a.shape))] = a[1].a
    return Arr(r, a[0].dt, "jnp")


@ext("jax.vmap", "equinox.filter_vmap")
def _vmap(I, a, k, lib):
    f = a[0]
    in_axes = getarg(a, k, 1, "in_axes", 0)
    out_axes = getarg(a, k, 2, "out_axes", 0)

    def run(i, args, kw):
        ax = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
        n = None
        for x, q in zip(args, ax):
            if q is not None:
                n = x.a.shape[q]
        outs = []
        for j in range(n):
            xs = []
            for x, q in zip(args, ax):
                xs.append(x if q is None else wrap(np.take(x.a, j, axis=q), x.dt, x.lib))
            outs.append(I.call(f, xs, kw))

        def stack(zs, oax):
            if isinstance(zs[0], tuple):
                return tuple(stack([z[j] for z in zs], oax[j] if isinstance(oax, tuple) else oax) for j in range(len(zs[0])))
            d, dt, _ = from_nested(zs)
            return Arr(np.moveaxis(d, 0, oax), dt, "jnp")
        return stack(outs, out_axes)
    return HostFn("vmap", run)


class Tangents:
    """Forward-mode differentiation of value numbers."""

    def __init__(self, I, f, primals):
        self.I, self.primals = I, primals
        n = getattr(I, "_ad", 0)
        I._ad = n + 1
        self.syms, self.subst = [], {}
        fresh = []
        for pi, p in enumerate(primals):
            oa, dt, lb = as_obj(p)
            ss = np.empty(oa.shape, dtype=object)
            for ci, (ix, v) in enumerate(np.ndenumerate(oa)):
                s = terms.sym("_ad%d_%d_%d" % (n, pi, ci))
                self.subst[s] = v
                ss[ix] = s
            self.syms.append(ss)
            fresh.append(wrap(ss, dt if dt.kind in "fc" else F64, lb or "jnp"))
        self.out = I.call(f, fresh, {})
        self.memo_s = {}

    def back(self, x):
        return mapval(lambda t: terms.substitute(t, self.subst, self.memo_s) if isinstance(t, T) else t, x)

    def primal_out(self):
        return self.back(self.out)

    def push(self, tangents):
        seed = {}
        for ss, tg in zip(self.syms, tangents):
            ot = as_obj(tg)[0]
            if ot.shape != ss.shape:
                raise self.I.err("TypeError", "tangent shape %s differs from primal shape %s" % (ot.shape, ss.shape))
            for ix, s in np.ndenumerate(ss):
                seed[s] = ot[ix]
        memo = {}
        d = mapval(lambda t: terms.diff(t, seed, memo), self.out)
        return self.back(d)


def mapval(f, v):
    if isinstance(v, Arr):
        return Arr(np.asarray(np.frompyfunc(f, 1, 1)(v.a), dtype=object).reshape(v.a.shape), v.dt, v.lib)
    if is_scalar(v):
        return f(v)
    if isinstance(v, (tuple, list)):
        return type(v)(mapval(f, x) for x in v)
    if isinstance(v, dict):
        return {k: mapval(f, x) for k, x in v.items()}
    raise Unsupported("map over %r" % (v,))


@ext("jax.linearize")
def _linearize(I, a, k, lib):
    t = Tangents(I, a[0], a[1:])
    return (t.primal_out(), HostFn("f_jvp", lambda i, x, kk: t.push(x)))


@ext("jax.jvp")
def _jvp(I, a, k, lib):
    prim, tang = I.iterate(getarg(a, k, 1, "primals")), I.iterate(getarg(a, k, 2, "tangents"))
    t = Tangents(I, a[0], prim)
    return (t.primal_out(), t.push(tang))


def _jac(I, f, argnums, args, kw):
    g = f
    if kw or len(args) > 1 or argnums != 0:
        def g_(i, x, kk):
            b = list(args)
            b[argnums] = x[0]
            return I.call(f, b, kw)
        g = HostFn("g", g_)
    x = args[argnums]
    t = Tangents(I, g, [x])
    oa, dt, _ = as_obj(x)
    cols = []
    for ix in np.ndindex(oa.shape):
        e = np.empty(oa.shape, dtype=object)
        e[...] = 0
        e[ix] = 1
        cols.append(t.push([wrap(e, F64, "jnp")]))
    return t, oa, cols


@ext("jax.jacfwd", "jax.jacrev", "jax.jacobian", "jax.grad", "jax.value_and_grad")
def _jacf(I, a, k, lib):
    f = a[0]
    argnums = getarg(a, k, 1, "argnums", 0)

    def run(i, args, kw):
        t, oa, cols = _jac(I, f, argnums, list(args), kw)
        d, dt, _ = from_nested(cols) if oa.ndim else (as_obj(cols[0]))
        if oa.ndim:
            d = d.reshape(oa.shape + d.shape[1:])
            for _ in range(oa.ndim):
                d = np.moveaxis(d, 0, -1)
        return wrap(d, dt, "jnp")
    return HostFn("jac", run)


@ext("jax.grad_", "jax.vjp_")
def _nograd(I, a, k, lib):
    raise I.unsupported("reverse mode")


@ext("jax.random.key", "jax.random.PRNGKey", "xp.random.default_rng")
def _key(I, a, k, lib):
    return ("prngkey", a[0] if a else 0)


@ext("jax.random.split")
def _split(I, a, k, lib):
    return [(a[0], i) for i in range(int_(I, getarg(a, k, 1, "num", 2)))]


@ext("jax.random.uniform", "jax.random.normal")
def _uniform(I, a, k, lib):
    sh = shape_arg(I, getarg(a, k, 1, "shape", ()))
    n = int(np.prod(sh)) if sh else 1
    xs = [terms.sym("rand_%s_%d" % (abs(hash(str(a[0]))) % 9973 if False else str(a[0]), i), range=(0.05, 0.95)) for i in range(n)]
    return wrap(oarr(xs, sh), F64, "jnp")


# ---- array constructors

def dt_of_arg(a, k, i, default=F64):
    v = getarg(a, k, i, "dtype", None)
    return to_dt(v) if v is not None else default


def full(sh, v, dt, lib):
    a = np.empty(sh, dtype=object)
    a[...] = v
    return wrap(a, dt, lib)


@ext("xp.zeros")
def _zeros(I, a, k, lib):
    return full(shape_arg(I, getarg(a, k, 0, "shape")), 0, dt_of_arg(a, k, 1), lib)


@ext("xp.ones")
def _ones(I, a, k, lib):
    return full(shape_arg(I, getarg(a, k, 0, "shape")), 1, dt_of_arg(a, k, 1), lib)


@ext("xp.empty")
def _empty(I, a, k, lib):
    return full(shape_arg(I, getarg(a, k, 0, "shape")), 0 if lib == "jnp" else terms.sym("uninitialised"), dt_of_arg(a, k, 1), lib)


@ext("xp.full")
def _full(I, a, k, lib):
    v = getarg(a, k, 1, "fill_value")
    return full(shape_arg(I, getarg(a, k, 0, "shape")), v, dt_of_arg(a, k, 2, scalar_dtype(v)), lib)


@ext("xp.zeros_like")
def _zl(I, a, k, lib):
    o, dt, l = as_obj(a[0])
    return full(o.shape, 0, dt_of_arg(a, k, 1, dt), lib)


@ext("xp.ones_like")
def _ol(I, a, k, lib):
    o, dt, l = as_obj(a[0])
    return full(o.shape, 1, dt_of_arg(a, k, 1, dt), lib)


@ext("xp.full_like")
def _fl(I, a, k, lib):
    o, dt, l = as_obj(a[0])
    return full(o.shape, a[1], dt_of_arg(a, k, 2, dt), lib)


@ext("xp.eye", "xp.identity")
def _eye(I, a, k, lib):
    n = int_(I, a[0])
    m = getarg(a, k, 1, "M", None)
    m = n if m is None or not isinstance(m, int) else int_(I, m)
    kk = int_(I, getarg(a, k, 2, "k", 0))
    r = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            r[i, j] = 1 if j - i == kk else 0
    return Arr(r, to_dt(k["dtype"]) if "dtype" in k else F64, lib)


@ext("xp.array")
def _np_array(I, a, k, lib):
    if "copy" not in k:
        k = {**k, "copy": True}
    return _asarray(I, a, k, lib)


@ext("xp.asarray", "xp.ascontiguousarray", "xp.asanyarray", "xp.atleast_1d")
def _asarray(I, a, k, lib):
    v = a[0]
    o, dt, l = as_obj(v)
    d = dt_of_arg(a, k, 1, None)
    if d is not None:
        o = cast(o, d)
        dt = d
    if isinstance(v, Arr) and v.lib == lib and (d is None or d == v.dt) and not k.get("copy") and lib == "np":
        return v  # np.asarray does not copy
    if o.ndim == 0:
        return o.item()
    r = Arr(o if lib == "jnp" else o.copy(), dt, lib)
    return r


EXT["xp.copy"] = lambda I, a, k, lib: Arr(as_obj(a[0])[0].copy(), as_obj(a[0])[1], lib)


@ext("xp.arange")
def _arange(I, a, k, lib):
    vals = [I.concretize(x) if isinstance(x, T) else x for x in a]
    if all(isinstance(x, int) for x in vals):
        xs = list(range(*vals))
        return Arr(oarr(xs, (len(xs),)), dt_of_arg([], k, 9, I64), lib)
    lo, hi, st = (0, vals[0], 1) if len(vals) == 1 else (vals[0], vals[1], vals[2] if len(vals) > 2 else 1)
    xs, x = [], lo
    while (x < hi) if st > 0 else (x > hi):
        xs.append(x)
        x = x + st
    return Arr(oarr(xs, (len(xs),)), F64, lib)


@ext("xp.linspace")
def _linspace(I, a, k, lib):
    lo, hi = a[0], a[1]
    n = int_(I, getarg(a, k, 2, "num", 50))
    endp = k.get("endpoint", True)
    den = (n - 1) if endp else n
    xs = []
    for i in range(n):
        f = Fraction(i, den) if den else Fraction(0)
        xs.append(terms.add(terms.mul(lo, 1 - f), terms.mul(hi, f)))
    return Arr(oarr(xs, (n,)), F64, lib)


@ext("xp.meshgrid")
def _mesh(I, a, k, lib):
    xs = [as_obj(x)[0] for x in a]
    r = np.meshgrid(*xs, indexing=k.get("indexing", "xy"))
    return [Arr(x, F64, lib) for x in r]


@ext("xp.diag")
def _diag(I, a, k, lib):
    o, dt, l = as_obj(a[0])
    kk = int_(I, getarg(a, k, 1, "k", 0))
    if o.ndim == 1:
        n = o.shape[0] + abs(kk)
        r = np.empty((n, n), dtype=object)
        r[...] = 0
        for i in range(o.shape[0]):
            r[i + max(-kk, 0), i + max(kk, 0)] = o[i]
        return Arr(r, dt, lib)
    return Arr(np.diagonal(o, kk).copy(), dt, lib)


@ext("xp.diagonal")
def _diagonal(I, a, k, lib):
    off, a1, a2 = (int_(I, getarg(a, k, i + 1, nm, d)) for i, (nm, d) in enumerate((("offset", 0), ("axis1", 0), ("axis2", 1))))
    return Arr(np.diagonal(a[0].a, off, a1, a2).copy(), a[0].dt, lib)


@ext("xp.fill_diagonal")
def _filldiag(I, a, k, lib):
    A = a[0]
    v = as_obj(a[1])[0]
    if lib == "jnp":
        if k.get("inplace", True):
            raise I.err("ValueError", "jnp.fill_diagonal requires inplace=False")
        r = A.a.copy()
        for i in range(min(r.shape)):
            r[i, i] = v.item() if v.ndim == 0 else v[i % v.shape[0]]
        return Arr(r, A.dt, "jnp")
    I.note_write(A)
    for i in range(min(A.a.shape)):
        x = v.item() if v.ndim == 0 else v[i % v.shape[0]]
        store(I, A, (i, i), x)


@ext("xp.triu", "xp.tril")
def _triu_placeholder(I, a, k, lib):
    raise I.unsupported("triu")


def _tri(keep):
    def f(I, a, k, lib):
        o, dt, l = as_obj(a[0])
        kk = int_(I, getarg(a, k, 1, "k", 0))
        r = o.copy()
        for i in range(r.shape[0]):
            for j in range(r.shape[1]):
                if not keep(i, j, kk):
                    r[i, j] = 0
        return Arr(r, dt, lib)
    return f


EXT["xp.triu"] = _tri(lambda i, j, k: j - i >= k)
EXT["xp.tril"] = _tri(lambda i, j, k: j - i <= k)


def seq_arrays(I, v):
    if isinstance(v, Arr):
        return [wrap(v.a[i], v.dt, v.lib) for i in range(v.a.shape[0])]
    return list(I.iterate(v))


def _cat(I, parts, axis, lib):
    objs = [as_obj(p) for p in parts]
    try:
        r = np.concatenate([o[0] for o in objs], axis=axis)
    except ValueError as e:
        raise I.err("ValueError", str(e))
    return Arr(r, promote(*[o[1] for o in objs]), lib)


@ext("xp.concatenate", "xp.concat")
def _concat(I, a, k, lib):
    ax = getarg(a, k, 1, "axis", 0)
    parts = seq_arrays(I, a[0])
    for p in parts:
        if is_scalar(p):
            raise I.err("ValueError", "zero-dimensional arrays cannot be concatenated")
    return _cat(I, parts, ax, lib)


@ext("xp.append")
def _append(I, a, k, lib):
    ax = getarg(a, k, 2, "axis", None)
    x, y = as_obj(a[0]), as_obj(a[1])
    if ax is None:
        return Arr(np.concatenate([x[0].reshape(-1), y[0].reshape(-1)]), promote(x[1], y[1]), lib)
    return _cat(I, a[:2], ax, lib)


@ext("xp.vstack")
def _vstack(I, a, k, lib):
    objs = [as_obj(p) for p in seq_arrays(I, a[0])]
    try:
        return Arr(np.vstack([np.atleast_1d(o[0]) for o in objs]), promote(*[o[1] for o in objs]), lib)
    except ValueError as e:
        raise I.err("ValueError", str(e))


@ext("xp.hstack")
def _hstack(I, a, k, lib):
    objs = [as_obj(p) for p in seq_arrays(I, a[0])]
    try:
        return Arr(np.hstack([np.atleast_1d(o[0]) for o in objs]), promote(*[o[1] for o in objs]), lib)
    except ValueError as e:
        raise I.err("ValueError", str(e))


@ext("xp.column_stack")
def _colstack(I, a, k, lib):
    objs = [as_obj(p) for p in seq_arrays(I, a[0])]
    return Arr(np.column_stack([o[0] for o in objs]), promote(*[o[1] for o in objs]), lib)


@ext("xp.stack")
def _stack(I, a, k, lib):
    objs = [as_obj(p) for p in seq_arrays(I, a[0])]
    try:
        return Arr(np.stack([o[0] for o in objs], axis=getarg(a, k, 1, "axis", 0)), promote(*[o[1] for o in objs]), lib)
    except ValueError as e:
        raise I.err("ValueError", str(e))


@ext("xp.block")
def _block(I, a, k, lib):
    dts = []

    def conv(v):
        if isinstance(v, list):
            return [conv(x) for x in v]
        o, dt, _ = as_obj(v)
        dts.append(dt)
        return o

    def rec(v, depth, maxd):
        if isinstance(v, list):
            return np.concatenate([rec(x, depth + 1, maxd) for x in v], axis=-(maxd - depth))
        nd = max(maxd, 1)
        return v.reshape((1,) * (max(2, nd) - v.ndim) + v.shape) if v.ndim < max(2, nd) and maxd > 1 else np.atleast_1d(v)

    def dep(v):
        return 1 + max(dep(x) for x in v) if isinstance(v, list) else 0
    c = conv(a[0])
    try:
        r = rec(c, 0, dep(c))
    except ValueError as e:
        raise I.err("ValueError", str(e))
    return Arr(r, promote(*dts), lib)


@ext("xp.kron")
def _kron(I, a, k, lib):
    x, y = as_obj(a[0]), as_obj(a[1])
    A, B = np.atleast_2d(x[0]), np.atleast_2d(y[0])
    r = np.empty((A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(A.shape[1]):
            for p in range(B.shape[0]):
                for q in range(B.shape[1]):
                    r[i * B.shape[0] + p, j * B.shape[1] + q] = BIN["Mult"](A[i, j], B[p, q])
    if x[0].ndim == 1 and y[0].ndim == 1:
        r = r[0]
    return Arr(r, promote(x[1], y[1]), lib)


@ext("xp.tile")
def _tile(I, a, k, lib):
    o, dt, _ = as_obj(a[0])
    r = a[1]
    r = tuple(int_(I, x) for x in r) if isinstance(r, (tuple, list)) else int_(I, r)
    return Arr(np.tile(o, r), dt, lib)


@ext("xp.repeat")
def _repeat(I, a, k, lib):
    o, dt, _ = as_obj(a[0])
    return Arr(np.repeat(o, int_(I, a[1]), axis=getarg(a, k, 2, "axis", None)), dt, lib)


@ext("xp.reshape")
def _reshape(I, a, k, lib):
    o, dt, l = as_obj(a[0])
    return reshape(I, Arr(o, dt, lib), getarg(a, k, 1, "shape", k.get("newshape")), k.get("order", "C"))


@ext("xp.ravel")
def _ravel(I, a, k, lib):
    o, dt, l = as_obj(a[0])
    return Arr(o.ravel(order=k.get("order", "C")), dt, lib)


@ext("xp.squeeze")
def _squeeze(I, a, k, lib):
    o, dt, l = as_obj(a[0])
    return wrap(o.squeeze(), dt, lib)


@ext("xp.expand_dims")
def _expd(I, a, k, lib):
    o, dt, l = as_obj(a[0])
    return Arr(np.expand_dims(o, getarg(a, k, 1, "axis")), dt, lib)


@ext("xp.swapaxes")
def _swap(I, a, k, lib):
    return Arr(np.swapaxes(a[0].a, a[1], a[2]), a[0].dt, lib)


@ext("xp.moveaxis")
def _movea(I, a, k, lib):
    return Arr(np.moveaxis(a[0].a, a[1], a[2]), a[0].dt, lib)


@ext("xp.transpose")
def _transp(I, a, k, lib):
    o, dt, l = as_obj(a[0])
    ax = getarg(a, k, 1, "axes", None)
    return wrap(o.transpose(ax) if ax else o.transpose(), dt, lib)


@ext("xp.flip", "xp.flipud")
def _flip(I, a, k, lib):
    o, dt, l = as_obj(a[0])
    return Arr(np.flip(o, getarg(a, k, 1, "axis", None)), dt, lib)


@ext("xp.fliplr")
def _fliplr(I, a, k, lib):
    o, dt, l = as_obj(a[0])
    return Arr(np.fliplr(o), dt, lib)


@ext("xp.roll")
def _roll(I, a, k, lib):
    o, dt, l = as_obj(a[0])
    return Arr(np.roll(o, int_(I, a[1]), axis=getarg(a, k, 2, "axis", None)), dt, lib)


@ext("xp.broadcast_to")
def _bto(I, a, k, lib):
    o, dt, l = as_obj(a[0])
    return Arr(np.broadcast_to(o, shape_arg(I, a[1])).copy(), dt, lib)


@ext("xp.delete")
def _delete(I, a, k, lib):
    o, dt, l = as_obj(a[0])
    return Arr(np.delete(o, norm_index(I, a[1]), getarg(a, k, 2, "axis", None)), dt, lib)


@ext("xp.take")
def _take(I, a, k, lib):
    o, dt, l = as_obj(a[0])
    return wrap(np.take(o, norm_index(I, a[1]), axis=getarg(a, k, 2, "axis", None)), dt, lib)


@ext("xp.where")
def _where(I, a, k, lib):
    if len(a) < 3:
        o = as_obj(a[0])[0]
        idx = [i for i in range(o.shape[0]) if I.truth(o[i])] if o.ndim == 1 else None
        if idx is None:
            raise I.unsupported("where(cond) with ndim>1")
        return (Arr(oarr(idx, (len(idx),)), I64, lib),)
    c, x, y = as_obj(a[0])[0], as_obj(a[1])[0], as_obj(a[2])[0]
    f = np.frompyfunc(lambda p, q, r: terms.ite(terms.truthy(p), q, r), 3, 1)
    r = f(c, x, y)
    return wrap(r if isinstance(r, np.ndarray) else np.asarray(r, dtype=object), result_dt(a[1], a[2]), lib)


def _mk_un(name, f, dt=None):
    def g(I, a, k, lib):
        v = a[0]
        d = dt
        if d is None:
            d = v.dt if isinstance(v, Arr) and v.dt.kind in "fc" else F64
        return tolib(elementwise1(I, sfun(f), v, d), lib)
    EXT["xp." + name] = g
    EXT["math." + name] = g
    EXT["jax.lax." + name] = g


def f_exp(x):
    return terms.exp(x)


for _n, _f in (("exp", terms.exp), ("log", terms.log), ("sqrt", terms.sqrt),
               ("sin", lambda x: terms.fn1("sin", x)), ("cos", lambda x: terms.fn1("cos", x)),
               ("tan", lambda x: terms.fn1("tan", x)), ("tanh", lambda x: terms.fn1("tanh", x)),
               ("sinh", lambda x: terms.fn1("sinh", x)), ("cosh", lambda x: terms.fn1("cosh", x)),
               ("arctan", lambda x: terms.fn1("arctan", x)), ("arcsin", lambda x: terms.fn1("arcsin", x)),
               ("arccos", lambda x: terms.fn1("arccos", x)), ("expm1", lambda x: terms.sub(terms.exp(x), 1)),
               ("log1p", lambda x: terms.log(terms.add(1, x))),
               ("log2", lambda x: terms.div(terms.log(x), terms.log(2)) if not isinstance(x, NUMT) or x > 0 else -math.inf),
               ("log10", lambda x: terms.div(terms.log(x), terms.log(10))),
               ("square", lambda x: terms.mul(x, x)), ("reciprocal", lambda x: safediv(1, x)),
               ("negative", lambda x: terms.mul(-1, x)),
               ("conj", terms.conj), ("conjugate", terms.conj),
               ("floor", lambda x: x if isinstance(x, float) else terms.floor(x)),
               ("ceil", lambda x: x if isinstance(x, float) else terms.ceil(x))):
    _mk_un(_n, _f)
_mk_un("real", lambda x: terms.real(x) if isinstance(x, T) else x, F64)
_mk_un("imag", lambda x: terms.imag(x) if isinstance(x, T) else 0, F64)
_mk_un("logical_not", terms.lnot, BOOL)
_mk_un("isnan", lambda x: False, BOOL)
_mk_un("isfinite", lambda x: True, BOOL)
EXT["xp.isnan"] = lambda I, a, k, lib: elementwise1(I, lambda x: isinstance(x, float) and math.isnan(x), a[0], BOOL)
EXT["xp.isfinite"] = lambda I, a, k, lib: elementwise1(I, lambda x: not isinstance(x, float), a[0], BOOL)
EXT["xp.isinf"] = lambda I, a, k, lib: elementwise1(I, lambda x: isinstance(x, float) and math.isinf(x), a[0], BOOL)
EXT["math.isnan"], EXT["math.isfinite"], EXT["math.isinf"] = EXT["xp.isnan"], EXT["xp.isfinite"], EXT["xp.isinf"]


def sign_(x):
    if isinstance(x, T):
        return terms.ite(terms.lt(x, 0), -1, terms.ite(terms.lt(0, x), 1, 0))
    return (x > 0) - (x < 0)


_mk_un("sign", sign_)
EXT["cmath.exp"] = EXT["xp.exp"]


def _mk_bin(name, op):
    def g(I, a, k, lib):
        if callable(op):
            r = broadcast2(op, a[0], a[1])
            return wrap(r if isinstance(r, np.ndarray) else np.asarray(r, dtype=object), result_dt(a[0], a[1]), lib)
        if op == "MatMult":
            return tolib(matmul(I, a[0], a[1]), lib)
        x, y = a[0], a[1]
        if isinstance(x, (list, tuple)):
            x = Arr(as_obj(x)[0], as_obj(x)[1], lib)
        if isinstance(y, (list, tuple)):
            y = Arr(as_obj(y)[0], as_obj(y)[1], lib)
        return tolib(binop(I, op, x, y), lib)
    EXT["xp." + name] = g
    EXT["jax.lax." + name] = g
    EXT["math." + name] = g


for _n, _o in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"),
               ("power", "Pow"), ("pow", "Pow"), ("float_power", "Pow"), ("mod", "Mod"), ("remainder", "Mod"), ("matmul", "MatMult"),
               ("maximum", terms.vmax), ("minimum", terms.vmin), ("fmax", terms.vmax), ("fmin", terms.vmin),
               ("logical_and", terms.land), ("logical_or", terms.lor),
               ("bitwise_and", bitand), ("bitwise_or", bitor), ("floor_divide", "FloorDiv"),
               ("hypot", lambda x, y: terms.sqrt(terms.add(terms.mul(x, x), terms.mul(y, y)))),
               ("less", terms.lt), ("less_equal", terms.le), ("greater", terms.gt), ("greater_equal", terms.ge),
               ("equal", terms.eq)):
    _mk_bin(_n, _o)
EXT["jax.lax.max"], EXT["jax.lax.min"] = EXT["xp.maximum"], EXT["xp.minimum"]


@ext("xp.clip")
def _clip(I, a, k, lib):
    lo = getarg(a, k, 1, "min", k.get("a_min"))
    hi = getarg(a, k, 2, "max", k.get("a_max"))
    v = a[0]
    if lo is not None:
        v = EXT["xp.maximum"](I, [v, lo], {}, lib)
    if hi is not None:
        v = EXT["xp.minimum"](I, [v, hi], {}, lib)
    return v


def reduce_(I, a, k, lib, f, init, dt=None, div_n=False):
    o, d, _ = as_obj(a[0])
    ax = getarg(a, k, 1, "axis", None)
    d = dt or d

    def red(xs):
        xs = list(xs)
        if init is None:
            if not xs:
                raise I.err("ValueError", "reduction of an empty array")
            r = xs[0]
            xs = xs[1:]
        else:
            r = init
        for x in xs:
            r = f(r, x)
        return r
    if ax is None:
        r = red(o.reshape(-1))
        if k.get("keepdims"):
            return full((1,) * o.ndim, r, d, lib)
        return r
    axs = sorted(x % o.ndim for x in (ax if isinstance(ax, (tuple, list)) else (ax,)))
    rest = [i for i in range(o.ndim) if i not in axs]
    t = o.transpose(rest + axs)
    sh = tuple(o.shape[i] for i in rest)
    r = np.empty(sh, dtype=object)
    for ix in np.ndindex(sh):
        r[ix] = red(t[ix].reshape(-1))
    if k.get("keepdims"):
        r = r.reshape(tuple(1 if i in axs else o.shape[i] for i in range(o.ndim)))
    return wrap(r, d, lib)


@ext("xp.sum", "math.fsum")
def _sum(I, a, k, lib):
    return reduce_(I, a, k, lib, BIN["Add"], 0)


@ext("xp.prod", "math.prod")
def _prod(I, a, k, lib):
    return reduce_(I, a, k, lib, BIN["Mult"], 1)


@ext("xp.mean", "xp.average")
def _mean(I, a, k, lib):
    o, d, _ = as_obj(a[0])
    ax = getarg(a, k, 1, "axis", None)
    n = o.size if ax is None else int(np.prod([o.shape[x] for x in (ax if isinstance(ax, (tuple, list)) else (ax,))]))
    s = reduce_(I, a, k, lib, BIN["Add"], 0)
    return binop(I, "Div", s, Fraction(n))


@ext("xp.max", "xp.amax", "xp.nanmax")
def _amax(I, a, k, lib):
    return reduce_(I, a, k, lib, terms.vmax, None)


@ext("xp.min", "xp.amin", "xp.nanmin")
def _amin(I, a, k, lib):
    return reduce_(I, a, k, lib, terms.vmin, None)


@ext("xp.any")
def _any(I, a, k, lib):
    return reduce_(I, a, k, lib, lambda p, q: terms.lor(p, q), False, BOOL)


@ext("xp.all")
def _all(I, a, k, lib):
    return reduce_(I, a, k, lib, lambda p, q: terms.land(p, q), True, BOOL)


@ext("xp.cumsum", "xp.cumprod")
def _cums(I, a, k, lib):
    raise I.unsupported("cum")


def _mk_cum(f):
    def g(I, a, k, lib):
        o, d, _ = as_obj(a[0])
        ax = getarg(a, k, 1, "axis", None)
        if ax is None:
            o = o.reshape(-1)
            ax = 0
        o = np.moveaxis(o.copy(), ax, 0)
        for i in range(1, o.shape[0]):
            o[i] = np.frompyfunc(f, 2, 1)(o[i - 1], o[i])
        if "dtype" in k:
            d = to_dt(k["dtype"])
        return Arr(np.moveaxis(o, 0, ax), d, lib)
    return g


EXT["xp.cumsum"] = _mk_cum(BIN["Add"])
EXT["xp.cumprod"] = _mk_cum(BIN["Mult"])


@ext("xp.diff")
def _diff(I, a, k, lib):
    o, d, _ = as_obj(a[0])
    return Arr(np.frompyfunc(BIN["Sub"], 2, 1)(o[1:], o[:-1]), d, lib)


@ext("xp.dot", "xp.inner", "xp.vdot")
def _dot(I, a, k, lib):
    x, y = as_obj(a[0])[0], as_obj(a[1])[0]
    if x.ndim == 0 or y.ndim == 0:
        return binop(I, "Mult", a[0], a[1])
    return tolib(matmul(I, a[0], a[1]), lib)


def _vdot(I, a, k, lib):
    x = elementwise1(I, terms.conj, a[0])
    return matmul(I, x, a[1])


EXT["xp.vdot"] = _vdot


@ext("xp.outer")
def _outer(I, a, k, lib):
    x, y = as_obj(a[0]), as_obj(a[1])
    r = np.frompyfunc(BIN["Mult"], 2, 1)(x[0].reshape(-1)[:, None], y[0].reshape(-1)[None, :])
    return Arr(r, promote(x[1], y[1]), lib)


@ext("xp.einsum")
def _einsum(I, a, k, lib):
    spec = a[0].replace(" ", "")
    ins, out = spec.split("->") if "->" in spec else (spec, None)
    ins = ins.split(",")
    ops = [as_obj(x) for x in a[1:]]
    if out is None:
        cnt = {}
        for s in ins:
            for c in s:
                cnt[c] = cnt.get(c, 0) + 1
        out = "".join(sorted(c for c in cnt if cnt[c] == 1))
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o[0].shape):
            dims[c] = n
    summed = [c for c in dims if c not in out]
    r = np.empty(tuple(dims[c] for c in out), dtype=object)
    for ix in np.ndindex(r.shape):
        env = dict(zip(out, ix))
        s = 0
        for jx in np.ndindex(tuple(dims[c] for c in summed)):
            env.update(zip(summed, jx))
            p = 1
            for q, o in zip(ins, ops):
                p = BIN["Mult"](p, o[0][tuple(env[c] for c in q)])
            s = BIN["Add"](s, p)
        r[ix] = s
    return wrap(r, promote(*[o[1] for o in ops]), lib)


@ext("xp.trace")
def _trace(I, a, k, lib):
    s = 0
    for x in np.diagonal(a[0].a):
        s = BIN["Add"](s, x)
    return s


def abs2(x):
    if isinstance(x, T) and not x.real:
        return terms.add(terms.power(terms.real(x), 2), terms.power(terms.imag(x), 2))
    return terms.mul(x, x)


@ext("xp.linalg.norm", "scipy.linalg.norm")
def _norm(I, a, k, lib):
    o, d, _ = as_obj(a[0])
    ordv = getarg(a, k, 1, "ord", None)
    ax = getarg(a, k, 2, "axis", None)
    if isinstance(ordv, Fraction) and ordv.denominator == 1:
        ordv = int(ordv)
    if isinstance(ordv, ExtVal) and ordv.name.endswith("inf"):
        ordv = math.inf
    if ax is not None:
        if o.ndim != 2:
            raise I.unsupported("norm axis")
        t = o if ax in (1, -1) else o.T
        return Arr(oarr([vnorm(I, r, ordv) for r in t]), F64, lib)
    if o.ndim == 2 and ordv is not None and ordv != "fro":
        A = np.frompyfunc(terms.absv, 1, 1)(o)
        if ordv in (math.inf, -math.inf):
            sums = [reduce_sum(r) for r in A]
        elif ordv in (1, -1):
            sums = [reduce_sum(r) for r in A.T]
        else:
            raise I.unsupported("matrix norm %s" % ordv)
        r = sums[0]
        for s in sums[1:]:
            r = (terms.vmax if ordv > 0 else terms.vmin)(r, s)
        return r
    return vnorm(I, o.reshape(-1), None if ordv == "fro" else ordv)


def reduce_sum(xs):
    s = 0
    for x in xs:
        s = BIN["Add"](s, x)
    return s


def vnorm(I, xs, ordv):
    if ordv is None or ordv == 2:
        return terms.sqrt(reduce_sum([abs2(x) for x in xs]))
    if ordv == 1:
        return reduce_sum([terms.absv(x) for x in xs])
    if ordv in (math.inf, -math.inf):
        r = 0
        for i, x in enumerate(xs):
            y = terms.absv(x)
            r = y if i == 0 else (terms.vmax if ordv > 0 else terms.vmin)(r, y)
        return r
    raise I.unsupported("norm order %s" % (ordv,))


# ---- dense linear algebra

def matf(I, op, extra, o, dt):
    n = o.shape[0]
    if o.ndim != 2 or o.shape[0] != o.shape[1]:
        raise I.err("ValueError", "square matrix expected, got %s" % (o.shape,))
    ents = []
    allz = True
    for x in o.reshape(-1):
        if isinstance(x, float):
            if terms.IEEE[0] and x != x:
                r = np.empty((n, n), dtype=object)
                r[...] = math.nan
                return r
            raise I.unsupported("matrix function of inf/nan")
        if isinstance(x, T) or x != 0:
            allz = False
        ents.append(x)
    if allz and op in ("expm", "phi"):
        c = Fraction(1, math.factorial(extra if op == "phi" else 0))
        r = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                r[i, j] = c if i == j else 0
        return r
    if op == "expm":
        op, extra = "phi", 0
    m = terms.matnode(op, extra, ents, n, n, real=all(terms.is_real(x) for x in ents))
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            r[i, j] = terms.node("entry", (m, i, j), real=m.real)
    return r


@ext("scipy.linalg.expm")
def _expm(I, a, k, lib):
    o, d, _ = as_obj(a[0])
    return Arr(matf(I, "expm", None, o, d), d if d.kind in "fc" else F64, lib)


def inverse(I, o):
    """Exact inverse by cofactors for n<=3, else opaque."""
    n = o.shape[0]
    if n == 1:
        r = np.empty((1, 1), dtype=object)
        r[0, 0] = safediv(1, o[0, 0])
        return r
    if all(not isinstance(x, T) for x in o.reshape(-1)):
        return rational_inverse(I, o)
    if is_tri(o):
        return tri_inverse(I, o)
    if n == 2:
        (p, q), (s, t) = o
        det = BIN["Sub"](BIN["Mult"](p, t), BIN["Mult"](q, s))
        r = np.empty((2, 2), dtype=object)
        r[0, 0], r[0, 1] = safediv(t, det), safediv(terms.mul(-1, q), det)
        r[1, 0], r[1, 1] = safediv(terms.mul(-1, s), det), safediv(p, det)
        return r
    return matf(I, "inv", None, o, F64)


def is_tri(o):
    n = o.shape[0]
    z = lambda x: not isinstance(x, T) and x == 0
    return all(z(o[i, j]) for i in range(n) for j in range(i)) or all(z(o[i, j]) for i in range(n) for j in range(i + 1, n))


def tri_inverse(I, o):
    n = o.shape[0]
    z = lambda x: not isinstance(x, T) and x == 0
    lower = all(z(o[i, j]) for i in range(n) for j in range(i + 1, n))
    r = np.empty((n, n), dtype=object)
    for c in range(n):
        e = [1 if i == c else 0 for i in range(n)]
        x = tri_solve(o, e, lower)
        for i in range(n):
            r[i, c] = x[i]
    return r


def tri_solve(o, b, lower):
    n = len(b)
    x = [0] * n
    rng = range(n) if lower else range(n - 1, -1, -1)
    for i in rng:
        s = b[i]
        js = range(i) if lower else range(i + 1, n)
        for j in js:
            s = BIN["Sub"](s, BIN["Mult"](o[i, j], x[j]))
        x[i] = safediv(s, o[i, i])
    return x


def rational_inverse(I, o):
    n = o.shape[0]
    M = [[Fraction(o[i, j]) for j in range(n)] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            raise I.err("LinAlgError", "singular matrix")
        M[c], M[p] = M[p], M[c]
        pv = M[c][c]
        M[c] = [x / pv for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return oarr([M[i][n + j] for i in range(n) for j in range(n)], (n, n))


@ext("xp.linalg.inv", "scipy.linalg.inv")
def _inv(I, a, k, lib):
    o, d, _ = as_obj(a[0])
    return Arr(inverse(I, o), d if d.kind in "fc" else F64, lib)


@ext("xp.linalg.solve", "scipy.linalg.solve")
def _solve(I, a, k, lib):
    o, d, _ = as_obj(a[0])
    b, db, _ = as_obj(a[1])
    if o.shape[0] != b.shape[0]:
        raise I.err("ValueError", "solve: shapes %s %s" % (o.shape, b.shape))
    return Arr(mm(inverse(I, o), b), promote(d, db), lib)


@ext("scipy.linalg.solve_triangular")
def _solvetri(I, a, k, lib):
    o, d, _ = as_obj(a[0])
    b, db, _ = as_obj(a[1])
    lower = bool(getarg(a, k, 3, "lower", False))
    tr = getarg(a, k, 2, "trans", 0)
    if tr in (1, "T"):
        o, lower = o.T, not lower
    n = o.shape[0]
    t = o.copy()
    for i in range(n):
        for j in range(n):
            if (j > i) if lower else (j < i):
                t[i, j] = 0
    if k.get("unit_diagonal"):
        for i in range(n):
            t[i, i] = 1
    B = b.reshape(n, -1)
    r = np.empty(B.shape, dtype=object)
    for c in range(B.shape[1]):
        x = tri_solve(t, list(B[:, c]), lower)
        for i in range(n):
            r[i, c] = x[i]
    return Arr(r.reshape(b.shape), promote(d, db), lib)


@ext("xp.linalg.qr", "scipy.linalg.qr")
def _qr(I, a, k, lib):
    """QR by Gram-Schmidt (unique up to signs for nonsingular input)."""
    o, d, _ = as_obj(a[0])
    n = o.shape[0]
    if o.shape[0] != o.shape[1]:
        raise I.unsupported("qr of a rectangular matrix")
    Q = np.empty((n, n), dtype=object)
    R = np.empty((n, n), dtype=object)
    R[...] = 0
    for j in range(n):
        v = list(o[:, j])
        for i in range(j):
            h = dot1(Q[:, i], o[:, j])
            R[i, j] = h
            v = [BIN["Sub"](x, BIN["Mult"](h, q)) for x, q in zip(v, Q[:, i])]
        nn = vnorm(I, v, 2)
        R[j, j] = nn
        for i in range(n):
            Q[i, j] = safediv(v[i], nn)
    return (Arr(Q, d, lib), Arr(R, d, lib))


@ext("math.factorial")
def _factorial(I, a, k, lib):
    x = I.concretize(a[0].a.reshape(-1)[0] if isinstance(a[0], Arr) else a[0])
    if isinstance(x, Fraction) and x.denominator == 1:
        x = int(x)
    if not isinstance(x, int):
        raise I.unsupported("factorial of a symbolic value")
    if x < 0:
        raise I.err("ValueError", "factorial() not defined for negative values")
    return math.factorial(x)


def _fact_neg(I, a, k, lib):
    # jax.scipy.special.factorial(n) = gamma(n+1) is 0-valued convention: scipy returns 0 for n<0
    def f(x):
        if isinstance(x, Fraction) and x.denominator == 1:
            x = int(x)
        if isinstance(x, int):
            if x >= 0:
                return Fraction(math.factorial(x))
            return 0 if lib == "np" else math.inf
        raise I.unsupported("factorial of a symbolic value")
    r = elementwise1(I, f, a[0], F64)
    if isinstance(r, Arr):
        r = Arr(r.a, F64, lib)
    if not isinstance(r, Arr):
        # jax and numpy scalars divide by zero to inf/nan instead of raising
        o = np.empty((), dtype=object)
        o[()] = r
        r = Arr(o, F64, lib)
    return r


EXT["scipy.special.factorial"] = _fact_neg


@ext("scipy.special.gamma", "math.gamma")
def _gamma(I, a, k, lib):
    def f(x):
        if isinstance(x, (int, Fraction)) and x == int(x) and x > 0:
            return Fraction(math.factorial(int(x) - 1))
        raise I.unsupported("gamma")
    return elementwise1(I, f, a[0], F64)


@ext("math.comb", "scipy.special.comb", "scipy.special.binom")
def _comb(I, a, k, lib):
    return math.comb(int_(I, a[0]), int_(I, a[1]))


@ext("xp.finfo")
def _finfo(I, a, k, lib):
    return FInfo(to_dt(a[0]) if not isinstance(a[0], np.dtype) else a[0])


@ext("xp.argmax", "xp.argmin")
def _argmax_(I, a, k, lib):
    raise I.unsupported("argmax")


def _mk_arg(better):
    def g(I, a, k, lib):
        o = as_obj(a[0])[0]
        ax = getarg(a, k, 1, "axis", None)
        if ax is not None and o.ndim > 1:
            raise I.unsupported("argmax axis")
        xs = list(o.reshape(-1))
        b = 0
        for j in range(1, len(xs)):
            x, y = xs[b], xs[j]
            if isinstance(x, T) and not x.real or isinstance(y, T) and not y.real:
                # lexicographic order of complex numbers
                rx, ry = terms.real(x), terms.real(y)
                c = terms.lor(better(ry, rx), terms.land(terms.eq(rx, ry), better(terms.imag(y), terms.imag(x))))
            else:
                c = better(y, x)
            if I.truth(c):
                b = j
        return b
    return g


EXT["xp.argmax"] = _mk_arg(lambda p, q: terms.lt(q, p))
EXT["xp.argmin"] = _mk_arg(lambda p, q: terms.lt(p, q))


@ext("xp.argsort")
def _argsort(I, a, k, lib):
    o = as_obj(a[0])[0]
    xs = list(range(o.shape[0]))
    r = sorted_(I, [xs], {"key": HostFn("k", lambda i, z, kk: o[z[0]])})
    return Arr(oarr(r, (len(r),)), I64, lib)


@ext("xp.sort")
def _sort(I, a, k, lib):
    o, d, _ = as_obj(a[0])
    return Arr(oarr(sorted_(I, [list(o)], {}), o.shape), d, lib)


@ext("xp.isclose")
def _isclose(I, a, k, lib):
    rtol = k.get("rtol", Fraction(1, 10 ** 5))
    atol = k.get("atol", Fraction(1, 10 ** 8))
    f = lambda x, y: terms.le(terms.absv(terms.sub(x, y)), terms.add(atol, terms.mul(rtol, terms.absv(y))))
    r = broadcast2(f, a[0], a[1])
    return wrap(r if isinstance(r, np.ndarray) else np.asarray(r, dtype=object), BOOL, lib)


@ext("xp.allclose")
def _allclose(I, a, k, lib):
    r = _isclose(I, a, k, lib)
    return _all(I, [r], {}, lib) if isinstance(r, Arr) else r


@ext("xp.array_equal")
def _arreq(I, a, k, lib):
    x, y = as_obj(a[0])[0], as_obj(a[1])[0]
    if x.shape != y.shape:
        return False
    r = True
    for p, q in zip(x.reshape(-1), y.reshape(-1)):
        r = terms.land(r, terms.eq(p, q))
    return r


@ext("xp.interp")
def _interp(I, a, k, lib):
    xp_, fp = as_obj(a[1])[0], as_obj(a[2])[0]

    def f(x):
        n = len(xp_)
        r = fp[n - 1]
        for j in range(n - 2, -1, -1):
            s = terms.add(fp[j], terms.mul(terms.sub(x, xp_[j]), terms.div(terms.sub(fp[j + 1], fp[j]), terms.sub(xp_[j + 1], xp_[j]))))
            r = terms.ite(terms.lt(x, xp_[j + 1]), s, r)
        return terms.ite(terms.lt(x, xp_[0]), fp[0], r)
    return elementwise1(I, f, a[0], F64)


@ext("xp.float64", "xp.float_", "xp.double")
def _f64(I, a, k, lib):
    return _float(I, a, k, lib)


@ext("xp.float32", "xp.float16", "xp.half", "xp.single")
def _f32(I, a, k, lib):
    v = a[0]
    if isinstance(v, Arr):
        return Arr(cast(v.a, np.dtype("float32")), np.dtype("float32"), v.lib)
    return lossy(v, np.dtype("float32"))


@ext("xp.int64", "xp.int32")
def _i64(I, a, k, lib):
    return _int(I, a, k, lib)


@ext("xp.complex128", "xp.complex64")
def _c128(I, a, k, lib):
    return a[0]


@ext("xp.iscomplexobj")
def _iscomplexobj(I, a, k, lib):
    return (a[0].dt if isinstance(a[0], Arr) else scalar_dtype(a[0])).kind == "c"


@ext("xp.isscalar")
def _isscalar(I, a, k, lib):
    return is_scalar(a[0])


@ext("xp.shape")
def _shape(I, a, k, lib):
    return as_obj(a[0])[0].shape


@ext("xp.size")
def _size(I, a, k, lib):
    return int(as_obj(a[0])[0].size)


@ext("xp.ndim")
def _ndim(I, a, k, lib):
    return as_obj(a[0])[0].ndim


@ext("xp.asfortranarray")
def _asf(I, a, k, lib):
    return a[0]


@ext("jsp.BCOO.fromdense", "jax.experimental.sparse.BCOO.fromdense", "jax.experimental.sparse.BCSR.fromdense",
     "jax.experimental.sparse.BCOO.from_scipy_sparse", "jax.experimental.sparse.BCSR.from_scipy_sparse", "jax.experimental.sparse.BCSR.from_bcoo")
def _bcoo(I, a, k, lib):
    o, d, _ = as_obj(a[0])
    return SpArr(o, d, "jnp")


@ext("jax.experimental.sparse.BCSR.fromdense", "jax.experimental.sparse.BCSR.from_scipy_sparse", "jax.experimental.sparse.BCSR.from_bcoo")
def _bcsr(I, a, k, lib):
    o, d, _ = as_obj(a[0])
    return BcsrArr(o, d, "jnp")


@ext("numpy.polynomial.legendre.Legendre", "xp.polynomial.legendre.Legendre")
def _legendre(I, a, k, lib):
    raise I.unsupported("Legendre")


@ext("jax.tree_util.tree_map", "jax.tree.map", "jax.tree_map")
def _tmap(I, a, k, lib):
    def go(*xs):
        x = xs[0]
        if isinstance(x, (list, tuple)):
            return type(x)(go(*z) for z in zip(*xs))
        if isinstance(x, dict):
            return {q: go(*[z[q] for z in xs]) for q in x}
        if x is None:
            return None
        return I.call(a[0], list(xs), {})
    return go(*a[1:])
