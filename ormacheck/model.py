"""Valuations of value numbers: identity testing of two extracted formulas.

Two value numbers with different normal forms may still be the same function.
They are separated (or not) by evaluating the *formulas* under random
interpretations of their free symbols: opaque functions are interpreted as
smooth functions with exact derivatives, matrix functions by their definition.
A difference is reported only if it also persists at 50 digits.
"""
import cmath
import hashlib
import math
import random
from fractions import Fraction

import mpmath as mp
import numpy as np

from . import terms
from .terms import T

MP_DPS = 50


class EvalError(Exception):
    pass


class OpaqueFn:
    """a.x + sum_k b_k sin(w_k.x + p_k): smooth, with exact derivatives."""

    def __init__(self, key, n):
        h = int(hashlib.md5(repr(key).encode()).hexdigest()[:12], 16)
        r = random.Random(h)
        self.c = r.uniform(-1, 1)
        self.a = [r.uniform(-1, 1) for _ in range(n)]
        self.terms = [(r.uniform(0.3, 1.0), [r.uniform(-1, 1) for _ in range(n)], r.uniform(-3, 3)) for _ in range(2)]

    def value(self, B, x, order=()):
        n = len(order)
        s = B.num(0)
        if n == 0:
            s = B.num(self.c)
            for a, v in zip(self.a, x):
                s = s + B.num(a) * v
        elif n == 1:
            s = B.num(self.a[order[0]])
        for b, w, p in self.terms:
            arg = B.num(p)
            for wi, v in zip(w, x):
                arg = arg + B.num(wi) * v
            fac = B.num(b)
            for j in order:
                fac = fac * B.num(w[j])
            k = n % 4
            if k == 0:
                s = s + fac * B.sin(arg)
            elif k == 1:
                s = s + fac * B.cos(arg)
            elif k == 2:
                s = s - fac * B.sin(arg)
            else:
                s = s - fac * B.cos(arg)
        return s


class FloatBackend:
    name = "float"

    def num(self, x):
        if isinstance(x, Fraction):
            return float(x)
        if isinstance(x, (bool, int)):
            return float(x)
        return x

    I = 1j

    def pi(self):
        return math.pi

    def _c(self, f, g, x):
        if isinstance(x, complex):
            return g(x)
        return f(x)

    def sin(self, x):
        return self._c(math.sin, cmath.sin, x)

    def cos(self, x):
        return self._c(math.cos, cmath.cos, x)

    def exp(self, x):
        return self._c(math.exp, cmath.exp, x)

    def fn(self, name, x):
        if name == "log":
            if isinstance(x, complex) or x < 0:
                return cmath.log(x)
            return math.log(x)
        if name == "sqrt":
            if isinstance(x, complex) or x < 0:
                return cmath.sqrt(x)
            return math.sqrt(x)
        m = {"arctan": "atan", "arcsin": "asin", "arccos": "acos"}.get(name, name)
        return self._c(getattr(math, m, None), getattr(cmath, m, None), x)

    def pow(self, a, b):
        return a ** b

    def matrix(self, vals, r, c):
        return np.array(vals, dtype=complex if any(isinstance(v, complex) for v in vals) else float).reshape(r, c)

    def expm(self, M):
        import scipy.linalg
        return scipy.linalg.expm(M)

    def solve(self, A, B):
        return np.linalg.solve(A, B)

    def mget(self, M, i, j):
        v = M[i, j]
        return complex(v) if np.iscomplexobj(M) else float(v)

    def zeros(self, r, c):
        return np.zeros((r, c))

    def eye(self, n):
        return np.eye(n)

    def hstack_block(self, Z, k):
        n = Z.shape[0]
        W = np.zeros(((k + 1) * n, (k + 1) * n), dtype=Z.dtype)
        W[:n, :n] = Z
        for j in range(k):
            W[j * n:(j + 1) * n, (j + 1) * n:(j + 2) * n] = np.eye(n)
        return W

    def phi(self, k, Z):
        n = Z.shape[0]
        return self.expm(self.hstack_block(Z, k))[:n, k * n:]


class MpBackend:
    name = "mp"

    def num(self, x):
        if isinstance(x, Fraction):
            return mp.mpf(x.numerator) / x.denominator
        if isinstance(x, (bool, int)):
            return mp.mpf(int(x))
        if isinstance(x, complex):
            return mp.mpc(x)
        return mp.mpf(x)

    @property
    def I(self):
        return mp.mpc(0, 1)

    def pi(self):
        return +mp.pi

    def sin(self, x):
        return mp.sin(x)

    def cos(self, x):
        return mp.cos(x)

    def exp(self, x):
        return mp.exp(x)

    def fn(self, name, x):
        m = {"arctan": "atan", "arcsin": "asin", "arccos": "acos"}.get(name, name)
        return getattr(mp, m)(x)

    def pow(self, a, b):
        return mp.power(a, b)

    def matrix(self, vals, r, c):
        return mp.matrix([[vals[i * c + j] for j in range(c)] for i in range(r)])

    def expm(self, M):
        return mp.expm(M)

    def solve(self, A, B):
        X = mp.matrix(A.rows, B.cols)
        for j in range(B.cols):
            col = mp.lu_solve(A, B[:, j])
            for i in range(A.rows):
                X[i, j] = col[i]
        return X

    def mget(self, M, i, j):
        return M[i, j]

    def phi(self, k, Z):
        n = Z.rows
        W = mp.zeros((k + 1) * n)
        for i in range(n):
            for j in range(n):
                W[i, j] = Z[i, j]
        for b in range(k):
            for i in range(n):
                W[b * n + i, (b + 1) * n + i] = 1
        E = mp.expm(W)
        R = mp.matrix(n, n)
        for i in range(n):
            for j in range(n):
                R[i, j] = E[i, k * n + j]
        return R


FLOAT = FloatBackend()
MP = MpBackend()


class Model:
    """A valuation: symbols -> numbers, predicates -> bools, opaque fns by seed."""

    def __init__(self, seed, assign=None, backend=FLOAT, preds=None):
        self.seed = seed
        self.assign = dict(assign or {})
        self.B = backend
        self.preds = dict(preds or {})
        self.memo = {}
        self.fns = {}
        self.fseed = seed
        self.amp = 1

    def with_backend(self, B):
        m = Model(self.seed, self.assign, B, self.preds)
        m.fseed, m.amp = self.fseed, self.amp
        return m

    # free symbols ---------------------------------------------------------
    def symval(self, name):
        if name in self.assign:
            return self.assign[name]
        at = terms.SYM_ATTRS.get(name, {})
        h = int(hashlib.md5(("%s|%s" % (self.seed, name)).encode()).hexdigest()[:12], 16)
        r = random.Random(h)
        lo, hi = at.get("range", (0.1, 1.0) if at.get("positive") else (-1.0, 1.0))
        v = r.uniform(lo, hi)
        # keep it an exactly representable short decimal so both backends agree
        v = Fraction(round(v * 4096), 4096)
        if at.get("positive") and v == 0:
            v = Fraction(1, 64)
        self.assign[name] = v
        return v

    def opaque(self, name, idx, n):
        k = (name, idx, n)
        f = self.fns.get(k)
        if f is None:
            f = self.fns[k] = OpaqueFn((self.fseed,) + k, n)
        return f

    # evaluation -------------------------------------------------------------
    def ev(self, t):
        B = self.B
        if isinstance(t, bool):
            return t
        if not isinstance(t, T):
            if isinstance(t, float):
                return t
            return B.num(t)
        memo = self.memo
        if t in memo:
            return self._out(memo[t])
        stack = [t]
        while stack:
            u = stack[-1]
            if u in memo:
                stack.pop()
                continue
            if u.op == "ite":
                c = u.args[0]
                if c not in memo:
                    stack.append(c)
                    continue
                br = u.args[1] if self._cond(memo[c]) else u.args[2]
                if isinstance(br, T) and br not in memo:
                    stack.append(br)
                    continue
                memo[u] = memo[br] if isinstance(br, T) else self.ev(br)
                stack.pop()
                continue
            todo = [k for k in terms.children(u) if k not in memo]
            if todo:
                stack.extend(todo)
                continue
            try:
                memo[u] = self._eval(u)
            except (ZeroDivisionError, OverflowError, ValueError, np.linalg.LinAlgError) as e:
                memo[u] = EvalError("%s: %s" % (type(e).__name__, e))
            except EvalError as e:
                memo[u] = e
            stack.pop()
        return self._out(memo[t])

    def _cond(self, v):
        if isinstance(v, EvalError):
            raise v
        return bool(v)

    def _out(self, v):
        if isinstance(v, EvalError):
            raise v
        return v

    def g(self, x):
        if isinstance(x, T):
            v = self.memo[x]
            if isinstance(v, EvalError):
                raise v
            return v
        return x if isinstance(x, (bool, float)) else self.B.num(x)

    def _eval(self, u):
        B, op, a, g = self.B, u.op, u.args, self.g
        if op == "sym":
            return B.num(self.symval(a[0]))
        if op == "bsym":
            return self.predval(("bsym", a[0]), ())
        if op == "I":
            return B.I
        if op == "pi":
            return B.pi()
        if op == "add":
            s = B.num(a[0])
            for t, k in a[1]:
                s = s + B.num(k) * g(t)
            return s
        if op == "mul":
            s = B.num(1)
            for t, e in a:
                v = g(t)
                if isinstance(e, Fraction):
                    s = s * B.pow(v, B.num(e))
                else:
                    s = s * v ** e if e >= 0 else s / v ** (-e)
            return s
        if op == "exp":
            return B.exp(g(a[0]))
        if op in ("log", "sqrt", "sin", "cos", "tan", "tanh", "sinh", "cosh", "arctan", "arcsin", "arccos", "expm1", "log1p", "gamma"):
            if op == "sin":
                return B.sin(g(a[0]))
            if op == "cos":
                return B.cos(g(a[0]))
            return B.fn(op, g(a[0]))
        if op == "pow":
            return B.pow(g(a[0]), g(a[1]))
        if op == "abs":
            return abs(g(a[0]))
        if op == "real":
            v = g(a[0])
            return v.real
        if op == "imag":
            v = g(a[0])
            return v.imag
        if op == "conj":
            v = g(a[0])
            return v.conjugate()
        if op in ("floor", "ceil"):
            v = self._r(g(a[0]))
            if B is FLOAT:
                return float(math.floor(v) if op == "floor" else math.ceil(v))
            return mp.floor(v) if op == "floor" else mp.ceil(v)
        if op == "max":
            x, y = self._r(g(a[0])), self._r(g(a[1]))
            return x if x >= y else y
        if op == "min":
            x, y = self._r(g(a[0])), self._r(g(a[1]))
            return x if x <= y else y
        if op == "lt":
            v = self._r(g(a[0]))
            return v < 0 if a[1] > 0 else v > 0
        if op == "eq":
            return abs(g(a[0])) < (1e-12 if B is FLOAT else mp.mpf(10) ** (-MP_DPS + 12))
        if op == "not":
            return not g(a[0])
        if op == "and":
            return all(bool(g(x)) for x in a)
        if op == "bapp":
            return self.predval(a[0], tuple(self._key(g(x)) for x in a[1]))
        if op == "app":
            name, idx, args = a
            v = self.opaque(name, idx, len(args)).value(B, [g(x) for x in args])
            return v if self.amp == 1 else v * B.num(self.amp)
        if op == "dapp":
            name, idx, order, args = a
            v = self.opaque(name, idx, len(args)).value(B, [g(x) for x in args], order)
            return v if self.amp == 1 else v * B.num(self.amp)
        if op == "entry":
            return B.mget(self.memo_m(a[0]), a[1], a[2])
        if op.startswith("mat:"):
            extra, ents, r, c = a
            M = B.matrix([g(x) for x in ents], r, c)
            k = op[4:]
            if k == "expm":
                return B.expm(M)
            if k == "phi":
                return B.phi(extra, M)
            if k == "inv":
                return B.solve(M, B.matrix([B.num(int(i == j)) for i in range(r) for j in range(r)], r, r))
            raise EvalError("matrix function " + k)
        raise EvalError("op " + op)

    def memo_m(self, m):
        v = self.memo[m]
        if isinstance(v, EvalError):
            raise v
        return v

    def _r(self, v):
        if isinstance(v, complex) or isinstance(v, mp.mpc):
            if abs(v.imag) > 1e-9 * (1 + abs(v.real)):
                raise EvalError("ordering of a complex value")
            v = v.real
        if isinstance(v, float) and math.isnan(v):
            raise EvalError("nan")
        return v

    def _key(self, v):
        if isinstance(v, (complex, mp.mpc)):
            return (round(float(v.real), 6), round(float(v.imag), 6))
        return round(float(v), 6)

    def predval(self, name, args):
        key = (name, args)
        if key in self.preds:
            return self.preds[key]
        h = int(hashlib.md5(repr((self.seed, "pred", key)).encode()).hexdigest()[:8], 16)
        v = bool(h & 1)
        self.preds[key] = v
        return v


def eval_closed(t):
    with mp.workdps(MP_DPS):
        m = Model(0, {}, MP)
        v = m.ev(t)
        if isinstance(v, bool):
            return v
        return mp.mpc(v)


def close(x, y, tol, scale=1.0):
    try:
        x, y = complex(x), complex(y)
    except (TypeError, OverflowError):
        return x == y
    if cmath.isnan(x) or cmath.isnan(y):
        return cmath.isnan(x) and cmath.isnan(y)
    return abs(x - y) <= tol * max(scale, abs(x), abs(y))
