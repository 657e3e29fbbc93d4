"""Reference mathematics (the oracle) and the contracts of analysed callees.

The formulas here come from the published method definitions, not from the
code: phi_k(z) = sum z^j/(j+k)!, exponential Rosenbrock / EPI / ETD-RK
tableaus, the classical Runge-Kutta tableaus, Newton interpolation, ...
"""
from fractions import Fraction

import numpy as np

from . import terms
from .driver import *
from .terms import T, add, mul, sub, div, app, sym


def phi(k, Z):
    """Exact phi_k of a matrix of value numbers, as an object array."""
    Z = obj(Z)
    n = Z.shape[0]
    if any(isinstance(x, float) and x != x for x in Z.reshape(-1)):
        return oarr([float("nan")] * (n * n), (n, n))
    if all(not isinstance(x, T) and x == 0 for x in Z.reshape(-1)):
        return eye(n) * Fraction(1, fact(k))
    m = terms.matnode("phi", k, list(Z.reshape(-1)), n, n)
    return oarr([terms.entry(m, i, j) for i in range(n) for j in range(n)], (n, n))


def fact(k):
    r = 1
    for i in range(2, k + 1):
        r *= i
    return r


def eye(n):
    return oarr([Fraction(int(i == j)) if False else int(i == j) for i in range(n) for j in range(n)], (n, n))


def zeros(*shape):
    return oarr([0] * int(np.prod(shape)), shape)


def scale(c, A):
    A = obj(A)
    return oarr([mul(c, x) for x in A.reshape(-1)], A.shape)


def plus(*As):
    As = [obj(a) for a in As]
    out = As[0]
    for b in As[1:]:
        out = oarr([add(x, y) for x, y in zip(out.reshape(-1), b.reshape(-1))], out.shape)
    return out


def minus(a, b):
    return plus(a, scale(-1, b))


def dot(A, B):
    A, B = obj(A), obj(B)
    if A.ndim == 2 and B.ndim == 1:
        return oarr([_ip(A[i], B) for i in range(A.shape[0])], (A.shape[0],))
    if A.ndim == 2 and B.ndim == 2:
        return oarr([_ip(A[i], B[:, j]) for i in range(A.shape[0]) for j in range(B.shape[1])], (A.shape[0], B.shape[1]))
    if A.ndim == 1 and B.ndim == 1:
        return _ip(A, B)
    raise ValueError


def _ip(a, b):
    s = 0
    for x, y in zip(a, b):
        s = add(s, mul(x, y))
    return s


def norm_inf(v):
    r = 0
    for x in obj(v).reshape(-1):
        r = terms.vmax(r, terms.absv(x))
    return r


def outvec(a, lib="jnp"):
    return Arr(obj(a), F64 if all(not isinstance(x, T) or x.real for x in obj(a).reshape(-1)) else C128, lib)


# ---------------------------------------------------------------- opaque systems
class Field:
    """An opaque smooth vector field F(t, y[, p]) with exact derivatives."""

    def __init__(self, name, n):
        self.name, self.n = name, n

    def at(self, t, y, *extra):
        y = list(obj(y).reshape(-1))
        args = [t] + y + list(extra)
        return oarr([app(self.name, i, args) for i in range(self.n)], (self.n,))

    def _d(self, t, y, j, extra=()):
        y = list(obj(y).reshape(-1))
        args = [t] + y + list(extra)
        fresh = [sym("_fresh%d" % i) for i in range(len(args))]
        out = []
        for i in range(self.n):
            d = terms.diff(app(self.name, i, fresh), {fresh[j]: 1})
            out.append(terms.substitute(d, dict(zip(fresh, args))))
        return out

    def dt(self, t, y, *extra):
        return oarr(self._d(t, y, 0, extra), (self.n,))

    def jac(self, t, y, *extra):
        cols = [self._d(t, y, 1 + j, extra) for j in range(self.n)]
        return oarr([cols[j][i] for i in range(self.n) for j in range(self.n)], (self.n, self.n))


STUB = '''
import jax
import jax.numpy as jnp
from orma_host import opaque_F, opaque_L, opaque_Fp
from ormatex_py.ode_sys import OdeSys, OdeSplitSys, MatrixLinOp

class UserSys(OdeSys):
    def _frhs(self, t, x, **kwargs):
        return opaque_F(t, x)

class SplitSys(OdeSplitSys):
    def _frhs(self, t, x, **kwargs):
        return opaque_F(t, x)
    def _fl(self, t, x, **kwargs):
        return MatrixLinOp(opaque_L(t, x))

class KwSys(OdeSys):
    def _frhs(self, t, x, **kwargs):
        return opaque_Fp(t, x, kwargs)

class KwSplitSys(OdeSplitSys):
    def _frhs(self, t, x, **kwargs):
        return opaque_Fp(t, x, kwargs)
    def _fl(self, t, x, **kwargs):
        return MatrixLinOp(opaque_L(t, x))

class LinSys(OdeSys):
    a: object
    b: object
    c: object
    def __init__(self, a, b, c):
        self.a = a
        self.b = b
        self.c = c
    def _frhs(self, t, x, **kwargs):
        return self.a @ x + self.b + t * self.c

class LinSplitSys(OdeSplitSys):
    a: object
    b: object
    c: object
    def __init__(self, a, b, c):
        self.a = a
        self.b = b
        self.c = c
    def _frhs(self, t, x, **kwargs):
        return self.a @ x + self.b + t * self.c
    def _fl(self, t, x, **kwargs):
        return MatrixLinOp(self.a)
'''

STUBS = {"orma_stub": ("<user system>", STUB)}


def host(n, F=None, L=None, flags=None, extra=None):
    """setup(I) installing the opaque user functions."""
    F = F or Field("F", n)

    def fF(I, a, k):
        t, x = a[0], a[1]
        if isinstance(t, Arr):
            t = t.a.reshape(-1)[0]
        I.events.append(("rhs", tuple([t] + list(x.a.reshape(-1)))))
        if len(x.a.reshape(-1)) != n:
            raise Unsupported("state of another size")
        return Arr(F.at(t, x), F64, x.lib)

    def fFp(I, a, k):
        t, x, kw = a[0], a[1], a[2]
        I.events.append(("rhs_kwargs", tuple(sorted(map(str, kw)))))
        if isinstance(t, Arr):
            t = t.a.reshape(-1)[0]
        inner = kw.get("frhs_kwargs", kw)
        p = inner.get("p", 0) if isinstance(inner, dict) else 0
        if not is_scalar(p):
            raise I.err("TypeError", "unexpected parameter %r" % (p,))
        return Arr(F.at(t, x, p), F64, x.lib)

    def fL(I, a, k):
        t, x = a[0], a[1]
        I.events.append(("fl", tuple([t] + list(x.a.reshape(-1)))))
        if L is not None:
            return Arr(obj(L), F64, "jnp")
        args = [t] + list(x.a.reshape(-1))
        return Arr(oarr([app("L", i, args) for i in range(n * n)], (n, n)), F64, "jnp")

    def setup(I):
        m = ModuleVal("orma_host", None, None)
        m.ns.update(opaque_F=HostFn("F", fF), opaque_L=HostFn("L", fL), opaque_Fp=HostFn("Fp", fFp))
        m.env = Env(None)
        m.env.vars = m.ns
        m.loaded = True
        I.modules["orma_host"] = m
        if extra:
            extra(I)
    return setup


# ---------------------------------------------------------------- contracts
def op_matrix(I, lop, n):
    """Dense matrix of a linear operator value, column by column."""
    if isinstance(lop, Arr):
        return obj(lop)
    cols = []
    for j in range(n):
        e = Arr(oarr([int(i == j) for i in range(n)], (n,)), F64, "jnp")
        c = I.call(lop, [e], {})
        cols.append(obj(c).reshape(-1))
    return oarr([cols[j][i] for i in range(n) for j in range(n)], (n, n))


def guard(fn):
    def con(I, b):
        try:
            return fn(I, b)
        except KeyError as e:
            raise Unsupported("contract of a callee whose signature changed (%s)" % e)
    return con


def kint(I, k):
    k = I.concretize(k)
    if not isinstance(k, int) or isinstance(k, bool):
        raise Unsupported("phi order")
    return k


@guard
def con_phi_linop(I, b):
    v = b["v0"]
    sh = v.a.shape
    vv = v.a.reshape(-1)
    n = vv.shape[0]
    A = op_matrix(I, b["a_lo"], n)
    I.events.append(("krylov", b["max_krylov_dim"], b["iom"]))
    return outvec(dot(phi(kint(I, b["k"]), scale(b["dt"], A)), vv).reshape(sh))


@guard
def con_matexp_linop(I, b):
    v = b["v0"]
    sh = v.a.shape
    vv = v.a.reshape(-1)
    A = op_matrix(I, b["a_lo"], vv.shape[0])
    I.events.append(("krylov", b["max_krylov_dim"], b["iom"]))
    return outvec(dot(phi(0, scale(b["dt"], A)), vv).reshape(sh))


@guard
def con_kiops(I, b):
    """sum_k phi_k(dt A) b_k"""
    vb = I.iterate(b["vb"])
    n = vb[0].a.reshape(-1).shape[0]
    A = op_matrix(I, b["a_lo"], n)
    I.events.append(("krylov", b["max_krylov_dim"], b["iom"]))
    s = zeros(n)
    for k, v in enumerate(vb):
        vv = v.a.reshape(-1)
        if all(not isinstance(x, T) and x == 0 for x in vv):
            continue
        s = plus(s, dot(phi(k, scale(b["dt"], A)), vv))
    return outvec(s)


@guard
def con_phi_sq_all(I, b):
    Z = b["Z"] if "Z" in b else b["z"]
    K = kint(I, b["k"])
    return [outvec(phi(j, Z)) for j in range(K + 1)]


@guard
def con_phi_sq(I, b):
    Z = b["Z"] if "Z" in b else b["z"]
    return outvec(phi(kint(I, b["k"]), Z))


@guard
def con_phi_appl(I, b):
    Z = b["Z"] if "Z" in b else b["z"]
    v = b["B"] if "B" in b else b["b"]
    return outvec(dot(phi(kint(I, b["k"]), Z), v))


@guard
def con_phi_pfd(I, b):
    Z = b["Z"] if "Z" in b else b["z"]
    v = b["B"] if "B" in b else b["b"]
    I.events.append(("pfd", b.get("method")))
    return outvec(dot(phi(kint(I, b["k"]), Z), v))


# ---- Leja routines (numerical approximations; exact in the contract)
def _leja_exp(I, b, kind):
    v = b["v"].a.reshape(-1)
    n = I.concretize(b["n"])
    A = op_matrix(I, b["a_tilde_lo"], v.shape[0])
    w = dot(phi(0, A), v)
    k = sum(1 for e in I.events if e[0] == "leja")
    I.events.append(("leja", kind, {x: b.get(x) for x in ("tau_dt", "leja_x", "n_leja_real", "shift", "scale", "tol", "substep", "leja_n_zeros", "dd_method")}))
    conv = terms.bapp("leja_converged", [k])
    return (outvec(w[:n]), S("leja_iters%d" % k, positive=True), conv, S("leja_tau%d" % k, range=(0.1, 1.0), positive=True))


@guard
def con_real_leja(I, b):
    return _leja_exp(I, b, "real")


@guard
def con_conj_leja(I, b):
    return _leja_exp(I, b, "conj")


@guard
def con_leja_shift_scale(I, b):
    k = sum(1 for e in I.events if e[0] == "leja_ss")
    I.events.append(("leja_ss", b["dim"], b["max_power_iter"], b["b0"], b["scale_factor"]))
    op_matrix(I, b["a_tilde_lo"], I.concretize(b["dim"]))
    d = I.concretize(b["dim"])
    return (S("lss_shift%d" % k), S("lss_scale%d" % k, positive=True), S("lss_eig%d" % k, range=(-5, -1)), vec("lss_b%d_" % k, d), S("lss_it%d" % k, positive=True))


@guard
def con_gen_leja_fast(I, b):
    I.events.append(("gen_leja_fast", b["a"], b["b"], b["n"]))
    return Arr(oarr([S("lejafast%d" % i) for i in range(3)], (3,)), F64, "jnp")


@guard
def con_gen_leja_conj(I, b):
    I.events.append(("gen_leja_conjugate", b["n"], b["a"], b["b"], b["c"]))
    k = len(I.events)
    return (Arr(oarr([S("lejaconj%d" % i) for i in range(3)], (3,)), C128, "jnp"), 3, S("lejac_scale", positive=True), S("lejac_shift"))


LEJA_CONTRACTS = {
    "ormatex_py.matexp_leja.real_leja_expmv_substep": con_real_leja,
    "ormatex_py.matexp_leja.complex_conj_leja_expmv_substep": con_conj_leja,
    "ormatex_py.matexp_leja.leja_shift_scale": con_leja_shift_scale,
    "ormatex_py.matexp_leja.gen_leja_fast": con_gen_leja_fast,
    "ormatex_py.matexp_leja.gen_leja_conjugate": con_gen_leja_conj,
}
