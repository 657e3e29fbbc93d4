"""Shared pieces of the obligations on the native (Rust) crate."""
import os

from ..rust.load import natives
from .common import *


class Aut(Field):
    """autonomous field"""

    def at(self, t, y, *e):
        return Field.at(self, 0, y)

    def jac(self, t, y, *e):
        return Field.jac(self, 0, y)

    def dt(self, t, y, *e):
        return zeros(self.n)


class TAff(Field):
    """F(t, y) = G(y) + t H(y): every difference quotient in t is exact"""

    def __init__(self, name, n):
        Field.__init__(self, name, n)
        self.g, self.h = Field(name + "G", n), Field(name + "H", n)

    def at(self, t, y, *e):
        return plus(self.g.at(0, y), scale(t, self.h.at(0, y)))

    def jac(self, t, y, *e):
        return plus(self.g.jac(0, y), scale(t, self.h.jac(0, y)))

    def dt(self, t, y, *e):
        return self.h.at(0, y)


class Lin:
    """F(t, y) = A y + b + c t"""

    def __init__(self, A, b, c=None):
        self.A, self.b, self.c, self.n = obj(A), obj(b), c, len(obj(b))

    def at(self, t, y, *e):
        r = plus(dot(self.A, obj(y).reshape(-1)), self.b)
        return r if self.c is None else plus(r, scale(t, self.c))

    def jac(self, t, y, *e):
        return self.A

    def dt(self, t, y, *e):
        return zeros(self.n) if self.c is None else obj(self.c)


def stubs_for(ctx):
    st, bad = natives(ctx.project.root)
    return st, bad


def nsetup(F):
    def setup(I):
        m = ModuleVal("orma_host", None, None)

        def fF(I, a, k):
            t = a[0].a.reshape(-1)[0] if isinstance(a[0], Arr) else a[0]
            return Arr(F.at(t, a[1]), F64, "np")

        def fJ(I, a, k):
            t = a[0].a.reshape(-1)[0] if isinstance(a[0], Arr) else a[0]
            return Arr(F.jac(t, a[1]), F64, "np")
        m.ns.update(opaque_F=HostFn("F", fF), opaque_J=HostFn("J", fJ))
        m.env = Env(None)
        m.env.vars = m.ns
        m.loaded = True
        I.modules["orma_host"] = m
    return setup


def mk(I, x, shape=None):
    """shim matrix of an array (a column for vectors)"""
    x = obj(x)
    if shape is None:
        shape = x.shape if x.ndim == 2 else (x.size, 1)
    return I.call(need(I, "rs_shim", "Mat"), [Arr(oarr(list(x.reshape(-1)), shape), F64, "np")], {})


def am(I, m):
    """array of a shim matrix"""
    r = I.call(I.getattr(m, "a"), [], {})
    return Arr(r.a, r.dt, "jnp")


def out(a):
    a = obj(a)
    return Arr(a, F64 if all(not isinstance(x, T) or x.real for x in a.reshape(-1)) else C128, "jnp")


def col(v):
    v = obj(v)
    return oarr(list(v.reshape(-1)), (v.size, 1))


def meth(I, o, name, *a):
    return I.call(I.getattr(o, name), list(a), {})


def new(I, mod, cls, *a):
    return I.call(I.getattr(need(I, mod, cls), "new"), list(a), {})


def user(I):
    return I.call(need(I, "rs_user", "RsSys"), [], {})


def jacop(I, A):
    return I.call(need(I, "rs_user", "RsJac"), [mk(I, A)], {})


def lopmat(I, lop, n):
    cols = []
    for j in range(n):
        o = mk(I, zeros(n, 1))
        meth(I, lop, "apply", o, mk(I, [int(i == j) for i in range(n)]), None, None)
        cols.append(am(I, o).a.reshape(-1))
    return oarr([cols[j][i] for i in range(n) for j in range(n)], (n, n))


def nrows(I, m):
    return I.concretize(meth(I, m, "nrows"))


@guard
def con_apply_linop(I, b):
    n = nrows(I, b["v0"])
    A = lopmat(I, b["a_lo"], n)
    return mk(I, col(dot(phi(0, scale(b["dt"], A)), obj(am(I, b["v0"])).reshape(-1))))


@guard
def con_apply_phi(I, b):
    n = nrows(I, b["v0"])
    A = lopmat(I, b["a_lo"], n)
    return mk(I, col(dot(phi(kint(I, b["k"]), scale(b["dt"], A)), obj(am(I, b["v0"])).reshape(-1))))


@guard
def con_phik_apply(I, b):
    A = obj(am(I, b["a"]))
    v = obj(am(I, b["v0"]))
    return mk(I, dot(phi(kint(I, b["k"]), scale(b["dt"], A)), v))


EXPV = {"matexp_krylov.KrylovExpm.apply_linop": con_apply_linop,
        "matexp_krylov.KrylovExpm.apply_phi_linop": con_apply_phi}


def missing(ctx, mods):
    """modules outside the Rust subset: their obligations are undecided"""
    st, bad = stubs_for(ctx)
    r = False
    for m in mods:
        if m in bad:
            ctx.note_undecided("translate:" + m, bad[m])
            r = True
    return r
