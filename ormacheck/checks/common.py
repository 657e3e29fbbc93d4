"""Shared pieces of the step-formula obligations."""
from fractions import Fraction

from .. import terms
from ..driver import *
from ..theory import *

EXP = "ormatex_py.ode_exp"
STEP_CONTRACTS = {
    "ormatex_py.matexp_krylov.phi_linop": con_phi_linop,
    "ormatex_py.matexp_krylov.matexp_linop": con_matexp_linop,
    "ormatex_py.matexp_krylov.kiops_fixedsteps": con_kiops,
    "ormatex_py.matexp_phi.f_phi_k_sq_all": con_phi_sq_all,
    "ormatex_py.matexp_phi.f_phi_k_sq": con_phi_sq,
    "ormatex_py.matexp_phi.f_phi_k_appl": con_phi_appl,
    "ormatex_py.matexp_phi.f_phi_k_pfd": con_phi_pfd,
    "ormatex_py.matexp_phi.f_phi_k_ext": con_phi_sq,
}


def stepres(I, r):
    return {"t": I.getattr(r, "t"), "dt": I.getattr(r, "dt"), "y": I.getattr(r, "y")}


def make(I, mod, clsname, sysname, t0, y0, method, **kw):
    cls = need(I, mod, clsname)
    s = I.call(need(I, "orma_stub", sysname), [], {})
    return I.call(cls, [s, t0, y0], dict(kw, method=method)), s


def steps(I, integ, dts, accept=True):
    out = []
    for dt in dts:
        r = I.call(I.getattr(integ, "step"), [dt], {})
        out.append(stepres(I, r))
        if accept:
            I.call(I.getattr(integ, "accept_step"), [r], {})
    return out


# ------------------------------------------------ reference methods
def big(v, tol):
    """is the time derivative above the user's tolerance"""
    return terms.land(terms.ge(tol, 0), terms.lt(tol, norm_inf(v)))


def gatevec(c, a, b):
    return oarr([terms.ite(c, x, y) for x, y in zip(obj(a).reshape(-1), obj(b).reshape(-1))], obj(a).shape)


class Ref:
    """Reference exponential Rosenbrock / EPI steps for a vector field."""

    def __init__(self, F, extra=()):
        self.F, self.extra = F, tuple(extra)

    def f(self, t, y):
        return self.F.at(t, y, *self.extra)

    def lin(self, t, y):
        return self.F.jac(t, y, *self.extra), self.F.dt(t, y, *self.extra)

    def rem(self, tr, yr, t, y, J, v):
        r = minus(minus(self.f(tr, yr), self.f(t, y)), dot(J, minus(yr, y)))
        return minus(r, scale(tr - t, v))

    def exprb2(self, t, y, dt, tol, c=1):
        J, v = self.lin(t, y)
        if tol is not None:
            v = gatevec(big(v, tol), v, zeros(len(v)))
        z = scale(c * dt, J)
        return plus(y, scale(c * dt, dot(phi(1, z), self.f(t, y))), scale(c * c * dt * dt, dot(phi(2, z), v)))

    def exprb3(self, t, y, dt, tol):
        J, v = self.lin(t, y)
        v = gatevec(big(v, tol), v, zeros(len(v)))
        u = self.exprb2(t, y, dt, tol)
        r = self.rem(t + dt, u, t, y, J, v)
        return plus(u, scale(2 * dt, dot(phi(3, scale(dt, J)), r)))

    def epi3(self, t, y, dt, tp, yp):
        J, v = self.lin(t, y)
        r = self.rem(tp, yp, t, y, J, v)
        z = scale(dt, J)
        return plus(y, scale(dt, dot(phi(1, z), self.f(t, y))), scale(dt * dt, dot(phi(2, z), v)),
                    scale(Fraction(2, 3) * dt, dot(phi(2, z), r)))

    def pexprb4(self, t, y, dt, tol):
        J, v0 = self.lin(t, y)
        v = gatevec(big(v0, tol), v0, zeros(len(v0)))
        h = Fraction(1, 2)
        u2 = self.exprb2(t, y, dt, tol, c=h)
        u3 = self.exprb2(t, y, dt, tol)
        r2 = self.rem(t + h * dt, u2, t, y, J, v)
        r3 = self.rem(t + dt, u3, t, y, J, v)
        z = scale(dt, J)
        return plus(u3, scale(dt, dot(phi(3, z), minus(scale(16, r2), scale(2, r3)))),
                    scale(dt, dot(phi(4, z), plus(scale(-48, r2), scale(12, r3)))))


STEP_CONTRACTS.update(LEJA_CONTRACTS)


class SplitRef:
    """Reference exponential Runge-Kutta (ETD) steps for F and a linear part L."""

    def __init__(self, F, L):
        self.F, self.L = F, L          # L(t, y) -> matrix

    def rem(self, tr, yr, t, y, L):
        return minus(minus(self.F.at(tr, yr), self.F.at(t, y)), dot(L, minus(yr, y)))

    def exp1(self, t, y, h, L=None):
        L = self.L(t, y) if L is None else L
        return plus(y, scale(h, dot(phi(1, scale(h, L)), self.F.at(t, y))))

    def exp2(self, t, y, h, c2, L=None):
        L = self.L(t, y) if L is None else L
        f = self.F.at(t, y)
        u2 = plus(y, scale(c2 * h, dot(phi(1, scale(c2 * h, L)), f)))
        r2 = self.rem(t + c2 * h, u2, t, y, L)
        z = scale(h, L)
        return plus(y, scale(h, dot(phi(1, z), f)), scale(h * (Fraction(1) / c2), dot(phi(2, z), r2)))

    def exp3(self, t, y, h, c2, L=None):
        L = self.L(t, y) if L is None else L
        f = self.F.at(t, y)
        c3 = Fraction(2, 3)
        u2 = plus(y, scale(c2 * h, dot(phi(1, scale(c2 * h, L)), f)))
        r2 = self.rem(t + c2 * h, u2, t, y, L)
        z3 = scale(c3 * h, L)
        u3 = plus(y, scale(c3 * h, dot(phi(1, z3), f)), scale(h * (Fraction(4, 9) / c2), dot(phi(2, z3), r2)))
        r3 = self.rem(t + c3 * h, u3, t, y, L)
        z = scale(h, L)
        return plus(y, scale(h, dot(phi(1, z), f)), scale(h * Fraction(3, 2), dot(phi(2, z), r3)))


def rk4_ref(F, t, y, h):
    f1 = F.at(t, y)
    f2 = F.at(t + h * Fraction(1, 2), plus(y, scale(h * Fraction(1, 2), f1)))
    f3 = F.at(t + h * Fraction(1, 2), plus(y, scale(h * Fraction(1, 2), f2)))
    f4 = F.at(t + h, plus(y, scale(h, f3)))
    return plus(y, scale(h * Fraction(1, 6), plus(f1, scale(2, f2), scale(2, f3), f4)))


def tri(t, dt, y):
    return {"t": t, "dt": dt, "y": outvec(y)}


C2S = (Fraction(1), Fraction(2, 3), Fraction(1, 2), Fraction(1, 3), Fraction(3, 4), Fraction(1, 4))
EXPLICIT = "ormatex_py.ode_explicit"


def any_of(ctx, name, entry, refs, **kw):
    """The obligation holds when one of the admissible references matches."""
    if not ctx.mine():
        return None
    best = None
    ctx.grouped = True
    try:
        for label, ref in refs:
            n0 = len(ctx.findings)
            rep = ctx.ob(name, entry, ref, **kw)
            if rep.status() != "violation":
                if label:
                    rep.notes.append(label)
                return rep
            mine = ctx.findings[n0:]
            del ctx.findings[n0:]
            ctx.reports.pop()
            if best is None:
                best = (rep, mine)
        ctx.reports.append(best[0])
        ctx.findings.extend(best[1])
        return best[0]
    finally:
        ctx.grouped = False


def or_known(ctx, name, entry, ref, defect, **kw):
    """The obligation, with a recorded deviation: only exactly that deviation is reported under the
    obligation's own name, any other one under name:other."""
    if not ctx.mine():
        return None
    ctx.grouped = True
    try:
        n0 = len(ctx.findings)
        rep = ctx.ob(name, entry, ref, **kw)
        if rep.status() == "violation":
            n1 = len(ctx.findings)
            alt = ctx.ob(name, entry, defect, **kw)
            ctx.reports.pop()
            same = alt.status() == "holds"
            del ctx.findings[n1:]
            if not same:
                for f in ctx.findings[n0:]:
                    f.key = name + ":other"
        return rep
    finally:
        ctx.grouped = False
