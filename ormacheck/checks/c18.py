"""Jacobian, time derivative and cached right-hand side of every variant belong to the same (time, state, parameters), also inside a step."""
from .common import *

SY = "ormatex_py.ode_sys"
OPS = '''
from ormatex_py.ode_sys import CustomJacLinOp, AdJacLinOp, FdJacLinOp, OdeSysNp, OdeSys, OdeSplitSys, MatrixLinOp
from orma_host import opaque_Fp, opaque_J, opaque_Ft, opaque_Lp

def rhs(t, x, **kwargs):
    return opaque_Fp(t, x, kwargs)
def auto(t, u, kw):
    return AdJacLinOp(t, u, rhs, frhs_kwargs=kw)
def custom(t, u, j, ft, kw):
    return CustomJacLinOp(t, u, rhs, j, ft, frhs_kwargs=kw)
def custom_fd(t, u, j, eps, kw):
    return CustomJacLinOp(t, u, rhs, j, frhs_kwargs=kw, eps=eps)
def fd(t, u, eps, kw):
    return FdJacLinOp(t, u, rhs, frhs_kwargs=kw, eps=eps)

class UserJacSys(OdeSys):
    def _frhs(self, t, x, **kwargs):
        return opaque_Fp(t, x, kwargs)
    def _fjac(self, t, x, **kwargs):
        return CustomJacLinOp(t, x, self.frhs, opaque_J(t, x, kwargs), opaque_Ft(t, x, kwargs), frhs_kwargs=kwargs)
class PSplitSys(OdeSplitSys):
    def _frhs(self, t, x, **kwargs):
        return opaque_Fp(t, x, kwargs)
    def _fl(self, t, x, **kwargs):
        return MatrixLinOp(opaque_Lp(t, x, kwargs))
'''
STB = dict(STUBS, orma_ops=("<operators>", OPS))


def par(kw):
    inner = kw.get("frhs_kwargs", kw)
    p = inner.get("p", 0) if isinstance(inner, dict) else 0
    if not is_scalar(p):
        raise Unsupported("parameter value")
    return p


def install(n, F):
    def extra(I):
        m = I.modules["orma_host"]

        def tt(t):
            return t.a.reshape(-1)[0] if isinstance(t, Arr) else t
        m.ns["opaque_J"] = HostFn("J", lambda I, a, k: outvec(F.jac(tt(a[0]), a[1], par(a[2]))))
        m.ns["opaque_Ft"] = HostFn("Ft", lambda I, a, k: outvec(F.dt(tt(a[0]), a[1], par(a[2]))))
        m.ns["opaque_Lp"] = HostFn("Lp", lambda I, a, k: Arr(oarr([app("L", i, [tt(a[0])] + list(a[1].a.reshape(-1)) + [par(a[2])]) for i in range(n * n)], (n, n)), F64, "jnp"))
    return host(n, F, extra=extra)


def run(ctx):
    t, p_ = S("t"), S("p")
    eps = S("eps", range=(1e-6, 1e-3), positive=True)
    for n in (1, 2, 3, 4) if ctx.deep else (1, 2, 3):
        F = Field("F", n)
        u = vec("u", n)
        v = vec("v", n)
        J0, ft0 = mat("j", n), vec("ft", n)

        def O(name):
            return lambda I, *a: I.call(need(I, "orma_ops", name), list(a), {})
        for kwname, kw, ex in (("parameter", {"p": p_}, (p_,)), ("nested parameter", {"frhs_kwargs": {"p": p_}}, (p_,)), ("no parameter", {}, (0,))):
            tf = scale(1 / eps, minus(F.at(t + eps, u, *ex), F.at(t, u, *ex)))
            h = mul(eps, ite_sum(u))
            fdv = scale(1 / h, minus(F.at(t, plus(u, scale(h, v)), *ex), F.at(t, u, *ex)))
            cases = [
                ("automatic", lambda I, kw=kw: O("auto")(I, t, u, dict(kw)), dot(F.jac(t, u, *ex), v), F.dt(t, u, *ex)),
                ("user-supplied", lambda I, kw=kw: O("custom")(I, t, u, J0, ft0, dict(kw)), dot(obj(J0), v), obj(ft0)),
                ("user-supplied without time derivative", lambda I, kw=kw: O("custom_fd")(I, t, u, J0, eps, dict(kw)), dot(obj(J0), v), tf),
                ("finite difference", lambda I, kw=kw: O("fd")(I, t, u, eps, dict(kw)), fdv, tf),
            ]
            for nm, mk, Jv, Ft in cases:
                for first in ("f", "ft", "jv"):
                    # whichever is asked for first, the three belong together
                    def entry(I, mk=mk, first=first):
                        op = mk(I)
                        get = {"f": lambda: I.call(I.getattr(op, "_frhs_cached"), [], {}), "ft": lambda: I.call(I.getattr(op, "_fdt"), [], {}),
                               "jv": lambda: I.call(I.getattr(op, "matvec"), [v], {})}
                        out = {first: get[first]()}
                        for k_ in ("f", "ft", "jv"):
                            out.setdefault(k_, get[k_]())
                        return out

                    def ref(q, Jv=Jv, Ft=Ft, ex=ex):
                        return {"f": outvec(F.at(t, u, *ex)), "ft": outvec(Ft), "jv": outvec(Jv)}
                    ctx.ob("%s, %s n=%d (%s first)" % (nm, kwname, n, first), entry, ref, stubs=STB, setup=install(n, F), mtol=1e-5, key="operator:%s:%s" % (nm, kwname))
        # systems
        for nm, mod, cls in (("default system", "orma_stub", "KwSys"), ("user Jacobian system", "orma_ops", "UserJacSys"), ("numpy wrapper", "orma_stub", "KwSys")):
            for kwname, kw, ex in (("parameter", {"p": p_}, (p_,)), ("step parameter", {"frhs_kwargs": {"p": p_}}, (p_,)), ("no parameter", {}, (0,)), ("empty step parameter", {"frhs_kwargs": {}}, (0,))):
                def entry(I, nm=nm, mod=mod, cls=cls, kw=kw):
                    s = I.call(need(I, mod, cls), [], {})
                    if nm == "numpy wrapper":
                        s = I.call(need(I, SY, "OdeSysNp"), [s], {})
                    op = I.call(I.getattr(s, "fjac"), [t, u], dict(kw))
                    out = {"f": I.call(I.getattr(op, "_frhs_cached"), [], {}), "ft": I.call(I.getattr(op, "_fdt"), [], {}),
                           "jv": I.call(I.getattr(op, "matvec"), [v], {}), "J": I.call(I.getattr(op, "dense"), [], {}),
                           "rhs": I.call(I.getattr(s, "frhs"), [t, u], dict(kw)), "call": I.call(s, [t, u], dict(kw))}
                    fm = I.call(I.getattr(s, "fm"), [t, u], dict(kw))
                    out["mass"] = I.call(I.getattr(fm, "matvec"), [v], {})
                    out["massd"] = I.call(I.getattr(fm, "dense"), [], {})
                    return out

                def ref(q, ex=ex):
                    f = outvec(F.at(t, u, *ex))
                    J = F.jac(t, u, *ex)
                    return {"f": f, "ft": outvec(F.dt(t, u, *ex)), "jv": outvec(dot(J, v)), "J": outvec(J), "rhs": f, "call": f, "mass": v, "massd": outvec(eye(n))}
                ctx.ob("%s, %s n=%d" % (nm, kwname, n), entry, ref, stubs=STB, setup=install(n, F), key="system:%s:%s" % (nm, kwname))
    # parameters given to a step are those of the whole step
    n = 2
    F = Field("F", n)
    t0, h1, h2, tol = S("t0"), S("h1", range=(0.05, 0.5)), S("h2", range=(0.05, 0.5)), S("tol", range=(-0.5, 1.0))
    q_ = S("q")
    y0 = vec("y", n)
    hints = [{"tol": Fraction(-1)}, {"tol": Fraction(0)}, {"tol": Fraction(10)}]
    R, R2 = Ref(F, (p_,)), Ref(F, (q_,))

    def Lm(p):
        return lambda tt, yy: oarr([app("L", i, [tt] + list(obj(yy).reshape(-1)) + [p]) for i in range(n * n)], (n, n))
    SR = SplitRef(PF(F, p_), Lm(p_))
    RB, LE, SP = ("ExpRBIntegrator", "orma_stub", "KwSys"), ("ExpLejaIntegrator", "orma_stub", "KwSys"), ("ExpSplitIntegrator", "orma_ops", "PSplitSys")
    UJ = ("ExpRBIntegrator", "orma_ops", "UserJacSys")

    def stepob(name, who, method, ref, nst=1, mod=EXP, discard=False, **kw):
        def entry(I):
            integ = I.call(need(I, mod, who[0]), [I.call(need(I, who[1], who[2]), [], {}), t0, y0], dict(kw, method=method))
            y = None
            if discard:
                # the same step with other parameters, not accepted
                I.call(I.getattr(integ, "step"), [h1], {"frhs_kwargs": {"p": q_}})
            for dt, pp in ((h1, p_), (h2, q_))[:nst]:
                r = I.call(I.getattr(integ, "step"), [dt], {"frhs_kwargs": {"p": pp}})
                I.call(I.getattr(integ, "accept_step"), [r], {})
                y = I.getattr(r, "y")
            return y
        def out(q, f):
            if any(c.op == "bapp" and not val for c, val in q.decisions.items()):
                return SKIP         # not converged: C01
            return outvec(f())
        if isinstance(ref, list):
            any_of(ctx, name, entry, [(l, lambda q, f=f: out(q, f)) for l, f in ref], contracts=STEP_CONTRACTS, setup=install(n, F), hints=hints, stubs=STB, key="step:" + name)
        else:
            ctx.ob(name, entry, lambda q: out(q, ref), STEP_CONTRACTS, install(n, F), hints, stubs=STB, key="step:" + name)
    for tag, who in (("", RB), (" user Jacobian", UJ)):
        stepob("exprb2" + tag, who, "exprb2", lambda: R.exprb2(t0, y0, h1, tol), tol_fdt=tol)
        stepob("exprb3" + tag, who, "exprb3", lambda: R.exprb3(t0, y0, h1, tol), tol_fdt=tol)
        stepob("pexprb4" + tag, who, "pexprb4", lambda: R.pexprb4(t0, y0, h1, tol), tol_fdt=tol)
        stepob("epi2" + tag, who, "epi2", lambda: R.exprb2(t0, y0, h1, None), tol_fdt=tol)
        stepob("exprb2_pfd" + tag, who, "exprb2_pfd", lambda: R.exprb2(t0, y0, h1, tol), tol_fdt=tol)
        stepob("exprb2_dense" + tag, who, "exprb2_dense", lambda: R.exprb2(t0, y0, h1, None), tol_fdt=tol)
        stepob("exp_pfd" + tag, who, "exp_pfd", lambda: dot(phi(0, scale(h1, F.jac(t0, y0, p_))), y0), tol_fdt=tol)
        stepob("epi3" + tag, who, "epi3", lambda: R2.epi3(t0 + h1, R.exprb3(t0, y0, h1, tol), h2, t0, y0), nst=2, tol_fdt=tol)
        for m, f in (("exprb2", lambda: R.exprb2(t0, y0, h1, tol)), ("exprb3", lambda: R.exprb3(t0, y0, h1, tol)), ("epi2", lambda: R.exprb2(t0, y0, h1, None)),
                     ("exprb2_pfd", lambda: R.exprb2(t0, y0, h1, tol)), ("exprb2_dense", lambda: R.exprb2(t0, y0, h1, None))):
            stepob("%s%s repeated with other parameters" % (m, tag), who, m, f, discard=True, tol_fdt=tol)
        # the Leja methods solve the same linearised problem
        for m in ("epi2_leja_re", "epi2_leja_im"):
            stepob(m + tag, LE if not tag else ("ExpLejaIntegrator",) + UJ[1:], m, lambda: R.exprb2(t0, y0, h1, None))
    stepob("epi3_leja_im", LE, "epi3_leja_im", lambda: R2.epi3(t0 + h1, R.exprb2(t0, y0, h1, None), h2, t0, y0), nst=2)
    stepob("epi2_leja_im repeated with other parameters", LE, "epi2_leja_im", lambda: R.exprb2(t0, y0, h1, None), discard=True)
    stepob("rk4 repeated with other parameters", ("RKIntegrator", "orma_stub", "KwSys"), "rk4", lambda: rk4_ref(PF(F, p_), t0, y0, h1), mod=EXPLICIT, discard=True)
    stepob("rk4", ("RKIntegrator", "orma_stub", "KwSys"), "rk4", lambda: rk4_ref(PF(F, p_), t0, y0, h1), mod=EXPLICIT)
    stepob("exp1", SP, "exp1", lambda: SR.exp1(t0, y0, h1))
    stepob("exp1_dense", SP, "exp1_dense", lambda: SR.exp1(t0, y0, h1))
    for m in ("exp2", "exp2_dense"):
        stepob(m, SP, m, [("c2=%s" % c, lambda c=c: SR.exp2(t0, y0, h1, c)) for c in C2S])
    for m in ("exp3", "exp3_dense"):
        stepob(m, SP, m, [("c2=%s" % c, lambda c=c: SR.exp3(t0, y0, h1, c)) for c in C2S])


class PF:
    """a field with its parameter fixed"""

    def __init__(self, F, p):
        self.F, self.p = F, p

    def at(self, t, y):
        return self.F.at(t, y, self.p)


def ite_sum(u):
    s = 0
    for x in obj(u).reshape(-1):
        s = add(s, terms.absv(x))
    return terms.ite(terms.lt(0, s), s, 1)
