"""Exactness on linear problems y' = A y + b + c t (exponential integrators)."""
from .common import *


def run(ctx):
    n = 2
    t0, h1, h2 = S("t0"), S("h1", range=(0.05, 0.6)), S("h2", range=(0.05, 0.6))
    y0, A, b, c = vec("y", n), mat("A", n), vec("b", n), vec("c", n)
    z = Arr(zeros(n), F64, "jnp")

    def exact(t, y, h, b_, c_):
        Z = scale(h, A)
        g = plus(b_, scale(t, c_))
        return plus(dot(phi(0, Z), y), scale(h, dot(phi(1, Z), g)), scale(h * h, dot(phi(2, Z), c_)))

    def go(label, mod, clsname, sysname, method, b_, c_, seq, **kw):
        def entry(I):
            cls = need(I, mod, clsname)
            s = I.call(need(I, "orma_stub", sysname), [A, b_, c_], {})
            integ = I.call(cls, [s, t0, y0], dict(kw, method=method))
            return steps(I, integ, seq)

        def ref(p):
            for cond, v in p.decisions.items():
                if cond.op == "bapp" and not v:
                    return SKIP
            out, t, y = [], t0, y0
            for h in seq:
                y = exact(t, y, h, b_, c_)
                t = t + h
                out.append(tri(t, h, y))
            return out
        ctx.ob(label, entry, ref, STEP_CONTRACTS, host(n), stubs=STUBS, key="linear-exact:" + method, nmodels=4)
    RB, SP, LJ = "ExpRBIntegrator", "ExpSplitIntegrator", "ExpLejaIntegrator"
    for m in ("exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exprb2_dense", "exprb2_pfd"):
        # tolerance zero: any non-zero time derivative is corrected for
        go(m + " A y + b + c t", EXP, RB, "LinSys", m, b, c, [h1, h2], tol_fdt=0)
        go(m + " A y + b", EXP, RB, "LinSys", m, b, z, [h1, h2])
    go("exp_pfd A y", EXP, RB, "LinSys", "exp_pfd", z, z, [h1, h2])
    for m in ("exp2", "exp3", "exp2_dense", "exp3_dense"):
        go(m + " A y + b + c t", EXP, SP, "LinSplitSys", m, b, c, [h1, h2])
    for m in ("exp1", "exp1_dense"):
        go(m + " A y + b", EXP, SP, "LinSplitSys", m, b, z, [h1, h2])
    for m in ("epi2_leja_re", "epi2_leja_im", "epi3_leja_im"):
        go(m + " A y + b + c t", EXP, LJ, "LinSys", m, b, c, [h1, h2])
