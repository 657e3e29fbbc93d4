"""Step formulas of the exponential Rosenbrock and EPI integrators."""
from .common import *

LEVEL = "other"


def run(ctx):
    for n in (1, 2, 3, 4) if ctx.deep else (2, 3):
        F = Field("F", n)
        R = Ref(F)
        t0, h1, h2, tol = S("t0"), S("h1", range=(0.05, 0.5)), S("h2", range=(0.05, 0.5)), S("tol", range=(-0.5, 1.0))
        y0 = vec("y", n)
        hints = [{"tol": Fraction(-1)}, {"tol": Fraction(0)}, {"tol": Fraction(10)}]

        def go(name, method, nsteps, ref, cls="ExpRBIntegrator", **kw):
            if cls == "ExpRBIntegrator":
                kw["tol_fdt"] = tol

            def entry(I):
                integ, s = make(I, EXP, cls, "UserSys", t0, y0, method, **kw)
                return steps(I, integ, [h1, h2][:nsteps])[-1]
            ctx.ob("%s n=%d" % (name, n), entry, ref, STEP_CONTRACTS, host(n, F), hints, stubs=STUBS, key="formula:" + name)

        def one(fn):
            def ref(p):
                y = fn()
                return {"t": t0 + h1, "dt": h1, "y": outvec(y)}
            return ref
        go("exprb2", "exprb2", 1, one(lambda: R.exprb2(t0, y0, h1, tol)))
        go("exprb2_dense", "exprb2_dense", 1, one(lambda: R.exprb2(t0, y0, h1, None)))
        go("exprb2_pfd", "exprb2_pfd", 1, one(lambda: R.exprb2(t0, y0, h1, tol)))
        go("epi2", "epi2", 1, one(lambda: R.exprb2(t0, y0, h1, None)))
        go("exprb3", "exprb3", 1, one(lambda: R.exprb3(t0, y0, h1, tol)))
        go("pexprb4", "pexprb4", 1, one(lambda: R.pexprb4(t0, y0, h1, tol)))
        go("epi3-start", "epi3", 1, one(lambda: R.exprb3(t0, y0, h1, tol)))

        def ref2(p):
            u = R.exprb3(t0, y0, h1, tol)
            y = R.epi3(t0 + h1, u, h2, t0, y0)
            return {"t": t0 + h1 + h2, "dt": h2, "y": outvec(y)}
        go("epi3", "epi3", 2, ref2)

        # Leja variants: the same methods, or an error when the interpolation did not converge
        def conv(fn):
            def ref(p):
                if any(c.op == "bapp" and not v for c, v in p.decisions.items()):
                    return RAISES
                return fn(p)
            return ref
        for opts in ({}, {"leja_a": S("la", range=(-9, -1))}, {"leja_a": S("la", range=(-9, -1)), "leja_c": S("lc", positive=True)}):
            tag = "".join("+" + k for k in opts)
            for m in ("epi2_leja_re", "epi2_leja_im", "epi3_leja_im"):
                go(m + ("-start" if m[:4] == "epi3" else "") + tag, m, 1, conv(one(lambda: R.exprb2(t0, y0, h1, None))), cls="ExpLejaIntegrator", **opts)

            def ref3(p):
                u = R.exprb2(t0, y0, h1, None)
                return {"t": t0 + h1 + h2, "dt": h2, "y": outvec(R.epi3(t0 + h1, u, h2, t0, y0))}
            go("epi3_leja_im" + tag, "epi3_leja_im", 2, conv(ref3), cls="ExpLejaIntegrator", **opts)
