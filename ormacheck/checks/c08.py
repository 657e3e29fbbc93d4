"""Re-initialising an integrator is equivalent to a new one."""
from .common import *
from .c07 import EXPLICIT


def run(ctx):
    n = 2
    F = Field("F", n)
    t0, t1 = S("t0"), S("t1")
    h1, h2 = S("h1", range=(0.05, 0.5)), S("h2", range=(0.05, 0.5))
    y0, z0 = vec("y", n), vec("z", n)
    fams = [(EXP, "ExpRBIntegrator", "UserSys", m, {"tol_fdt": Fraction(-1)}) for m in ("exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exprb2_dense", "exprb2_pfd", "exp_pfd")]
    fams += [(EXP, "ExpRBIntegrator", "UserSys", m, {"tol_fdt": Fraction(0)}) for m in ("exprb2", "exprb3", "exprb2_pfd")]
    fams += [(EXPLICIT, "RKIntegrator", "UserSys", "rk4", {})]
    fams += [(EXP, "ExpSplitIntegrator", "SplitSys", m, {}) for m in ("exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense")]
    fams += [(EXP, "ExpLejaIntegrator", "UserSys", m, {}) for m in ("epi2_leja_re", "epi2_leja_im", "epi3_leja_im")]

    def conv(p):
        return any(c.op == "bapp" and not v for c, v in p.decisions.items())
    # a negative entry is a step that is computed and discarded
    D = -1
    cases = [("new time and state, after two steps", t1, z0, [h1, h1]),
             ("new state, initial time", t0, z0, [h1]),
             ("new time, initial state", t1, y0, [h1, h1]),
             ("initial time and state", t0, y0, [h1]),
             ("new state, current time", t0 + h1, z0, [h1]),
             ("new state, unchanged time, after a discarded step", t0, z0, [(D, h1)]),
             ("new time, unchanged state, after a discarded step", t1, y0, [(D, h1)]),
             ("unchanged time and state, after a discarded step", t0, y0, [(D, h2), (D, h1)])]
    if ctx.thorough:
        cases += [("before the first step", t1, z0, []), ("after three steps of changing size", t1, z0, [h1, h2, h1]),
                  ("same state after steps back to the same size", t0, z0, [h1, h2]),
                  ("new state, current time, after two steps", t0 + h1 + h2, z0, [h2, h1]),
                  ("after an accepted and a discarded step", t0 + h1, z0, [h1, (D, h1)]),
                  ("new time and state, after a discarded step", t1, z0, [h2, (D, h1)])]
    for mod, c, sysname, m, kw in fams:
        for label, ta, ya, hist in cases:
            def entry(used, c=c, mod=mod, sysname=sysname, m=m, kw=kw, ta=ta, ya=ya, hist=hist):
                def e(I):
                    if used:
                        integ, s = make(I, mod, c, sysname, t0, y0, m, **kw)
                        for h in hist:
                            steps(I, integ, [h[1]], accept=False) if isinstance(h, tuple) else steps(I, integ, [h])
                        I.call(I.getattr(integ, "reset_ic"), [ta, ya], {})
                    else:
                        integ, s = make(I, mod, c, sysname, ta, ya, m, **kw)
                    out = [{"time": I.getattr(integ, "time"), "cur": I.getattr(integ, "state")}]
                    return out + steps(I, integ, [h1, h2])
                return e
            memo = {}

            def ref(p, entry=entry, memo=memo):
                if conv(p):
                    return SKIP
                if "b" not in memo:
                    base, und = explore(entry(False), ctx.project, STEP_CONTRACTS, STUBS, setup=host(n, F), limit=48)
                    memo["b"] = [b for b in base if not isinstance(b.out, Raised)]
                for b in memo["b"]:
                    if all(p.decisions.get(cd, v) == v for cd, v in b.decisions.items() if cd.op != "bapp"):
                        return b.out
                return Undecidable("no matching partition")
            ctx.ob("%s%s: reset (%s) then step == new integrator" % (m, " with time derivative" if kw.get("tol_fdt") == 0 else "", label), entry(True), ref, STEP_CONTRACTS, host(n, F), stubs=STUBS, key="reset:" + m, nmodels=3, limit=64)
