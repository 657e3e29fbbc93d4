"""Step formulas of the split (exponential Runge-Kutta) integrators, Krylov and dense."""
from .common import *


def run(ctx):
    n = 2
    F = Field("F", n)
    t0, h1, h2 = S("t0"), S("h1", range=(0.05, 0.5)), S("h2", range=(0.05, 0.5))
    y0 = vec("y", n)

    def Lfun(t, y):
        args = [t] + list(obj(y).reshape(-1))
        return oarr([app("L", i, args) for i in range(n * n)], (n, n))
    Lc = mat("L", n)
    R = SplitRef(F, Lfun)
    RC = SplitRef(F, lambda t, y: obj(Lc))

    def entry(method, seq):
        def e(I):
            integ, s = make(I, EXP, "ExpSplitIntegrator", "SplitSys", t0, y0, method)
            return steps(I, integ, seq)
        return e

    def chain(stepfn, seq):
        def ref(p):
            out, t, y = [], t0, y0
            for h in seq:
                y = stepfn(t, y, h)
                t = t + h
                out.append(tri(t, h, y))
            return out
        return ref
    for m in ("exp1", "exp2", "exp3"):
        for kind, RR, setup, suffix in (("krylov", R, host(n, F), ""), ("dense", RC, host(n, F, L=Lc), "_dense")):
            # also back and forth, and a size that returns after others
            seqs = [[h1], [h1, h2], [h1, -h1]] + ([[h1, h1, h2]] if kind == "krylov" else [[h1, h2, h1], [h1, h1, h2], [h1, h1 / 2, h1]])
            if ctx.deep:
                seqs += [[h1, h2, h1 / 3], [h1, h1, h1, h2, h1]]
            if m == "exp1":
                fns = [("", RR.exp1)]
            else:
                fns = [("c2=%s" % c, (lambda c, f: lambda t, y, h: f(t, y, h, c))(c, getattr(RR, m))) for c in C2S]
            for seq in seqs:
                any_of(ctx, "%s%s steps=%s" % (m, suffix, ",".join(terms.show(x, 4) for x in seq)), entry(m + suffix, seq),
                       [(lb, chain(fn, seq)) for lb, fn in fns], contracts=STEP_CONTRACTS, setup=setup, stubs=STUBS,
                       key="formula:" + m + suffix, nmodels=3)
