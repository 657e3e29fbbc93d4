"""Start-up of multistep methods and the history they use."""
from .common import *


def run(ctx):
    n = 2
    F = Field("F", n)
    R = Ref(F)
    t0 = S("t0")
    hs = [S("h%d" % i, range=(0.05, 0.5)) for i in range(6)]
    y0 = vec("y", n)

    def epi3_chain(start, k):
        out, hist, t, y = [], [(t0, obj(y0))], t0, obj(y0)
        for i in range(k):
            y = start(t, y, hs[i]) if i == 0 else R.epi3(t, y, hs[i], *hist[-2])
            t = t + hs[i]
            hist.append((t, y))
            out.append(tri(t, hs[i], y))
        return out
    K = 6 if ctx.deep else 5

    def entry_rb(I):
        integ, s = make(I, EXP, "ExpRBIntegrator", "UserSys", t0, y0, "epi3", tol_fdt=Fraction(-1))
        return steps(I, integ, hs[:K])
    any_of(ctx, "epi3: starts one-step, then uses exactly the previous accepted state", entry_rb,
           [("exprb3", lambda p: epi3_chain(lambda t, y, h: R.exprb3(t, y, h, Fraction(-1)), K)),
            ("exprb2", lambda p: epi3_chain(lambda t, y, h: R.exprb2(t, y, h, None), K))],
           contracts=STEP_CONTRACTS, setup=host(n, F), stubs=STUBS, key="history:epi3", nmodels=3)

    def entry_lj(I):
        integ, s = make(I, EXP, "ExpLejaIntegrator", "UserSys", t0, y0, "epi3_leja_im")
        return steps(I, integ, hs[:K])

    def ref_lj(start):
        def ref(p):
            if any(c.op == "bapp" and not v for c, v in p.decisions.items()):
                return SKIP
            return epi3_chain(start, K)
        return ref
    any_of(ctx, "epi3_leja_im: starts one-step, then uses exactly the previous accepted state", entry_lj,
           [("epi2", ref_lj(lambda t, y, h: R.exprb2(t, y, h, None))), ("exprb3", ref_lj(lambda t, y, h: R.exprb3(t, y, h, Fraction(-1))))],
           contracts=STEP_CONTRACTS, setup=host(n, F), stubs=STUBS, key="history:epi3_leja_im", nmodels=3)

    # a step that is not accepted leaves no trace; accepting moves time and state
    fams = [("ExpRBIntegrator", EXP, "UserSys", "epi3", {"tol_fdt": Fraction(-1)}), ("ExpRBIntegrator", EXP, "UserSys", "exprb2", {"tol_fdt": Fraction(-1)}),
            ("ExpRBIntegrator", EXP, "UserSys", "exprb2", {"tol_fdt": Fraction(0)}), ("ExpRBIntegrator", EXP, "UserSys", "exprb3", {"tol_fdt": Fraction(0)}),
            ("ExpRBIntegrator", EXP, "UserSys", "pexprb4", {"tol_fdt": Fraction(-1)}),
            ("ExpRBIntegrator", EXP, "UserSys", "exprb2_dense", {}), ("ExpRBIntegrator", EXP, "UserSys", "exprb2_pfd", {}),
            ("RKIntegrator", EXPLICIT, "UserSys", "rk4", {}), ("ExpSplitIntegrator", EXP, "SplitSys", "exp2", {}),
            ("ExpSplitIntegrator", EXP, "SplitSys", "exp3_dense", {}), ("ExpLejaIntegrator", EXP, "UserSys", "epi2_leja_re", {}),
            ("ExpLejaIntegrator", EXP, "UserSys", "epi3_leja_im", {})]
    Lc = mat("L", n)
    for c, mod, sysname, m, kw in fams:
        def rejected(reject):
            def entry(I):
                integ, s = make(I, mod, c, sysname, t0, y0, m, **kw)
                out = []
                for k in range(3):
                    if reject:
                        I.call(I.getattr(integ, "step"), [hs[5]], {})
                    r = I.call(I.getattr(integ, "step"), [hs[k]], {})
                    out.append(stepres(I, r))
                    I.call(I.getattr(integ, "accept_step"), [r], {})
                    out.append({"time": I.getattr(integ, "time"), "cur": I.getattr(integ, "state")})
                return out
            return entry
        base, _ = explore(rejected(False), ctx.project, STEP_CONTRACTS, STUBS, setup=host(n, F, L=Lc), limit=32)
        base = [b for b in base if not isinstance(b.out, Raised)]
        if len(base) < 1:
            ctx.note_undecided("accept/reject " + m, "no partition")
            continue

        def ref(p, base=base):
            if any(cd.op == "bapp" and not v for cd, v in p.decisions.items()):
                return SKIP
            # partitions of the reference run on conditions this run never asks: take the generic one
            match = [b for b in base if all(p.decisions.get(cd, v) == v for cd, v in b.decisions.items() if cd.op != "bapp")]
            match.sort(key=lambda b: sum(1 for cd, v in b.decisions.items() if cd not in p.decisions and cd.op == "eq" and v))
            for b in match[:1]:
                out = []
                for k in range(3):
                    s = b.out[2 * k]
                    out += [s, {"time": s["t"], "cur": s["y"]}]
                return out
            return Undecidable("no matching partition")
        ctx.ob("%s: unaccepted steps leave no trace; accepting moves time and state" % m, rejected(True), ref, STEP_CONTRACTS, host(n, F, L=Lc),
               stubs=STUBS, key="accept:" + m, nmodels=3)
