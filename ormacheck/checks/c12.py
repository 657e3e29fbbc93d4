"""Krylov evaluations: exact on the full space, homogeneous, zero for zero, sums of phi-actions."""
from .common import *
from .c11 import STUB_OP, hessenberg

KR = "ormatex_py.matexp_krylov"
PHC = {k: v for k, v in STEP_CONTRACTS.items() if k.startswith("ormatex_py.matexp_phi.")}
MC = dict(PHC)
MC[KR + ".matexp_linop"] = con_matexp_linop
MC[KR + ".phi_linop"] = con_phi_linop


def run(ctx):
    dt = S("dt", range=(0.2, 1.2))
    stubs = dict(STUBS, **STUB_OP)

    def op(I, A):
        return I.call(need(I, "orma_op", "mk"), [Arr(obj(A), F64, "jnp")], {})
    for n in (1, 2, 3):
        A = mat("a", n, range=(-1, 1))
        v = vec("v", n, range=(0.2, 1.5))
        for k in range(0, 4):
            for m in ((n, n + 3) if n < 3 else (n,)):
                if n == 3 and k > 1 and not ctx.thorough:
                    continue
                ctx.ob("phi_%d(dt A)v, full space n=%d m=%d" % (k, n, m),
                       lambda I: I.call(need(I, KR, "phi_linop"), [op(I, A), dt, v, k, m], {"iom": 100}),
                       lambda p: outvec(dot(phi(k, scale(dt, A)), v)), contracts=PHC, stubs=stubs, nmodels=3, key="krylov-full")
        for m in (n, n + 3):
            ctx.ob("exp(dt A)v, full space n=%d m=%d" % (n, m),
                   lambda I: I.call(need(I, KR, "matexp_linop"), [op(I, A), dt, v, m], {}),
                   lambda p: outvec(dot(phi(0, scale(dt, A)), v)), contracts=PHC, stubs=stubs, nmodels=3, key="krylov-exp")
        z = Arr(zeros(n), F64, "jnp")
        for k in range(0, 4):
            ctx.ob("phi_%d(dt A)0 n=%d" % (k, n), lambda I: I.call(need(I, KR, "phi_linop"), [op(I, A), dt, z, k, n], {}),
                   lambda p: outvec(zeros(n)), contracts=PHC, stubs=stubs, nmodels=2, key="krylov-zero")
    # sizes beyond the sampled ones, default window: Hessenberg operator from the first unit vector
    for n in (6, 9) if ctx.deep else (7,):
        Hm = hessenberg(n)
        b1 = Arr(oarr([S("beta", range=(0.2, 1.5))] + [0] * (n - 1), (n,)), F64, "jnp")
        for m in (n, n + 2):
            ctx.ob("exp(dt A)v, full space, Hessenberg operator n=%d m=%d" % (n, m), lambda I: I.call(need(I, KR, "matexp_linop"), [op(I, Hm), dt, b1, m], {}),
                   lambda p: outvec(dot(phi(0, scale(dt, Hm)), b1)), contracts=PHC, stubs=stubs, nmodels=2, key="krylov-hessenberg")
            ctx.ob("phi_2(dt A)v, full space, Hessenberg operator n=%d m=%d" % (n, m), lambda I: I.call(need(I, KR, "phi_linop"), [op(I, Hm), dt, b1, 2, m], {}),
                   lambda p: outvec(dot(phi(2, scale(dt, Hm)), b1)), contracts=PHC, stubs=stubs, nmodels=2, key="krylov-hessenberg")
    # homogeneity below the full dimension, with the same subspace
    n = 3
    A, v = mat("a", n, range=(-1, 1)), vec("v", n, range=(0.2, 1.5))
    for c, lab in ((S("c", range=(0.3, 4)), "c>0"), (S("cn", range=(-4, -0.3)), "c<0"), (Fraction(1, 10 ** 9), "c=1e-9"),
                   (Fraction(1, 10 ** 25), "c=1e-25"), (Fraction(10 ** 25), "c=1e25")):
        for m in (1, 2):
            for k in (0, 1, 2):
                def entry(I):
                    f = need(I, KR, "phi_linop")
                    a = I.call(f, [op(I, A), dt, Arr(scale(c, v), F64, "jnp"), k, m], {"iom": 100})
                    I.base = I.call(f, [op(I, A), dt, v, k, m], {"iom": 100})
                    return outvec(scale(terms.div(1, c), obj(a)))

                def ref(p):
                    return outvec(obj(p.I.base)) if not isinstance(p.out, Raised) else outvec(zeros(n))
                ctx.ob("homogeneous in v: %s m=%d k=%d" % (lab, m, k), entry, ref, contracts=PHC, stubs=stubs, nmodels=3, key="krylov-homogeneous")
    # sums of phi-actions through the augmented operator
    for n in (1, 2, 3):
        A = mat("a", n, range=(-1, 1))
        for p_ in (1, 2, 3) if n > 2 else (1, 2, 3, 4, 5):
            masks = range(0, 2 ** (p_ + 1)) if p_ < 4 or ctx.deep and n == 1 else \
                [0] + [2 ** (p_ + 1) - 1 - 2 ** j for j in range(p_ + 1)] + [2 ** j for j in range(p_ + 1)]
            for zmask in masks:
                bs = [Arr(zeros(n), F64, "jnp") if zmask >> j & 1 else vec("b%d_" % j, n, range=(-1.5, 1.5)) for j in range(p_ + 1)]

                def ref(p):
                    s = zeros(n)
                    for j, b in enumerate(bs):
                        if not zmask >> j & 1:
                            s = plus(s, dot(phi(j, scale(dt, A)), b))
                    return outvec(s)
                ctx.ob("sum of phi-actions n=%d p=%d zeros=%s" % (n, p_, bin(zmask)[2:]),
                       lambda I: I.call(need(I, KR, "kiops_fixedsteps"), [op(I, A), dt, list(bs), 100], {}),
                       ref, contracts=MC, stubs=stubs, nmodels=2, key="kiops")
    # end to end through the real Arnoldi process
    n, A = 2, mat("a", 2, range=(-1, 1))
    bs = [vec("b%d_" % j, n, range=(0.3, 1.5)) for j in range(2)]
    ctx.ob("sum of phi-actions end to end n=2 p=1", lambda I: I.call(need(I, KR, "kiops_fixedsteps"), [op(I, A), dt, list(bs), 100], {}),
           lambda p: outvec(plus(dot(phi(0, scale(dt, A)), bs[0]), dot(phi(1, scale(dt, A)), bs[1]))), contracts=PHC, stubs=stubs, nmodels=2, key="kiops-full")
    # the extended operator of the Leja integrators: the top of exp(A~)v is the sum of phi-actions
    from ..theory import op_matrix
    for n in (1, 2):
        A = mat("a", n, range=(-1, 1))
        for p_ in (1, 2, 3, 4, 6):
            bs = [vec("b%d_" % j, n, range=(-1.5, 1.5)) for j in range(p_ + 1)]

            def entry(I):
                op_, v, nn = I.iterate(I.call(need(I, "ormatex_py.matexp_leja", "build_a_tilde"), [op(I, A), dt, list(bs)], {}))
                N = len(obj(v).reshape(-1))
                M = op_matrix(I, op_, N)
                return {"n": nn, "N": N, "top": list(dot(phi(0, M), v)[:n])}

            def ref(p):
                s = zeros(n)
                for j, b in enumerate(bs):
                    s = plus(s, dot(phi(j, scale(dt, A)), b))
                return {"n": n, "N": n + p_, "top": list(s)}
            ctx.ob("extended operator n=%d p=%d" % (n, p_), entry, ref, contracts=MC, stubs=stubs, nmodels=3, key="a-tilde")
