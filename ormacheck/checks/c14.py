"""Divided differences of exp (and phi_l) at shifted and scaled nodes; Taylor matrix exponential."""
from .common import *

PO = "ormatex_py.matexp_poly"


def divdiff(xs, fs):
    """Newton divided differences [x0..xi]f, by the textbook triangular table."""
    n = len(xs)
    t = list(fs)
    out = [t[0]]
    for k in range(1, n):
        t = [terms.div(terms.sub(t[i + 1], t[i]), terms.sub(xs[i + k], xs[i])) for i in range(n - k)]
        out.append(t[0])
    return out


def sphi(k, z):
    return obj(phi(k, oarr([z], (1, 1))))[0, 0]


def nodes(n, kind, lo=-1.5, hi=1.5):
    """distinct nodes: real, or conjugate pairs after a real one"""
    if kind == "real":
        xs = [S("x%d" % i, range=(lo, hi)) for i in range(n)]
        return xs, Arr(oarr(xs, (n,)), F64, "jnp")
    xs = [S("x0", range=(lo, hi))]
    while len(xs) < n:
        a, b = S("x%d" % len(xs), range=(lo, hi)), terms.mul(terms.I, S("y%d" % len(xs), range=(0.3, hi)))
        xs += [terms.add(a, b), terms.sub(a, b)]
    xs = xs[:n]
    return xs, Arr(oarr(xs, (n,)), C128, "jnp")


def con_expm_taylor(I, b):
    """exact: exp(shift) exp(scale A)"""
    I.events.append(("expm_taylor", b))
    return outvec(scale(terms.exp(b["shift"]), phi(0, scale(b["scale"], b["A"]))))


def taylor_expm(A, shift, sc, p):
    M, s = eye(obj(A).shape[0]), eye(obj(A).shape[0])
    for i in range(1, p + 1):
        M = scale(terms.mul(sc, Fraction(1, i)), dot(M, A))
        s = plus(s, M)
    return scale(terms.exp(shift), s)


def run(ctx):
    sh, sc, h = S("shift", range=(-1, 1)), S("scale", positive=True, range=(0.3, 1.6)), S("h", range=(0.2, 1))

    def arg(x, h_=h, sc_=sc):
        return terms.mul(h_, terms.add(sh, terms.mul(sc_, x)))
    N = 5 if ctx.deep else 4
    for kind in ("real", "complex"):
        for n in range(1, N + 1):
            xs, X = nodes(n, kind)
            ys = [S("f%d" % i) for i in range(n)]
            if kind == "real":
                ctx.ob("Newton divided differences n=%d" % n, lambda I: I.call(need(I, PO, "newton_poly_div_diff"), [X, Arr(oarr(ys, (n,)), F64, "jnp")], {}),
                       lambda p: arr(divdiff(xs, ys)), key="newton")
            want = lambda p: arr(divdiff(xs, [terms.exp(arg(x)) for x in xs]))
            want1 = lambda p: arr(divdiff(xs, [terms.exp(arg(x, 1)) for x in xs]))
            for fn, con in (("leja_coeffs_exp_dd", {}), ("leja_coeffs_exp", {}), ("dd_exp_taylor", {PO + ".expm_taylor": con_expm_taylor})):
                ctx.ob("%s, %s nodes n=%d" % (fn, kind, n), lambda I: I.call(need(I, PO, fn), [X, sh, sc, h], {}), want, contracts=con, key=fn, nmodels=4)
                ctx.ob("%s, default step fraction, %s nodes n=%d" % (fn, kind, n), lambda I: I.call(need(I, PO, fn), [X, sh, sc], {}), want1, contracts=con,
                       key=fn, nmodels=3)
            # any shift of the argument gives the same divided differences
            for mu in (0, S("mu", range=(0.1, 2))):
                ctx.ob("dd_exp_taylor with another centre, %s nodes n=%d" % (kind, n), lambda I: I.call(need(I, PO, "dd_exp_taylor"), [X, sh, sc, h], {"mu_scale": mu}),
                       want, contracts={PO + ".expm_taylor": con_expm_taylor}, key="dd_exp_taylor:centre", nmodels=3)
            if n <= 3:
                big = S("scale", positive=True, range=(0.3, 1.6))
                ctx.ob("accuracy of dd_exp_taylor, %s nodes n=%d" % (kind, n), lambda I: I.call(need(I, PO, "dd_exp_taylor"), [X, sh, sc, h], {}), want,
                       key="accuracy", tol=1e-8, mtol=1e-8, nmodels=4)
                wide_xs, wide = nodes(n, kind, -3, 3)
                wsc = S("wscale", positive=True, range=(1, 9))
                ctx.ob("accuracy of dd_exp_taylor, wide interval, %s nodes n=%d" % (kind, n), lambda I: I.call(need(I, PO, "dd_exp_taylor"), [wide, sh, wsc, h], {}),
                       lambda p: arr(divdiff(wide_xs, [terms.exp(arg(x, h, wsc)) for x in wide_xs])), key="accuracy", tol=1e-7, mtol=1e-7, nmodels=4)
    # Taylor exponential
    for n in (1, 2, 3):
        A = mat("a", n, range=(-1, 1))
        for p in (1, 2, 3, 5):
            ctx.ob("expm_taylor n=%d order %d" % (n, p), lambda I: I.call(need(I, PO, "expm_taylor"), [A, sh, sc], {"p": p}), lambda _: outvec(taylor_expm(A, sh, sc, p)),
                   key="taylor", nmodels=3)
        ctx.ob("expm_taylor accuracy n=%d" % n, lambda I: I.call(need(I, PO, "expm_taylor"), [A, sh, sc], {}), lambda _: outvec(scale(terms.exp(sh), phi(0, scale(sc, A)))),
               key="taylor", tol=1e-9, mtol=1e-9, nmodels=3)

    # experimental routines: truncated series in a neighbourhood of the origin
    for kind in ("real", "complex"):
        for n in (1, 2, 3, 4):
            xs, X = nodes(n, kind, -0.9, 0.9)
            for k in (0, 1, 2, 5) if n < 3 else (0, 1, 2):
                sub = {"k>0": k > 0}
                want = lambda p: arr(divdiff(xs, [sphi(k, arg(x)) for x in xs]))
                for fn in ("leja_coeffs_ts_phi", "leja_coeffs_ts_phi_jax"):
                    ctx.ob("%s k=%d, %s nodes n=%d" % (fn, k, kind, n), lambda I: I.call(need(I, PO, fn), [X, sh, sc, h, k], {}), want,
                           key="%s:%s" % (fn, "k>0" if k else "k=0"), tol=1e-8, mtol=1e-8, nmodels=3)

    def two(I):
        I.int_bound = 3
    # many squarings: strongly stretched intervals
    def many(I):
        I.int_bound = 12
    for n in (2, 3) if ctx.deep else (2,):
        xs, X = nodes(n, "real", -2, 2)
        Xn = Arr(obj(X), X.dt if hasattr(X, "dt") else F64, "np")
        for lo, hi in ((8, 20), (20, 45), (100, 160)):
            st = S("stretch%d" % lo, positive=True, range=(lo, hi))
            ctx.ob("dd_exp_taylor on an interval stretched %d to %d times, n=%d" % (lo, hi, n), lambda I: I.call(need(I, PO, "dd_exp_taylor"), [X, sh, st, 1], {}),
                   lambda p: arr(divdiff(xs, [terms.exp(arg(x, 1, st)) for x in xs])), key="accuracy:stretched", setup=many, unroll=18, tol=1e-7, mtol=1e-7, nmodels=4)
        st = S("stretch4", positive=True, range=(4, 9))
        zs = [arg(x, 1, st) for x in xs]
        for l in (0, 1):
            ctx.ob("leja_coeffs_dd_phi on a stretched interval l=%d n=%d" % (l, n), lambda I: I.call(need(I, PO, "leja_coeffs_dd_phi"), [Xn, sh, st, 1, l], {}),
                   lambda p: arr(divdiff(zs, [sphi(l, z) for z in zs])), key="leja_coeffs_dd_phi:stretched", setup=many, tol=1e-6, mtol=1e-6, nmodels=4)
    # more than twenty squarings / substeps
    def lots(I):
        I.int_bound = 26
    far = [S("x0", range=(-2, -1.9)), S("x1", range=(1.9, 2))]
    Xf = Arr(oarr(far, (2,)), F64, "np")
    st = S("stretch20", positive=True, range=(20, 20.5))
    zs = [arg(x, 1, st) for x in far]
    ctx.ob("leja_coeffs_dd_phi on an interval stretched 20 times", lambda I: I.call(need(I, PO, "leja_coeffs_dd_phi"), [Xf, sh, st, 1, 0], {}),
           lambda p: arr(divdiff(zs, [terms.exp(z) for z in zs])), key="leja_coeffs_dd_phi:stretched", setup=lots, tol=1e-6, mtol=1e-6, nmodels=4)
    ctx.ob("leja_coeffs_ts_phi_substep with 21 steps", lambda I: I.call(need(I, PO, "leja_coeffs_ts_phi_substep"), [Xf, sh, st, 0], {}),
           lambda p: arr(divdiff(far, [terms.exp(arg(x, 1, st)) for x in far])), key="leja_coeffs_ts_phi_substep:k=0", setup=lots, unroll=30, tol=1e-6, mtol=1e-6, nmodels=4)
    # long sequences (literal nodes): as many coefficients as nodes, and the first ones are right
    for n in (31, 50) if ctx.deep else (31,):
        lit = [terms.num(Fraction((7 * i) % n, n)) for i in range(n)]
        ys = [S("f%d" % i) for i in range(n)]
        ctx.ob("Newton divided differences, %d nodes" % n, lambda I: I.call(need(I, PO, "newton_poly_div_diff"), [Arr(oarr(lit, (n,)), F64, "jnp"), Arr(oarr(ys, (n,)), F64, "jnp")], {}),
               lambda p: arr(divdiff(lit, ys)), key="newton", nmodels=2)
    def once(I):
        I.int_bound = 1
    for n in (33,):
        lit = [terms.num(Fraction(2 * i, n) - 1) for i in range(n)]
        Xl = Arr(oarr(lit, (n,)), F64, "np")
        small = S("h", range=(0.2, 1))
        for l in (0, 1) if ctx.deep else (0,):
            ctx.ob("leja_coeffs_dd_phi with %d nodes, l=%d" % (n, l),
                   lambda I: (lambda r: (tuple(obj(r).shape), arr(list(obj(r)[:4]))))(I.call(need(I, PO, "leja_coeffs_dd_phi"), [Xl, 0, 1, small, l], {})),
                   lambda p: ((n,), arr(divdiff([terms.mul(small, x) for x in lit[:4]], [sphi(l, terms.mul(small, x)) for x in lit[:4]]))),
                   key="leja_coeffs_dd_phi:long", setup=once, tol=1e-7, mtol=1e-7, nmodels=3)
    # experimental routines in the variable z = h (shift + scale x); series and squaring
    for kind in ("real", "complex"):
        for n in (1, 2, 3) if ctx.deep else (1, 2):
            xs, X = nodes(n, kind, -2, 2)
            Xn = Arr(obj(X), X.dt if hasattr(X, "dt") else F64, "np")
            zs = [arg(x) for x in xs]
            for l in (0, 1, 2):
                want = lambda p: arr(divdiff(zs, [sphi(l, z) for z in zs]))
                if n + l <= 3 and (kind == "real" or n + l <= 2) or ctx.deep:
                    ctx.ob("leja_coeffs_dd_phi l=%d, %s nodes n=%d" % (l, kind, n), lambda I: I.call(need(I, PO, "leja_coeffs_dd_phi"), [Xn, sh, sc, h, l], {}), want,
                           key="leja_coeffs_dd_phi", setup=two, tol=1e-7, mtol=1e-7, nmodels=3)
                if kind == "real":
                    ctx.ob("leja_coeffs_ts_ss l=%d, %s nodes n=%d" % (l, kind, n), lambda I: I.call(need(I, PO, "leja_coeffs_ts_ss"), [Xn, sh, sc, h, l], {}), want,
                           key="leja_coeffs_ts_ss:%s" % ("l>0" if l else "l=0"), tol=1e-7, mtol=1e-7, nmodels=3)
                    s2 = S("scale", positive=True, range=(0.3, 1.6))
                    want2 = lambda p: arr(divdiff(xs, [sphi(l, arg(x, 1)) for x in xs]))
                    ctx.ob("leja_coeffs_ts_phi_substep k=%d, %s nodes n=%d" % (l, kind, n),
                           lambda I: I.call(need(I, PO, "leja_coeffs_ts_phi_substep"), [Xn, sh, sc, l], {}), want2,
                           key="leja_coeffs_ts_phi_substep:%s" % ("k>0" if l else "k=0"), tol=1e-6, mtol=1e-6, nmodels=3)
