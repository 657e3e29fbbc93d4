"""Newton-Leja evaluations: truncated Newton form of the operator, honest convergence flag, exhausted nodes."""
from .common import *
from .c11 import STUB_OP

LJ = "ormatex_py.matexp_leja"
STB = dict(STUBS, **STUB_OP)


def pick(i, values, lo):
    """values[k] for i == lo + k"""
    r = values[-1]
    for k in range(len(values) - 2, -1, -1):
        r = terms.ite(terms.le(i, lo + k), values[k], r)
    return r


def nrm(v):
    s = 0
    for x in obj(v).reshape(-1):
        s = terms.add(s, terms.power(x, 2))
    return terms.sqrt(s)


def newton(A, dt, u, sh, sc, xs, cs, count):
    """partial sums of the Newton form; for complex nodes the real part (real operator, real vector)"""
    n = len(obj(u))
    re, im = obj(u), zeros(n)
    ps, sums, acc = [], [], zeros(n)
    Z = scale(dt, A)

    def rpart(c):
        return terms.real(c), terms.imag(c)
    for j in range(count):
        cr, ci = rpart(cs[j])
        acc = plus(acc, minus(scale(cr, re), scale(ci, im)))
        sums.append(acc)
        ps.append((re, im))
        if j + 1 < count:
            z = terms.add(sh, terms.mul(sc, xs[j]))
            zr, zi = rpart(z)
            inv = terms.div(1, sc)
            # (Z - z)(re + i im)/sc
            nre = scale(inv, plus(minus(dot(Z, re), scale(zr, re)), scale(zi, im)))
            nim = scale(inv, minus(minus(dot(Z, im), scale(zr, im)), scale(zi, re)))
            re, im = nre, nim
    return sums, ps


def gsel(i, seqs, lo):
    n = len(seqs[0])
    return [pick(i, [s[k] for s in seqs], lo) for k in range(n)]


def run(ctx):
    dims = (1, 2, 3, 4) if ctx.deep else (1, 2, 3)
    dt, tol, ab = S("dt", range=(0.2, 1)), S("tol", positive=True, range=(0.02, 0.9)), S("abort", positive=True, range=(0.5, 5))
    sh, sc = S("shift", range=(-0.6, 0.6)), S("scale", positive=True, range=(0.4, 1.5))
    small = [{"tol": 1e-6, "abort": 1e6}, {"tol": 0.05, "abort": 1e6}, {"tol": 0.3, "abort": 1e4}, {"tol": 0.5, "abort": 1.5}]

    def one(name, fn, n, xs, cs, args, estimates, key, has_abort=True, tail=1, used=0):
        """`tail`: nodes that may stay unused; `used`: returned count minus number of terms"""
        m = len(xs)
        A = mat("a", n, range=(-1.2, 1.2))
        u = vec("u", n, range=(-1.5, 1.5))
        X = Arr(oarr(xs, (m,)), C128 if args.get("complex") else F64, "jnp")
        C = Arr(oarr(cs, (m,)), C128 if args.get("complex") else F64, "jnp")

        def entry(I):
            f = need(I, LJ, fn)
            op = I.call(need(I, "orma_op", "mk"), [A], {})
            a = [op, dt, u, sh, sc, X] + args.get("extra", []) + [C, tol]
            r = list(I.iterate(I.call(f, a + ([ab] if has_abort else []), {})))
            w, i, cv = r
            i = i.a.reshape(-1)[0] if isinstance(i, Arr) else i
            cv = cv.a.reshape(-1)[0] if isinstance(cv, Arr) else cv
            cv = terms.truthy(cv) if isinstance(cv, terms.T) else bool(cv)
            if i.__class__ is Fraction:
                i = int(i)
            i = terms.sub(i, used) if used else i
            sums, ps = newton(A, dt, u, sh, sc, xs, cs, m)
            want = gsel(i, sums, 1)
            nu = nrm(u)
            out = {"shape": tuple(obj(w).shape), "newton": list(minus(w, oarr(want, (n,))))}
            est = estimates(ps, nu, m)
            e = pick(i, est, 1)
            # a reported convergence is backed by the estimate; the zero vector is exact
            out["honest"] = terms.ite(cv, terms.lor(terms.lt(e, terms.mul(tol, nu)), terms.eq(nu, 0)), True)
            # without convergence it goes on until the nodes are used up or the estimate blows up
            blow = terms.lt(terms.mul(ab if has_abort else 1000, nu), e) if has_abort else terms.le(terms.mul(1000, nu), e)
            out["exhausts"] = terms.ite(cv, True, terms.lor(terms.le(m - tail, i), blow))
            return out

        def ref(p):
            return {"shape": (n,), "newton": [0] * n, "honest": True, "exhausts": True}
        ctx.ob(name, entry, ref, stubs=STB, key=key, hints=small + ([{"tol": 1e-60, "abort": 1e60}] if m > 10 else []), nmodels=16, unroll=m + 2)

    def est_real(cs):
        def f(ps, nu, m):
            e = terms.mul(2, nu)
            out = [e]
            for j in range(1, m):
                e = terms.sqrt(terms.mul(terms.mul(terms.absv(cs[j]), nrm(ps[j][0])), e))
                out.append(e)
            return out
        return f

    def qvecs(A, u, xs, nr, m):
        """real vectors the error estimate is made of: (Z - Re x) recurrences"""
        Z = scale(dt, A)
        v = obj(u)
        out = [v]
        inv = terms.div(1, sc)

        def red(x):
            return terms.real(terms.add(sh, terms.mul(sc, x)))
        j = 1
        while j <= min(nr, m - 1):
            v = scale(inv, minus(dot(Z, v), scale(red(xs[j - 1]), v)))
            out.append(v)
            j += 1
        while j + 1 < m:
            q = scale(inv, minus(dot(Z, v), scale(red(xs[j - 1]), v)))
            b = terms.imag(xs[j - 1])
            w = plus(scale(inv, minus(dot(Z, q), scale(red(xs[j - 1]), q))), scale(terms.power(b, 2), v))
            out += [q, w]
            v = w
            j += 2
        while len(out) < m:
            out.append(v)
        return out

    for n in dims:
        for m in list(range(1, 11 if ctx.deep else 7)) + ([26] if n == 1 else []):
            xs = [S("x%d" % j, range=(-1.5, 1.5)) for j in range(m)]
            cs = [S("c%d" % j, range=(-0.6, 0.6)) for j in range(m)]
            one("real Newton-Leja n=%d nodes=%d" % (n, m), "real_leja_expmv", n, xs, cs, {}, est_real(cs), "real")
            one("conjugate routine on real nodes only n=%d nodes=%d" % (n, m), "complex_conj_leja_expmv", n, xs, cs, {"extra": [m]}, est_real(cs), "conj-real")
    im = terms.I
    for n in dims:
        A = mat("a", n, range=(-1.2, 1.2))
        u = vec("u", n, range=(-1.5, 1.5))
        for nr, m in ((1, 3), (2, 4), (1, 4), (2, 5), (1, 5), (2, 6)) + (((2, 24),) if n == 1 else ()) + (((0, 4), (3, 7), (2, 8)) if ctx.thorough else ((0, 2),)):
            xs = [S("x%d" % j, range=(-1.5, 1.5)) for j in range(nr)]
            while len(xs) < m:
                a, b = S("x%d" % len(xs), range=(-1.2, 1.2)), terms.mul(im, S("y%d" % len(xs), range=(0.3, 1.5)))
                xs += [terms.add(a, b), terms.sub(a, b)]
            xs = xs[:m]
            # divided differences of a real function over complete pairs are real, the others complex
            cs = []
            for j in range(m):
                r = S("c%d" % j, range=(-0.6, 0.6))
                if j >= nr and (j - nr) % 2 == 0:
                    r = terms.add(r, terms.mul(im, S("d%d" % j, range=(-0.6, 0.6))))
                cs.append(r)
            qs = qvecs(A, u, xs, nr, m)

            def est(ps, nu, m, cs=cs, qs=qs):
                e = terms.mul(2, nu)
                out = [e]
                for j in range(1, m):
                    e = terms.sqrt(terms.mul(terms.mul(terms.absv(terms.real(cs[j])), nrm(qs[j])), e))
                    out.append(e)
                return out
            one("conjugate Newton-Leja n=%d nodes=%d real=%d" % (n, m, nr), "complex_conj_leja_expmv", n, xs, cs,
                {"extra": [nr], "complex": True}, est, "conj", tail=1)
        for m in ((3, 5, 7) if n > 1 else (3, 5, 7, 23)):
            xs = [0]
            while len(xs) < m:
                b = terms.mul(im, S("y%d" % len(xs), range=(0.3, 1.5)))
                xs += [b, terms.mul(-1, b)]
            cs = []
            for j in range(m):
                r = S("c%d" % j, range=(-0.6, 0.6))
                if j % 2 == 1:
                    r = terms.add(r, terms.mul(im, S("d%d" % j, range=(-0.6, 0.6))))
                cs.append(r)
            qs = qvecs(A, u, xs, 1, m)

            def est_i(ps, nu, m, cs=cs, qs=qs):
                out = [terms.mul(100, nu)]
                for j in range(1, m):
                    if j % 2 == 1:
                        out.append(out[-1])
                    else:
                        out.append(terms.add(terms.mul(nrm(qs[j]), terms.absv(cs[j])), terms.mul(terms.absv(terms.real(cs[j - 1])), nrm(qs[j - 1]))))
                return out
            one("imaginary conjugate Newton-Leja n=%d nodes=%d" % (n, m), "complex_conj_imag_leja_expmv", n, xs, cs,
                {"complex": True}, est_i, "conj-imag", has_abort=False, tail=2, used=1)
