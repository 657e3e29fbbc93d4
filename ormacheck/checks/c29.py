"""Native (Rust) matrix functions: Arnoldi, Krylov actions, dense exponential and phi functions, partial fractions, operators."""
from .. import terms as _terms
from .native import *
from .c11 import moving

RULE = "translated from src/*.rs and evaluated symbolically: every evaluation equals the matrix function it is named after"


def run(ctx):
    st, bad = stubs_for(ctx)
    if missing(ctx, ["arnoldi", "matexp_krylov", "matexp_pade", "matexp_cauchy", "mat_utils", "ode_sys"]):
        return
    F = Aut("F", 2)
    ob = lambda name, e, r, **kw: ctx.ob(name, e, lambda p: r, stubs=st, setup=nsetup(F), **kw)
    arnoldi(ctx, ob)
    krylov(ctx, ob, st)
    dense(ctx, ob)
    fractions(ctx, ob)
    operators(ctx, ob, st)


def pade12(I):
    return I.call(I.getattr(need(I, "matexp_pade", "PadeExpm"), "new"), [12], {})


def arnoldi(ctx, ob):
    c = S("c", range=(0.3, 1.5))
    for n in (1, 2, 3):
        A, b = mat("A", n), vec("b", n, range=(0.2, 1.5))
        for m in sorted({1, max(1, n - 1), n, n + 2}):
            k = min(n, m)
            for iom in (n + 2, 1):
                hz = max(1, sum(1 for i in range(k) for j in range(k) if i > j + 1))

                def e(I, n=n, A=A, b=b, m=m, k=k, iom=iom, hz=hz):
                    r = I.call(need(I, "arnoldi", "arnoldi_lop"), [jacop(I, A), c, mk(I, b), m, iom], {})
                    q, h, nb = r
                    q, h = obj(am(I, q)), obj(am(I, h))
                    if q.shape != (n, k) or h.shape != (k, k):
                        return {"shape": (q.shape, h.shape, nb)}
                    # A Q = Q H in all but the last column, first column along b, orthonormal columns
                    d = minus(scale(c, dot(A, q)), dot(q, h))
                    res = [d[i, j] for i in range(n) for j in range(k - 1 if k < n else k)]
                    beta = _terms.sqrt(sum_(_terms.mul(x, x) for x in obj(b).reshape(-1)))
                    res += [_terms.sub(_terms.mul(beta, q[i, 0]), obj(b)[i]) for i in range(n)]
                    G = dot(q.T, q)
                    if iom > n:
                        res += [_terms.sub(G[i, j], int(i == j)) for i in range(k) for j in range(k)]
                        if k < n:
                            # the last residual is orthogonal to the basis
                            res += [dot(q.T, d)[i, k - 1] for i in range(k)]
                    else:
                        res += [_terms.sub(G[i, i], 1) for i in range(k)]
                    return {"n": nb, "res": out(oarr(res, (len(res),))), "hess": out(oarr([h[i, j] for i in range(k) for j in range(k) if i > j + 1] or [0], (hz,)))}
                cnt = n * (k - 1 if k < n else k) + n + (k * k + (k if k < n else 0) if iom > n else k)
                if iom == 1 and k >= 3 and k == n:
                    continue                          # an incomplete basis is not invariant
                ob("arnoldi:n=%d:m=%d:window=%d" % (n, m, iom), e, {"n": k, "res": out(zeros(cnt)), "hess": out(zeros(hz))}, key="arnoldi", pre=moving(A, b) if k > 1 else None)

    # an invariant subspace ends the iteration with the exact, trimmed basis
    for n, blk in ((3, 1), (3, 2)):
        A = zeros(n, n)
        for i in range(blk):
            for j in range(blk):
                A[i, j] = S("A%d%d" % (i, j), range=(0.2, 1))
        A[n - 1, n - 1] = S("z")
        b = oarr([S("b%d" % i, range=(0.2, 1)) for i in range(blk)] + [0] * (n - blk), (n,))

        def e(I, n=n, A=A, b=b, blk=blk):
            q, h, nb = I.call(need(I, "arnoldi", "arnoldi_lop"), [jacop(I, A), c, mk(I, b), n, n + 1], {})
            q, h = obj(am(I, q)), obj(am(I, h))
            return {"cols": q.shape[1], "n": nb, "res": out(minus(scale(c, dot(A, q)), dot(q, h)))}
        ob("arnoldi:invariant:%d" % blk, e, {"cols": blk, "n": blk, "res": out(zeros(n, blk))}, key="arnoldi-breakdown", tol=1e-5, pre=moving(A, b) if blk > 1 else None)


def neg(x):
    return _terms.mul(-1, x)


def sum_(xs):
    r = 0
    for x in xs:
        r = _terms.add(r, x)
    return r


def krylov(ctx, ob, st):
    dt = S("dt", range=(.1, 1))
    con = {"matexp_pade.PadeExpm.phik_apply": con_phik_apply, "matexp_pade.phi_ext": con_phi_ext}
    for n in (1, 2, 3):
        A, v = mat("A", n), vec("v", n, range=(0.2, 1.5))

        def mkk(I, dim=n + 2, iom=n + 2):
            return new(I, "matexp_krylov", "KrylovExpm", pade12(I), dim, iom)
        ob("krylov:exp:n=%d" % n, lambda I: am(I, meth(I, mkk(I), "apply_linop", jacop(I, A), dt, mk(I, v))),
           out(col(dot(phi(0, scale(dt, A)), v))), contracts=con)
        for k in (0, 1, 2, 3):
            ob("krylov:phi%d:n=%d" % (k, n), lambda I: am(I, meth(I, mkk(I), "apply_phi_linop", jacop(I, A), dt, mk(I, v), k)),
               out(col(dot(phi(k, scale(dt, A)), v))), contracts=con)
        ob("krylov:phi-triple:n=%d" % n,
           lambda I: [am(I, x) for x in meth(I, mkk(I), "apply_phi_linop_3", jacop(I, A), dt, mk(I, v), 1)],
           [out(col(dot(phi(1, scale(dt * j, A)), v))) for j in (1, 2, 3)], contracts=con)
        # a window covering the whole (two-dimensional) space by default
        if n == 2:
            ob("krylov:default-window", lambda I: am(I, meth(I, new(I, "matexp_krylov", "KrylovExpm", pade12(I), 5, None), "apply_phi_linop", jacop(I, A), dt, mk(I, v), 1)),
               out(col(dot(phi(1, scale(dt, A)), v))), contracts=con)
        # sums of phi-actions through one exponential of the extended operator
        for p in (1, 2, 3):
            if n + p > 4:
                continue
            bs = [vec("b%d_" % j, n, range=(.2, 1.5)) for j in range(p + 1)]

            def e(I, n=n, p=p, A=A, bs=bs):
                kr = new(I, "matexp_krylov", "KrylovExpm", pade12(I), n + p + 1, n + p + 2)
                vb = [mk(I, b) for b in bs]
                ext = new(I, "ode_sys", "ExtendedLinOp", dt, jacop(I, A), vb)
                return am(I, meth(I, kr, "kiops_fixedsteps", ext, 1, vb))
            want = zeros(n)
            for j in range(p + 1):
                want = plus(want, dot(phi(j, scale(dt, A)), bs[j]))
            ob("krylov:sum:n=%d:p=%d" % (n, p), e, out(col(want)), contracts=con)
    # degenerate start vectors
    _terms.IEEE[0] = True
    try:
        n = 2
        A = mat("A", n)
        ob("krylov:zero-vector", lambda I: am(I, meth(I, new(I, "matexp_krylov", "KrylovExpm", pade12(I), 5, None), "apply_phi_linop", jacop(I, A), dt, mk(I, zeros(n)), 1)),
           out(zeros(n, 1)), contracts=con)
    finally:
        _terms.IEEE[0] = False


@guard
def con_phi_ext(I, b):
    return mk(I, phi(kint(I, b["k"]), obj(am(I, b["z"]))))


@guard
def con_matexp(I, b):
    return mk(I, phi(0, scale(b["dt"], obj(am(I, b["a"])))))


def dense(ctx, ob):
    for n in (1, 2):
        Z, v, dt = mat("Z", n), vec("v", n), S("dt", range=(.1, 1))
        for k in (0, 1, 2, 3):
            ob("phi_ext:%d:n=%d" % (k, n), lambda I: am(I, I.call(need(I, "matexp_pade", "phi_ext"), [mk(I, Z, (n, n)), k], {})),
               out(phi(k, obj(Z))), contracts={"matexp_pade.matexp": con_matexp})
            ob("phi:%d:n=%d" % (k, n), lambda I: am(I, I.call(need(I, "matexp_pade", "phi"), [mk(I, Z, (n, n)), k], {})),
               out(phi(k, obj(Z))), contracts={"matexp_pade.matexp": con_matexp})
            ob("pade-evaluator:%d:n=%d" % (k, n), lambda I: am(I, meth(I, pade12(I), "phik_apply", mk(I, Z, (n, n)), dt, mk(I, v), k)),
               out(col(dot(phi(k, scale(dt, Z)), v))), contracts={"matexp_pade.matexp": con_matexp})
    # the dense exponential itself, in each of its norm regimes, to the accuracy of the approximant
    for s in (Fraction(1, 400), Fraction(1, 20), Fraction(1, 5), Fraction(3, 5), Fraction(2), Fraction(6), Fraction(25)):
        for n in (1, 2):
            Z = mat("Z", n, range=(-1, 1))
            dt = S("dt", range=(.4, 1))
            A = scale(s, obj(Z))

            def e(I, A=A, n=n):
                r = am(I, I.call(need(I, "matexp_pade", "matexp"), [mk(I, A, (n, n)), dt], {}))
                w = phi(0, scale(dt, A))
                sc = sum_(_terms.absv(x) for x in obj(w).reshape(-1))
                return out(scale(_terms.div(1, sc), minus(r, w)))
            ob("matexp:scale=%s:n=%d" % (s, n), e, out(zeros(n, n)), tol=1e-13, mtol=1e-13, key="matexp")


def fractions(ctx, ob):
    s, n = 2, 2
    A, v, dt = mat("A", n), vec("v", n), S("dt", range=(.1, 1))
    th = oarr([S("th0r", range=(1, 2)) + _terms.I * S("th0i", range=(1, 2)), S("th1r", range=(-2, -1)) + _terms.I * S("th1i", range=(3, 4))], (s, 1))
    al = oarr([S("al0r") + _terms.I * S("al0i"), S("al1r") + _terms.I * S("al1i")], (s, 1))
    a0 = S("a0")

    def ev(I):
        return new(I, "matexp_cauchy", "CauchyExpm", mkc(I, th), mkc(I, al), a0 + _terms.I * 0)

    def rat(Z, l, c0):
        Z = obj(Z)
        m = Z.shape[0]
        acc = scale(c0, eye(m))
        for j in range(s):
            W = inv(minus(Z, scale(th[j, 0], eye(m))))
            f = _terms.div(al[j, 0], _terms.power(th[j, 0], l)) if l else al[j, 0]
            acc = plus(acc, oarr([_terms.mul(2, _terms.real(_terms.mul(f, x))) for x in W.reshape(-1)], W.shape))
        return acc
    Z = scale(dt, A)
    ob("cauchy:exp", lambda I: am(I, meth(I, ev(I), "matexp_dense_cauchy", mk(I, A), dt)), out(rat(Z, 0, a0)))
    ob("cauchy:exp-action", lambda I: am(I, meth(I, ev(I), "matexp_dense_apply_cauchy", mk(I, A), dt, mk(I, v))), out(col(dot(rat(Z, 0, a0), v))))
    for l in (0, 1, 2, 3):
        nm = "cauchy:phi%d-action" % l
        e = lambda I, l=l: am(I, meth(I, ev(I), "phik_dense_apply_cauchy", mk(I, A), dt, mk(I, v), l))
        e2 = lambda I, l=l: am(I, meth(I, ev(I), "phik_apply", mk(I, A), dt, mk(I, v), l))
        good = out(col(dot(rat(Z, l, a0 if l == 0 else 0), v)))
        # the constant of the table is the value of the approximant at infinity, 2e-16 for the tables in use
        dev = out(col(dot(rat(Z, l, a0), v)))
        for q, f in ((nm, e), (nm + "-trait", e2)):
            any_of(ctx, q, f, [("", lambda p, r=good: r), ("constant below rounding", lambda p, r=dev: r)], stubs=stubs_for(ctx)[0], setup=nsetup(Aut("F", 2)))


def operators(ctx, ob, st):
    n = 2
    A, v, sc, g, t = mat("A", n), vec("v", n), S("sc"), S("g"), S("t0")

    def app(I, op, x, m=n):
        o = mk(I, vec("junk", m))
        meth(I, op, "apply", o, mk(I, x), None, None)
        return am(I, o)
    ob("shifted", lambda I: app(I, new(I, "ode_sys", "ShiftedLinOp", t, jacop(I, A), sc, g), v), out(col(plus(scale(sc, dot(A, v)), scale(g, v)))))
    ob("shifted:no-shift", lambda I: app(I, new(I, "ode_sys", "ShiftedLinOp", t, jacop(I, A), sc, None), v), out(col(scale(sc, dot(A, v)))))
    V = mat("V", n, 3)
    ob("apply_linop:columns", lambda I: am(I, I.call(need(I, "ode_sys", "apply_linop"), [jacop(I, A), mk(I, V)], {})), out(dot(A, V)))
    for p in (1, 2, 3):
        bs = [vec("b%d_" % j, n) for j in range(p + 1)]
        w = vec("w", n + p)

        def e(I, p=p, bs=bs, w=w):
            vb = [mk(I, b) for b in bs]
            op = new(I, "ode_sys", "ExtendedLinOp", t, jacop(I, A), vb)
            x, k = meth(I, op, "get_v", vb)
            return app(I, op, w, n + p), am(I, x), k
        W = obj(w)
        top = plus(scale(t, dot(A, W[:n])), *[scale(W[n + j], bs[p - j]) for j in range(p)])
        bot = [W[n + j + 1] for j in range(p - 1)] + [0]
        ob("extended:p=%d" % p, e, (out(col(oarr(list(top) + bot, (n + p,)))),
                                    out(col(oarr(list(obj(bs[0])) + [0] * (p - 1) + [1], (n + p,)))), n))
    # finite-difference operator: exact on affine fields, for every non-zero state
    x = vec("x", n, range=(0.2, 1.5))
    L = Lin(obj(A), obj(vec("b", n)), obj(vec("c", n)))
    kw = dict(stubs=st, setup=nsetup(L))
    for gam in (None, g):
        want = scale(sc, dot(A, v)) if gam is None else plus(scale(sc, dot(A, v)), scale(gam, v))
        ctx.ob("fd:affine:%s" % ("shift" if gam is not None else "plain"), lambda I: app(I, new(I, "ode_sys", "FdJacLinOp", t, mk(I, x), user(I), sc, gam), v),
               lambda p: out(col(want)), tol=1e-4, mtol=1e-6, **kw)
    y = vec("y", n, range=(0.2, 1.5))

    def eset(I):
        f = new(I, "ode_sys", "FdJacLinOp", t, mk(I, x), user(I), 1, None)
        meth(I, f, "set_op_x", t, mk(I, y))
        meth(I, f, "set_scale", sc, g)
        a = app(I, f, v)
        b = app(I, new(I, "ode_sys", "FdJacLinOp", t, mk(I, y), user(I), sc, g), v)
        return out(minus(a, b))
    Fn = Field("F", n)
    ctx.ob("fd:relocated", eset, lambda p: out(zeros(n, 1)), stubs=st, setup=nsetup(Fn))

    def egetfd(I):
        return app(I, I.call(need(I, "ode_sys", "get_fd_jac"), [user(I), t, mk(I, x)], {}), v)
    ctx.ob("fd:get_fd_jac", egetfd, lambda p: out(col(dot(A, v))), tol=1e-4, mtol=1e-6, **kw)

    def eshift(I):
        u = user(I)
        a = app(I, meth(I, u, "fjac_shifted", t, mk(I, x), sc, g), v)
        b = app(I, I.call(need(I, "ode_sys", "get_fd_jac_shifted"), [meth(I, u, "fjac", t, mk(I, x)), t, sc, g], {}), v)
        return a, b
    J = Fn.jac(t, x)
    w1 = out(col(plus(scale(sc, dot(J, v)), scale(g, v))))
    ctx.ob("system:fjac_shifted", eshift, lambda p: (w1, w1), stubs=st, setup=nsetup(Fn))
    aug = vec("aug", n)
    ctx.ob("system:frhs_aug", lambda I: am(I, meth(I, user(I), "frhs_aug", t, mk(I, x), mk(I, aug), sc)),
           lambda p: out(col(plus(scale(sc, Fn.at(t, x)), aug))), stubs=st, setup=nsetup(Fn))
    _terms.IEEE[0] = True
    try:
        ctx.ob("fd:zero-state", lambda I: app(I, new(I, "ode_sys", "FdJacLinOp", t, mk(I, zeros(n)), user(I), 1, None), v),
               lambda p: out(col(dot(A, v))), tol=1e-4, mtol=1e-6, **kw)
    finally:
        _terms.IEEE[0] = False


def inv(M):
    M = obj(M)
    d = _terms.sub(_terms.mul(M[0, 0], M[1, 1]), _terms.mul(M[0, 1], M[1, 0]))
    return oarr([_terms.div(M[1, 1], d), _terms.div(neg(M[0, 1]), d), _terms.div(neg(M[1, 0]), d), _terms.div(M[0, 0], d)], (2, 2))


def mkc(I, x):
    return I.call(need(I, "rs_shim", "Mat"), [Arr(obj(x), C128, "np")], {})
