"""Native (Rust) integrators: the step formulas of the published methods."""
from .native import *

RULE = "translated from src/*.rs and evaluated symbolically: each step equals the published formula"


def sr(I, r):
    return {"t": I.getattr(r, "t"), "dt": I.getattr(r, "dt"), "y": am(I, I.getattr(r, "y"))}


def outr(t, dt, y):
    return {"t": t, "dt": dt, "y": out(col(y))}


def nsteps(I, ig, dts, accept=True):
    r = []
    for d in dts:
        s = meth(I, ig, "step", d)
        r.append(sr(I, s))
        if accept:
            meth(I, ig, "accept_step", s)
    return r


TAB = {1: ([0], [[]], [1]),
       2: ([0, Fraction(1, 2)], [[], [Fraction(1, 2)]], [0, 1]),
       3: ([0, Fraction(1, 2), 1], [[], [Fraction(1, 2)], [-1, 2]], [Fraction(1, 6), Fraction(2, 3), Fraction(1, 6)]),
       4: ([0, Fraction(1, 2), Fraction(1, 2), 1], [[], [Fraction(1, 2)], [0, Fraction(1, 2)], [0, 0, 1]],
           [Fraction(1, 6), Fraction(1, 3), Fraction(1, 3), Fraction(1, 6)])}


def rk(F, order, t, y, h, lag=False):
    c, a, b = TAB[order]
    if lag:
        c = [0] + c[:-1]
    ks = []
    for i in range(order):
        yi = obj(y)
        for j in range(i):
            if a[i][j]:
                yi = plus(yi, scale(h * a[i][j], ks[j]))
        ks.append(F.at(t + h * c[i], yi))
    r = obj(y)
    for bi, k in zip(b, ks):
        if bi:
            r = plus(r, scale(h * bi, k))
    return r


def run(ctx):
    st, bad = stubs_for(ctx)
    n = 2
    t0, t1, h1, h2, h3 = S("t0"), S("t1"), S("h1", range=(.05, .5)), S("h2", range=(.05, .5)), S("h3", range=(.05, .5))
    y0, z0 = vec("y", n), vec("z", n)
    ob = lambda name, e, r, F, **kw: ctx.ob(name, e, lambda p: r, stubs=st, setup=nsetup(F), **kw)

    # ---------------------------------------------------------- explicit Runge-Kutta
    if not missing(ctx, ["ode_rk", "ode_sys"]):
        for kind, F in (("autonomous", Aut("F", n)), ("time", Field("F", n))):
            for o in (1, 2, 3, 4):
                def e(I, o=o):
                    g = new(I, "ode_rk", "RkIntegrator", t0, mk(I, y0), o, user(I))
                    return nsteps(I, g, [h1, h2])

                def ref(lag, o=o, F=F):
                    a = rk(F, o, t0, y0, h1, lag)
                    return [outr(t0 + h1, h1, a), outr(t0 + h1 + h2, h2, rk(F, o, t0 + h1, a, h2, lag))]
                good, dev = ref(False), ref(True)
                or_known(ctx, "rk%d:%s" % (o, kind), e, lambda p, r=good: r, lambda p, r=dev: r, stubs=st, setup=nsetup(F))

        def hist(I):
            g = new(I, "ode_rk", "RkIntegrator", t0, mk(I, y0), 2, user(I))
            meth(I, g, "step", h1)                            # proposed, never accepted
            a = nsteps(I, g, [h1, h2])
            meth(I, g, "reset_ic", t1, mk(I, z0))
            b = nsteps(I, g, [h2])
            return a, b, I.getattr(g, "t"), am(I, meth(I, g, "state")), meth(I, g, "time")
        F = Aut("F", n)
        a1 = rk(F, 2, t0, y0, h1)
        a2 = rk(F, 2, t0 + h1, a1, h2)
        b1 = rk(F, 2, t1, z0, h2)
        ob("rk:history", hist, ([outr(t0 + h1, h1, a1), outr(t0 + h1 + h2, h2, a2)], [outr(t1 + h2, h2, b1)],
                                t1 + h2, out(col(b1)), t1 + h2), F)

    # ---------------------------------------------------------- implicit methods
    if not missing(ctx, ["ode_bdf", "newton", "ode_sys"]):
        for kind, F in (("autonomous", Aut("F", n)), ("time", Field("F", n))):
            bdf(ctx, ob, kind, F, n, (t0, h1, h2, h3), y0)

    if not missing(ctx, ["newton", "ode_sys"]):
        newton(ctx, ob, n)

    # ---------------------------------------------------------- exponential integrators
    if not missing(ctx, ["ode_epirk", "matexp_krylov", "ode_sys"]):
        epirk(ctx, ob, n, (t0, t1, h1, h2, h3), y0, z0)


def direction(J, G):
    """Newton direction J^-1 G for 2x2"""
    J = obj(J)
    G = obj(G).reshape(-1)
    d = terms.sub(terms.mul(J[0, 0], J[1, 1]), terms.mul(J[0, 1], J[1, 0]))
    return oarr([terms.div(terms.sub(terms.mul(J[1, 1], G[0]), terms.mul(J[0, 1], G[1])), d),
                 terms.div(terms.sub(terms.mul(J[0, 0], G[1]), terms.mul(J[1, 0], G[0])), d)], (2,))


def bdf(ctx, ob, kind, F, n, ts, y0):
    t0, h1, h2, h3 = ts

    def roots(k):
        return vec("root%d" % k, n)

    def con(log):
        def c(I, b):
            k = len(log(I)) + 1
            Y = roots(k)
            m = mk(I, Y)
            G = am(I, I.call(b["frhs"], [b["t"], m], {})).a.reshape(-1)
            J = lopmat(I, I.call(b["frhs_jac"], [b["t"], m], {}), n)
            log(I).append({"dir": out(direction(J, G)), "start": am(I, b["x0"])})
            return mk(I, Y)
        return c

    def log(I):
        if not hasattr(I, "newtons"):
            I.newtons = []
        return I.newtons
    for name, order, nst in (("bdf1", 1, 2), ("bdf2", 2, 2), ("bdf2", 2, 3), ("cn", 3, 2)):
        hs = [h1, h1, h1][:nst] if name == "bdf2" else [h1, h2][:nst]

        def e(I, order=order, hs=hs):
            I.newtons = []
            g = new(I, "ode_bdf", "BdfIntegrator", t0, mk(I, y0), order, user(I))
            r = nsteps(I, g, hs)
            return r, I.newtons

        def ref(dev, name=name, hs=hs):
            t, ys, rr, nn = t0, [obj(y0)], [], []
            for k, h in enumerate(hs):
                Y = obj(roots(k + 1))
                tn = t + h
                tf = tn + h if dev else tn              # recorded deviation: the step is added twice
                f, J = F.at(tf, Y), F.jac(tf, Y)
                if name == "cn":
                    G = minus(minus(Y, ys[-1]), scale(h * Fraction(1, 2), plus(f, F.at(tn if dev else t, ys[-1]))))
                    s = -h * Fraction(1, 2)
                elif name == "bdf2" and (k == 1 if dev else k):
                    G = minus(plus(minus(Y, scale(Fraction(4, 3), ys[-1])), scale(Fraction(1, 3), ys[-2])), scale(h * Fraction(2, 3), f))
                    s = -h * Fraction(2, 3)
                else:
                    G = minus(minus(Y, ys[-1]), scale(h, f))
                    s = -h
                nn.append({"dir": out(direction(plus(eye(n), scale(s, J)), G)), "start": out(col(ys[-1]))})
                rr.append(outr(tn, h, Y))
                t = tn
                ys.append(Y)
            return rr, nn
        good, dev = ref(False), ref(True)
        or_known(ctx, "%s:%d-steps:%s" % (name, nst, kind), e, lambda p, r=good: r, lambda p, r=dev: r, stubs=ctx_st(ctx),
                 setup=nsetup(F), contracts={"newton.jac_newton": con(log)})


def newton(ctx, ob, n):
    A, b = mat("A", n), vec("b", n)
    x0 = vec("x", n)
    L = Lin(obj(A), obj(b))
    t = S("t0")
    tol = Fraction(1, 10**6)
    sol = minus(obj(x0), direction(A, L.at(0, x0)))

    def e1(I):
        f = HostFn("G", lambda I, a, k: mk(I, col(L.at(a[0], am(I, a[1]).a.reshape(-1)))))
        j = HostFn("J", lambda I, a, k: new(I, "ode_sys", "ShiftedLinOp", a[0], jacop(I, A), 1, None))
        r = I.call(need(I, "newton", "jac_newton"), [t, mk(I, x0), f, j, tol, Fraction(1, 10**8), 3, 1000], {})
        return am(I, r)
    ob("newton:affine-root", e1, out(col(sol)), L)

    def e2(I):
        r = I.call(need(I, "newton", "jac_newton_sys"), [t, 1, 0, mk(I, x0), user(I), tol, Fraction(1, 10**8), 3, 1000], {})
        return am(I, r)
    ob("newton:affine-root-system", e2, out(col(sol)), L)

    # the iteration may stop only when the last correction is below the tolerance
    G = Field("G", n)

    def e3(I):
        cnt = [0]

        def gf(I, a, k):
            cnt[0] += 1
            return mk(I, col(G.at(0, am(I, a[1]).a.reshape(-1))))
        j = HostFn("J", lambda I, a, k: new(I, "ode_sys", "ShiftedLinOp", a[0], jacop(I, eye(n)), 1, None))
        I.call(need(I, "newton", "jac_newton"), [t, mk(I, x0), HostFn("G", gf), j, tol, Fraction(1, 10**8), 2, 1000], {})
        return cnt[0] >= 2
    g0 = G.at(0, x0)
    nx = minus(obj(x0), g0)
    sq = lambda v: terms.add(terms.mul(v[0], v[0]), terms.mul(v[1], v[1]))
    ob("newton:stops-before-convergence", e3, True, G, pre=terms.lt(terms.add(sq(obj(x0).reshape(-1)), 1), sq(nx)))


def epirk(ctx, ob, n, ts, y0, z0):
    t0, t1, h1, h2, h3 = ts
    tolf = S("tol", range=(-0.5, 1.0))
    for kind, F in (("autonomous", Aut("F", n)), ("time", TAff("F", n))):
        R = Ref(F)

        class RU(Ref):
            """time derivative below the tolerance is dropped from the correction only"""

            def lin2(self, t, y, tol):
                J, v = self.lin(t, y)
                return J, gatevec(terms.ge(tol, 0), v, zeros(len(v)))

            def exprb3(self, t, y, dt, tol):
                J, v = self.lin2(t, y, tol)
                u = self.exprb2(t, y, dt, tol)
                r = self.rem(t + dt, u, t, y, J, v)
                return plus(u, scale(2 * dt, dot(phi(3, scale(dt, J)), r)))

            def epi3(self, t, y, dt, tp, yp, tol):
                J, v = self.lin2(t, y, tol)
                J, v0 = self.lin(t, y)
                g = gatevec(big(v0, tol), v0, zeros(len(v0)))
                r = self.rem(tp, yp, t, y, J, v)
                z = scale(dt, J)
                return plus(y, scale(dt, dot(phi(1, z), self.f(t, y))), scale(dt * dt, dot(phi(2, z), g)),
                            scale(Fraction(2, 3) * dt, dot(phi(2, z), r)))

        class RG(RU):
            def lin2(self, t, y, tol):
                J, v = self.lin(t, y)
                return J, gatevec(big(v, tol), v, zeros(len(v)))
        refs = [RU(F), RG(F)]
        for m, nst in (("epi2", 2), ("exprb2", 2), ("exprb3", 2), ("epi3", 3)):
            hs = [h1, h2, h3][:nst] if m != "epi3" else [h1, h1, h1]

            def e(I, m=m, hs=hs):
                ev = I.call(I.getattr(need(I, "matexp_pade", "PadeExpm"), "new"), [12], {})
                kr = new(I, "matexp_krylov", "KrylovExpm", ev, 30, None)
                g = new(I, "ode_epirk", "EpirkIntegrator", t0, mk(I, y0), m, user(I), kr)
                g = meth(I, g, "with_opt", "tol_fdt", tolf)
                meth(I, g, "step", h3)                        # proposed, not accepted
                r = nsteps(I, g, hs)
                return r, meth(I, g, "time"), am(I, meth(I, g, "state"))

            def ref(R):
                t, ys, tt, rr = t0, [obj(y0)], [t0], []
                for k, h in enumerate(hs):
                    if m in ("epi2", "exprb2") or (m == "epi3" and k == 0):
                        y = R.exprb2(t, ys[-1], h, tolf)
                    elif m == "exprb3":
                        y = R.exprb3(t, ys[-1], h, tolf)
                    else:
                        y = R.epi3(t, ys[-1], h, tt[-2], ys[-2], tolf)
                    t = t + h
                    ys.append(y)
                    tt.append(t)
                    rr.append(outr(t, h, y))
                return rr, t, out(col(ys[-1]))
            any_of(ctx, "%s:%s" % (m, kind), e, [("", lambda p, r=r: ref(r)) for r in refs], stubs=ctx_st(ctx), setup=nsetup(F), contracts=EXPV)
        # a reset integrator equals a new one
        def er(I):
            res = []
            for fresh in (True, False):
                ev = I.call(I.getattr(need(I, "matexp_pade", "PadeExpm"), "new"), [12], {})
                kr = new(I, "matexp_krylov", "KrylovExpm", ev, 30, None)
                s = user(I)
                g = new(I, "ode_epirk", "EpirkIntegrator", *((t1, mk(I, z0)) if fresh else (t0, mk(I, y0))), "epi3", s, kr)
                if not fresh:
                    nsteps(I, g, [h1, h1])
                    meth(I, g, "reset_ic", t1, mk(I, z0))
                res.append(nsteps(I, g, [h2, h2]))
            return [[minus_out(a["y"], b["y"]) for a, b in zip(*res)], [a["t"] - b["t"] if not isinstance(a["t"], T) else terms.sub(a["t"], b["t"]) for a, b in zip(*res)]]
        ob("epi3:reset:%s" % kind, er, [[out(zeros(n, 1)), out(zeros(n, 1))], [0, 0]], F, contracts=EXPV)


def minus_out(a, b):
    return out(minus(a, b))


def ctx_st(ctx):
    return stubs_for(ctx)[0]
