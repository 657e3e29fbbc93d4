"""The native interface as Python sees it: what integrate(..., "<method>_rs") and the dense evaluators return, through the translated
binding (src/ormatex_rspy.rs) and the Python wrapper together."""
from .native import *
from .c28 import rk  # noqa: F401

WRAP = "ormatex_py.integrate_wrapper"
RULE = "Python wrapper and translated Rust binding evaluated together: trajectory, dispatch and options"
BIND = ("<python module of the native crate>", '''
import ormatex_rspy as _r
from ormatex_rspy import PySysWrapped
def integrate_wrapper_rs(sys, y0, t0, dt, nsteps, **kwds):
    return _r.integrate_wrapper_rs(None, sys, y0, t0, dt, nsteps, kwds)
def phi_k_rs(a, k):
    return _r.phi_k_rs(None, a, k)
def arnoldi_rs(py_linop, a_lo_scale, b, m, iom):
    return _r.arnoldi_rs(None, py_linop, a_lo_scale, b, m, iom)
class DensePhikvEvalRs:
    def __init__(self, method, order):
        self._e = _r.DensePhikvEvalRs.new(method, order)
    def eval(self, a_np, dt, v0_np, k):
        return self._e.eval(None, a_np, dt, v0_np, k)
''')


def run(ctx):
    st, bad = stubs_for(ctx)
    if missing(ctx, ["ormatex_rspy", "ode_sys", "ode_bdf", "ode_rk", "ode_epirk", "matexp_krylov", "matexp_pade", "matexp_cauchy", "arnoldi"]):
        return
    stubs = dict(STUBS, **st)
    stubs["ormatex_py.ormatex"] = BIND
    trajectories(ctx, stubs)
    dispatch(ctx, stubs)
    evaluators(ctx, stubs)


def trajectories(ctx, stubs):
    n = 2
    t0, h = S("t0"), S("h", range=(.05, .5))
    y0 = vec("y", n)
    for kind, F in (("autonomous", Aut("F", n)), ("time", TAff("F", n))):
        R = Ref(F)

        def traj(fn, ns, every=1):
            ts, ys = [t0], [obj(y0)]
            for _ in range(ns):
                ys.append(fn(ts, ys))
                ts.append(ts[-1] + h)
            ix = [i for i in range(ns) if i % every == 0] + [ns]
            return [ts[i] for i in ix], [ys[i] for i in ix]

        tol = Fraction(1, 10 ** 8)
        fam = {"epi2": lambda ts, ys: R.exprb2(ts[-1], ys[-1], h, tol), "exprb2": lambda ts, ys: R.exprb2(ts[-1], ys[-1], h, tol)}
        if kind == "autonomous":
            fam["exprb3"] = lambda ts, ys: R.exprb3(ts[-1], ys[-1], h, Fraction(-1))
            fam["epi3"] = lambda ts, ys: R.exprb2(ts[-1], ys[-1], h, tol) if len(ys) < 2 else R.epi3(ts[-1], ys[-1], h, ts[-2], ys[-2])
        for m, fn in fam.items():
            for ns, kw in ((1, {}), (3, {}), (3, {"osteps": 2}), (2, {"max_krylov_dim": 7, "iom": 3})):
                if kind == "time" and ns == 3:
                    continue

                def e(I, m=m, ns=ns, kw=kw):
                    s = I.call(need(I, "orma_stub", "UserSys"), [], {})
                    r = I.call(need(I, WRAP, "integrate"), [s, y0, t0, h, ns, m + "_rs"], dict(kw))
                    return {"t": seq(I, I.getattr(r, "t")), "y": seq(I, I.getattr(r, "y"))}
                ts, ys = traj(fn, ns, kw.get("osteps", 1))
                want = {"t": out(oarr(ts, (len(ts),))), "y": out(oarr([x for y in ys for x in y], (len(ys), n)))}
                ctx.ob("integrate(%s_rs):%s:%d:%s" % (m, kind, ns, ",".join(sorted(kw))), e, lambda p, r=want: r, contracts=EXPV, setup=both(n, F), stubs=stubs)

    # a user tolerance for the time derivative reaches the native integrator
    F = TAff("F", n)
    R = Ref(F)

    def e(I):
        s = I.call(need(I, "orma_stub", "UserSys"), [], {})
        r = I.call(need(I, WRAP, "integrate"), [s, y0, t0, h, 1, "epi2_rs"], {"tol_fdt": Fraction(-1)})
        return seq(I, I.getattr(r, "y"))
    y1 = R.exprb2(t0, y0, h, Fraction(-1))
    yk = R.exprb2(t0, y0, h, Fraction(1, 10 ** 8))
    both_ = lambda y: out(oarr(list(obj(y0)) + list(y), (2, n)))
    or_known(ctx, "option:tol_fdt", e, lambda p: both_(y1), lambda p: both_(yk), contracts=EXPV, setup=both(n, F), stubs=stubs)


def seq(I, x):
    if isinstance(x, (list, tuple)):
        x = I.call(need(I, "rs_shim", "np_array"), [list(x)], {})
    return Arr(obj(x), F64, "jnp")


def both(n, F):
    base, rust = host(n, F), nsetup(F)

    def setup(I):
        base(I)
        ns = dict(I.modules["orma_host"].ns)
        rust(I)
        m = I.modules["orma_host"]
        ns["opaque_J"] = m.ns["opaque_J"]
        m.ns.clear()
        m.ns.update(ns)
    return setup


def dispatch(ctx, stubs):
    """which integrator, at which order, with which exponential evaluator, a method name selects"""
    n = 2
    t0 = S("t0")
    y0 = vec("y", n)
    F = Aut("F", n)
    tol = S("tol")
    for m, cls, order in (("bdf1", "BdfIntegrator", 1), ("backeuler", "BdfIntegrator", 1), ("bdf2", "BdfIntegrator", 2), ("cn", "BdfIntegrator", 3),
                          ("epi2", "EpirkIntegrator", 2), ("exprb2", "EpirkIntegrator", 2), ("epi3", "EpirkIntegrator", 3), ("exprb3", "EpirkIntegrator", 3)):
        for ex, ecls in (("pade", "PadeExpm"), ("cram", "CauchyExpm"), ("cram_16", "CauchyExpm"), ("parabolic", "CauchyExpm")):
            if cls == "BdfIntegrator" and ex != "pade":
                continue

            def e(I, m=m, ex=ex, cls=cls):
                u = user(I)
                g = I.call(need(I, "ormatex_rspy", "select_solver"), [u, t0, mk(I, y0), m, ex, 9, 4, tol], {})
                r = {"cls": g.cls.name, "order": I.getattr(g, "order"), "t": meth(I, g, "time"), "y": am(I, meth(I, g, "state")), "sys": I.getattr(g, "sys") is u}
                if cls == "EpirkIntegrator":
                    k = I.getattr(g, "expm")
                    ev = I.getattr(k, "expmv")
                    r.update(method=I.getattr(g, "method"), tol=I.getattr(g, "tol_fdt"), dim=I.getattr(k, "krylov_dim"), iom=I.getattr(k, "iom"), ev=ev.cls.name,
                             poles=I.concretize(meth(I, I.getattr(ev, "theta"), "nrows")) if ev.cls.name == "CauchyExpm" else 0)
                return r
            want = {"cls": cls, "order": order, "t": t0, "y": out(col(y0)), "sys": True}
            if cls == "EpirkIntegrator":
                want.update(method=m, tol=tol, dim=9, iom=4, ev=ecls, poles={"PadeExpm": 0}.get(ecls, 12 if ex == "parabolic" else 8))
            ctx.ob("select:%s:%s" % (m, ex), e, lambda p, r=want: r, setup=nsetup(F), stubs=stubs)


def evaluators(ctx, stubs):
    n = 2
    A, v, dt = mat("A", n), vec("v", n), S("dt", range=(.1, 1))
    F = Aut("F", n)
    con = {"matexp_pade.PadeExpm.phik_apply": con_phik_apply, "matexp_pade.phi_ext": con_phiext}
    npm = lambda x: Arr(obj(x), F64, "np")
    for k in (0, 1, 2, 3):
        ctx.ob("phi_k_rs:%d" % k, lambda I: dressed(I.call(need(I, "ormatex_py.ormatex", "phi_k_rs"), [npm(A), k], {})),
               lambda p: out(phi(k, obj(A))), contracts=con, setup=nsetup(F), stubs=stubs)

        def e(I, k=k):
            d = I.call(need(I, "ormatex_py.ormatex", "DensePhikvEvalRs"), ["pade", 16], {})
            return dressed(meth(I, d, "eval", npm(A), dt, npm(col(v)), k))
        ctx.ob("DensePhikvEvalRs(pade):%d" % k, e, lambda p: out(col(dot(phi(k, scale(dt, A)), v))), contracts=con, setup=nsetup(F), stubs=stubs)
    # the pole expansions of the two tables, through the evaluator
    for m, order in (("cram", 16), ("cram_16", 16), ("parabolic", 24), ("parabolic", 10)):
        for k in (0, 1):
            def e2(I, m=m, order=order, k=k):
                d = I.call(need(I, "ormatex_py.ormatex", "DensePhikvEvalRs"), [m, order], {})
                return dressed(meth(I, d, "eval", npm(oarr([S("x", range=(-30, -.1))], (1, 1))), 1, npm(col(oarr([S("w", range=(.5, 1))], (1,)))), k))
            w = phi(k, oarr([S("x", range=(-30, -.1))], (1, 1)))
            t = 1e-12 if m != "parabolic" else 1e-9 if order == 24 else 3e-4
            ctx.ob("DensePhikvEvalRs(%s,%d):%d" % (m, order, k), e2, lambda p: out(scale(S("w", range=(.5, 1)), w)), setup=nsetup(F), stubs=stubs, tol=t, mtol=t)

    # orthonormal basis handed to Python
    b = vec("b", n, range=(.2, 1.5))
    c = S("c", range=(.3, 1))

    def ea(I):
        L = I.call(need(I, "orma_stub", "UserSys"), [], {})
        lop = I.call(I.getattr(L, "fjac"), [S("t0"), Arr(obj(b), F64, "np")], {})
        q, hh, nb = I.call(need(I, "ormatex_py.ormatex", "arnoldi_rs"), [lop, c, npm(col(b)), n, n + 1], {})
        q, hh = obj(q), obj(hh)
        J = F.jac(0, b)
        return {"n": nb, "gram": out(dot(q.T, q)), "res": out(minus(scale(c, dot(J, q)), dot(q, hh)))}
    ctx.ob("arnoldi_rs", ea, lambda p: {"n": n, "gram": out(eye(n)), "res": out(zeros(n, n))}, setup=both(n, F), stubs=stubs)

    # exponential Rosenbrock with the native dense evaluator
    t0, h = S("t0"), S("h", range=(.05, .5))
    y0 = vec("y", n)
    G = TAff("F", n)
    tol = Fraction(1, 10 ** 6)

    def ep(I):
        s = I.call(need(I, "orma_stub", "UserSys"), [], {})
        g = I.call(need(I, EXP, "ExpRBIntegrator"), [s, t0, y0], {"method": "exprb2_pfd_rs", "pfd_method": "pade", "tol_fdt": tol})
        return steps(I, g, [h, h])
    R = Ref(G)
    y1 = R.exprb2(t0, y0, h, tol)
    y2 = R.exprb2(t0 + h, y1, h, tol)
    ctx.ob("exprb2_pfd_rs", ep, lambda p: [tri(t0 + h, h, y1), tri(t0 + h + h, h, y2)], contracts=con, setup=both(n, G), stubs=stubs)
    B, f = mat("B", n), vec("y", n)

    def el(I):
        s = I.call(need(I, "orma_stub", "UserSys"), [], {})
        g = I.call(need(I, EXP, "ExpRBIntegrator"), [s, t0, y0], {"method": "exp_pfd_rs", "pfd_method": "pade"})
        return steps(I, g, [h])
    L = Lin(obj(B), zeros(n))
    ctx.ob("exp_pfd_rs", el, lambda p: [tri(t0 + h, h, dot(phi(0, scale(h, B)), y0))], contracts=con, setup=both(n, L), stubs=stubs)


def dressed(x):
    return Arr(obj(x), F64, "jnp")


@guard
def con_phiext(I, b):
    return mk(I, phi(kint(I, b["k"]), obj(am(I, b["z"]))))
