"""Model systems: the Jacobian, the time derivative and the linear part a model supplies are those of the right-hand side extracted from the same source.

The right-hand side is extracted as a value graph and differentiated symbolically (exact rules of terms.diff); nothing is compared with a hand-written Jacobian."""
from .c22 import opaque2, SRC, BAT, NONLIN, refmat
from .c23 import PRG, STS, Disc, lag_host
from .fem import *

LV = PRG + "lotka_volterra"


def deriv(f, dirs):
    """derivative of every entry of f along dirs {symbol: direction}"""
    f = obj(f)
    out = np.empty(f.shape, dtype=object)
    for ix in np.ndindex(f.shape):
        s = 0
        for x, d in dirs.items():
            s = add(s, mul(terms.diff(f[ix], {x: 1}), d))
        out[ix] = s
    return out


def observe(I, s, t, u, v, kw):
    """right-hand side and everything a step takes from the Jacobian operator, in two orders"""
    f = I.call(I.getattr(s, "frhs"), [t, u], dict(kw))
    op = I.call(I.getattr(s, "fjac"), [t, u], dict(kw))
    op2 = I.call(I.getattr(s, "fjac"), [t, u], dict(kw))
    dt_first = I.call(I.getattr(op2, "_fdt"), [], {})
    return {"f": f, "fc": I.call(I.getattr(op, "_frhs_cached"), [], {}), "jv": I.call(I.getattr(op, "matvec"), [v], {}),
            "ft": I.call(I.getattr(op, "_fdt"), [], {}), "ft0": dt_first, "fc2": I.call(I.getattr(op2, "_frhs_cached"), [], {})}


def expected(p, t, u, v):
    f = p.out["f"] if isinstance(p.out, dict) and "f" in p.out else None
    if f is None:
        return {}
    jv = outvec(deriv(f, dict(zip(obj(u).reshape(-1), obj(v).reshape(-1)))))
    ft = outvec(deriv(f, {t: 1}))
    return {"f": f, "fc": f, "fc2": f, "jv": jv, "ft": ft, "ft0": ft}


def run(ctx):
    t = S("t")
    lotka(ctx, t)
    decay(ctx, t)
    transport(ctx, t)


def lotka(ctx, t):
    u, v = vec("u", 2), vec("v", 2)
    names = ("alpha", "beta", "delta", "gamma")
    P = {x: S(x, positive=True) for x in names}
    given = [(), names] + [(x,) for x in names]
    for cls in ("LotkaVolterra", "LotkaVolterraNonauto"):
        for g in given:
            for kw in ({}, {"frhs_kwargs": {"p": S("p")}}):
                def entry(I):
                    s = I.call(need(I, LV, cls), [], {k: P[k] for k in g})
                    out = observe(I, s, t, u, v, kw)
                    out["par"] = {k: I.getattr(s, k) for k in names}
                    return out

                def ref(p):
                    r = expected(p, t, u, v)
                    r["par"] = {k: P[k] if k in g else 1 for k in names}
                    a, b, d, c = (r["par"][k] for k in names)
                    x, y = obj(u)
                    hunt = 0 if cls == "LotkaVolterra" else mul(Fraction("0.4"), add(terms.fn1("sin", mul(t, Fraction("0.2"))), 1))
                    xy = mul(x, y)
                    r["f"] = oarr([sub(mul(a, x), mul(b, xy)), sub(sub(mul(d, xy), mul(c, y)), mul(hunt, y))], (2,))
                    return r
                ctx.ob("%s, given %s%s" % (cls, ",".join(g) or "nothing", ", step parameters" if kw else ""), entry, ref, stubs=STS, setup=setup(2, lag_host), mtol=1e-12,
                       key="%s" % cls)
        # the test operator is a constant linear operator: same at every time and state
        def entry(I):
            s = I.call(need(I, LV, cls), [], dict(P))
            op = I.call(I.getattr(s, "fl"), [t, u], {})
            op2 = I.call(I.getattr(s, "fl"), [S("t2"), vec("w", 2)], {})
            return [I.call(I.getattr(op, "matvec"), [v], {}), I.call(I.getattr(op2, "matvec"), [v], {})]
        ctx.ob("%s linear part is constant" % cls, entry, lambda p: [p.out[1], p.out[1]] if isinstance(p.out, list) else [], stubs=STS, setup=setup(2, lag_host), key="%s linear part" % cls)


def decay(ctx, t):
    # decay systems: supplied Jacobian = linear part = derivative of the right-hand side
    half = [S("lam%d" % i, positive=True) for i in range(3)]
    for keys, lib in (
            (["a"], {"a": ("none", half[0])}),
            (["a", "b"], {"a": ("b", half[0]), "b": ("none", half[1])}),
            (["b", "a"], {"a": ("b", half[0]), "b": ("none", half[1])}),
            (["a", "b", "c"], {"a": (("b", half[0]), ("c", half[2])), "b": ("c", half[1]), "c": ("none", half[2])})):
        n = len(keys)
        u, v = vec("u", n), vec("v", n)

        def entry(I):
            s = I.call(need(I, BAT, "TestBatemanSysJac"), [list(keys), dict(lib)], {})
            out = observe(I, s, t, u, v, {})
            op = I.call(I.getattr(s, "fl"), [t, u], {})
            out["l"] = I.call(I.getattr(op, "matvec"), [v], {})
            out["jd"] = I.call(I.getattr(I.call(I.getattr(s, "fjac"), [t, u], {}), "dense"), [], {})
            return out

        def ref(p):
            r = expected(p, t, u, v)
            if r:
                r["l"] = r["jv"]
                J = zeros(n, n)
                for i in range(n):
                    for j in range(n):
                        J[i, j] = terms.diff(obj(p.out["f"])[i], {obj(u)[j]: 1})
                r["jd"] = outvec(J)
            return r
        ctx.ob("decay system %s" % "-".join(keys), entry, ref, stubs=STS, setup=setup(n, lag_host), mtol=1e-12, key="decay system")

    con = {SRC + ".mxf_liq_vapor_bubble_ig": opaque2("mxf", extra=("cvol",))}
    phi, V = S("phi"), S("vol", positive=True)
    m = 9
    u, v = vec("u", m), vec("v", m)

    def entry(I):
        if len(need(I, NONLIN, "keymap")) != m:
            raise Undecidable("number of species")
        s = I.call(need(I, NONLIN, "NonlinearBateman"), [], {"n_phi": phi, "tank_vol": V})
        return observe(I, s, t, u, v, {})

    def ref(p):
        return expected(p, t, u, v)     # its linear part: C22
    ctx.ob("tank system", entry, ref, contracts=con, stubs=STS, setup=setup(m, lag_host), mtol=1e-12, key="tank system")


def transport(ctx, t):
    for m in (2, 3):
        for D in (None, [0], [m - 1]):
            dc = Disc(m, D)
            u, v = vec("u", m), vec("v", m)
            tag = "%d dofs, Dirichlet %s" % (m, D)

            def entry(I):
                s = I.call(need(I, ADV, "AffineLinearSEM"), [dc.build(I)], {})
                out = observe(I, s, t, u, v, {})
                op = I.call(I.getattr(s, "fl"), [t, u], {})
                out["l"] = I.call(I.getattr(op, "matvec"), [v], {})
                out["ld"] = I.call(I.getattr(op, "dense"), [], {})
                return out

            def ref(p):
                r = expected(p, t, u, v)
                if r:
                    r["l"] = r["jv"]
                    J = zeros(m, m)
                    for i in range(m):
                        for j in range(m):
                            J[i, j] = terms.diff(obj(p.out["f"])[i], {obj(u)[j]: 1})
                    r["ld"] = outvec(J)
                return r
            ctx.ob("scalar system, %s" % tag, entry, ref, stubs=STS, setup=setup(m, lag_host), mtol=1e-12, key="scalar system")

            def entry(I):
                s = I.call(need(I, ADV, "NonautonomousSEM"), [dc.build(I)], {})
                out = observe(I, s, t, u, v, {})
                op = I.call(I.getattr(s, "fl"), [t, u], {})
                out["l"] = I.call(I.getattr(op, "matvec"), [v], {})
                return out

            def con(I, b):
                z = b["t"]
                return terms.app("g", 0, ((obj(z).reshape(-1)[0] if isinstance(z, Arr) else z),))

            def ref(p):
                r = expected(p, t, u, v)
                if r:
                    r["l"] = r["jv"]
                return r
            ctx.ob("scalar system with Dirichlet rate, %s" % tag, entry, ref, contracts={ADV + ".NonautonomousSEM.dirichlet_dt": con}, stubs=STS, setup=setup(m, lag_host), mtol=1e-12,
                   key="scalar system with Dirichlet rate")
    con = {SRC + ".mxf_liq_vapor_nonlin": opaque2("mxf"), PRG + "rad_1d_9s.flux_profile": lambda I, b: Arr(oarr([terms.app("flux", 0, (x,)) for x in obj(b["x"]).reshape(-1)], (len(obj(b["x"]).reshape(-1)), 1)), F64, "jnp")}
    for mod, n in (("rad_1d_2s", 2), ("rad_1d_3s", 3), ("rad_1d_9s", 9)):
        for m in (2, 3):
            for D in (None, [0], [m - 1]):
                if n == 9 and (m == 3 or D == [m - 1]) and not ctx.thorough:
                    continue
                dc = Disc(m, D)
                u, v = vec("u", n * m), vec("v", n * m)

                def entry(I):
                    s = I.call(need(I, PRG + mod, "RAD_SEM"), [dc.build(I)], {})
                    out = observe(I, s, t, u, v, {})
                    op = I.call(I.getattr(s, "fl"), [t, u], {})
                    out["l"] = I.call(I.getattr(op, "matvec"), [v], {})
                    return out

                def ref(p):
                    r = expected(p, t, u, v)
                    if r:
                        # the transport part of every species (documented), in the layout of the state
                        l = zeros(n * m)
                        for s_ in range(n):
                            for i in range(m):
                                x = 0
                                for j in range(m):
                                    x = sub(x, mul(obj(dc.A)[i, j], obj(v)[s_ * m + j]))
                                l[s_ * m + i] = terms.div(x, obj(dc.Ml)[i])
                        r["l"] = outvec(l)
                    return r
                ctx.ob("%s %d points, Dirichlet %s" % (mod, m, D), entry, ref, contracts=con, stubs=STS, setup=setup(n * m, lag_host), mtol=1e-12, budget=200, key="system " + mod)
