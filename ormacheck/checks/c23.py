"""Advection-diffusion(-reaction) discretisations: kernels, assembly, nodal elements and semi-discrete right-hand sides against the documented weak form."""
from .c22 import opaque2, refmat, SRC
from .fem import *

PRG = "ormatex_py.progression."


def up(kind, prm, q, variable):
    """velocity and upwind stabilisation time at quadrature point q"""
    g = qp(kind)
    x, h = obj(g["x"]).reshape(-1)[q], obj(g["h"]).reshape(-1)[q]
    vel = terms.app("vel", 0, (x, prm["vel"])) if variable else prm["vel"]
    return vel, terms.div(mul(prm["tau"], h), mul(2, vel))


def at(f, q):
    return obj(f).reshape(-1)[q], obj(f.fields["grad"]).reshape(-1)[q]


def kernel(name, kind, prm, u, v, q, variable):
    vel, tau = up(kind, prm, q, variable)
    src = terms.app("src", 0, (obj(qp(kind)["x"]).reshape(-1)[q],)) if variable else 0
    uu, du = at(u, q) if u is not None else (None, None)
    vv, dv = at(v, q)
    nu = prm["nu"]
    diff = lambda: mul(nu, mul(du, dv))
    if name == "adv_diff":
        return add(diff(), mul(mul(vel, du), vv))
    if name == "adv_diff_cons":
        return sub(diff(), mul(mul(vel, uu), dv))
    if name == "adv_diff_cons_supg":
        return add(sub(diff(), mul(mul(vel, uu), dv)), mul(mul(mul(tau, vel), dv), mul(vel, du)))
    if name == "robin":
        return mul(mul(mul(vel, obj(qp(kind)["n"]).reshape(-1)[q]), uu), vv)
    if name == "rhs":
        return mul(src, vv)
    if name == "rhs_supg":
        return add(mul(src, vv), mul(mul(mul(tau, vel), dv), src))
    if name == "mass":
        return mul(uu, vv)
    if name == "mass_supg":
        return add(mul(uu, vv), mul(mul(mul(tau, vel), dv), uu))


def assembled(name, kind, prm, n, variable):
    lin = name.startswith("rhs")
    out = zeros(n) if lin else zeros(n, n)
    w = obj(qp(kind)["dx"]).reshape(-1)
    for i in range(n):
        for j in range(1 if lin else n):
            s = 0
            for q in range(NQ):
                s = add(s, mul(kernel(name, kind, prm, None if lin else shapefn(kind, j), shapefn(kind, i), q, variable), w[q]))
            if lin:
                out[i] = s
            else:
                out[i, j] = s
    return out


def enforced(A, D):
    A = A.copy()
    for d in D:
        if A.ndim == 2:
            A[d, :] = 0
            A[d, d] = 1
        else:
            A[d] = 0
    return A


PRM = {"nu": S("nu", positive=True), "vel": S("vel", positive=True, range=(0.3, 0.9)), "tau": S("tau", positive=True)}


def mesh(I, n, left):
    doflocs = Arr(oarr([S("X%d" % i) for i in range(n)], (1, n)), F64, "np")
    b = {"left": Arr(oarr(list(left), (len(left),)), I64, "np"), "right": Arr(oarr([1], (1,)), I64, "np")} if left is not None else None
    return I.call(need(I, "skfem", "Mesh"), [n, doflocs, b, Arr(oarr([], (0,)), I64, "np")], {})


def used(p, *names):
    """the user hooks the obligation replaces are still consulted"""
    return all(p.I.contract_uses.get(x) for x in names)


def run(ctx):
    u, v = field("u"), field("v")
    for variable in (False, True):
        con = FCON if variable else None
        for name in ("adv_diff", "adv_diff_cons", "adv_diff_cons_supg", "robin", "rhs", "rhs_supg", "mass", "mass_supg"):
            kind = "phf" if name == "robin" else "phi"
            lin = name.startswith("rhs")

            def entry(I):
                f = need(I, ADV, name)
                w = wdict(kind, PRM)
                r = I.call(f, [v, w] if lin else [u, v, w], {})
                return oarr(bcast(I, r), (NQ,))

            def ref(p):
                if variable and name not in ("mass",) and not p.I.contract_uses:
                    return Undecidable("velocity and source hooks are not used")
                return oarr([kernel(name, kind, PRM, None if lin else u, v, q, variable) for q in range(NQ)], (NQ,))
            ctx.ob("kernel %s%s" % (name, " with variable velocity and source" if variable else ""), entry, ref, contracts=con, stubs=STB, setup=setup(), key="kernel " + name)
    assembly(ctx)
    elements(ctx)
    systems(ctx)


def assembly(ctx):
    for variable in (False, True):
        for n in (2, 3):
            for left in (None, [0], [1]) if not ctx.thorough else (None, [0], [1], [0, 1]):
                for p_ in (1, 2) if not variable else (1,):
                    def entry(I):
                        s = I.call(need(I, ADV, "AdDiffSEM"), [mesh(I, n, left)], {"p": p_, "params": dict(PRM)})
                        A, Ml, b = I.call(I.getattr(s, "assemble"), [], {})
                        d = I.getattr(s, "dirichlet_bd")
                        return {"A": A, "Ml": Ml, "b": b, "x": I.call(I.getattr(s, "collocation_points"), [], {}), "d": d if d is None else [int(z) for z in obj(d).reshape(-1)]}

                    def ref(p):
                        if variable and not p.I.contract_uses:
                            return Undecidable("velocity and source hooks are not used")
                        A = assembled("adv_diff_cons_supg", "phi", PRM, n, variable)
                        if left is not None:
                            A = plus(A, assembled("robin", "phf", PRM, n, variable))
                        D = left or []
                        M = enforced(assembled("mass_supg", "phi", PRM, n, variable), D)
                        ml = zeros(n)
                        for i in range(n):
                            for j in range(n):
                                ml[i] = add(ml[i], M[i, j])
                        return {"A": enforced(obj(A), D), "Ml": ml, "b": enforced(assembled("rhs_supg", "phi", PRM, n, variable), D),
                                "x": oarr([S("X%d" % i) for i in range(n)], (n,)), "d": left}
                    ctx.ob("assembly %d dofs, %s, order %d%s" % (n, "periodic" if left is None else "Dirichlet %s" % left, p_, ", variable velocity and source" if variable else ""),
                           entry, ref, contracts=FCON if variable else None, stubs=STB, setup=setup(n), key="assembly " + ("periodic" if left is None else "bounded"))
    # parameters default independently, and user fields are interpolated at the nodes with the parameters of the problem
    for given in ((), ("nu",), ("vel",), ("tau",)):
        def entry(I):
            s = I.call(need(I, ADV, "AdDiffSEM"), [mesh(I, 2, [0])], {"p": 1, "params": {k: PRM[k] for k in given}})
            return dict(I.getattr(s, "params"))
        ctx.ob("parameters given: %s" % (",".join(given) or "none"), entry,
               lambda p: {k: PRM[k] if k in given else {"nu": Fraction("5e-3"), "vel": 1, "tau": 0}[k] for k in ("nu", "vel", "tau")}, stubs=STB, setup=setup(), key="parameters")

    def entry(I):
        def foo(I, a, k):
            x = obj(k["x"] if "x" in k else a[0])
            return Arr(oarr([terms.app("foo", 0, (z, k["nu"], k["vel"], k.get("p", 0))) for z in x.reshape(-1)], x.shape), F64, "np")
        s = I.call(need(I, ADV, "AdDiffSEM"), [mesh(I, 2, [0])], {"p": 1, "params": dict(PRM), "field_fns": {"foo": HostFn("foo", foo)}})
        b = I.getattr(s, "basis")
        return {str(k): w if not isinstance(w, FieldArr) else Arr(w.a, F64, "np") for k, w in I.call(I.getattr(s, "w_ext"), [b], {"p": S("p")}).items()}

    def ref(p):
        f = [terms.app("foo", 0, (S("X%d" % i), PRM["nu"], PRM["vel"], S("p"))) for i in range(2)]
        vals = []
        for q in range(NQ):
            s = 0
            for i in range(2):
                s = add(s, mul(f[i], obj(shapefn("phi", i)).reshape(-1)[q]))
            vals.append(s)
        return dict(PRM, foo=oarr(vals, (1, NQ)))
    ctx.ob("user fields", entry, ref, stubs=STB, setup=setup())


BARY = '''
from orma_fem import lagrange
class BarycentricInterpolator:
    def __init__(self, xi, yi=None, axis=0):
        self.xi = xi
        self.yi = yi
    def __call__(self, x):
        return lagrange(self.xi, self.yi, x, 0)
    def derivative(self, x, der=1):
        return lagrange(self.xi, self.yi, x, der)
def barycentric_interpolate(xi, yi, x, axis=0, der=0):
    return lagrange(xi, yi, x, der)
'''
STBE = dict(STB, **{"scipy.interpolate": ("<scipy.interpolate>", BARY), "scipy": ("<scipy>", "")})


def lag(xs, i, x, der):
    """Lagrange basis polynomial i at x (or its derivative)"""
    n = len(xs)
    if der == 0:
        r = 1
        for j in range(n):
            if j != i:
                r = mul(r, terms.div(sub(x, xs[j]), sub(xs[i], xs[j])))
        return r
    s = 0
    for k in range(n):
        if k == i:
            continue
        r = terms.div(1, sub(xs[i], xs[k]))
        for j in range(n):
            if j not in (i, k):
                r = mul(r, terms.div(sub(x, xs[j]), sub(xs[i], xs[j])))
        s = add(s, r)
    return s


def lag_host(I):
    def f(I, a, k):
        xi, yi, x, der = a
        xs, Y, X = list(obj(xi).reshape(-1)), obj(yi), obj(x)
        if der not in (0, 1):
            raise Unsupported("derivative order")
        if Y.shape[0] != len(xs):
            raise I.err("ValueError", "nodes and values")
        out = np.empty(X.shape + Y.shape[1:], dtype=object)
        for ix in np.ndindex(X.shape):
            L = [lag(xs, i, X[ix], der) for i in range(len(xs))]
            for iy in np.ndindex(Y.shape[1:]):
                s = 0
                for i in range(len(xs)):
                    s = add(s, mul(L[i], Y[(i,) + iy]))
                out[ix + iy] = s
        return Arr(out, F64, "np")
    I.modules["orma_fem"].ns["lagrange"] = HostFn("lagrange", f)


def elements(ctx):
    # quadrature: both end points first, exact for polynomials of degree 2n-3
    for n in (2, 3, 4, 5):
        def entry(I):
            q = I.call(I.call(need(I, NOD, "GLL_quad"), [], {}), [n], {})
            X, W = obj(q[0]), obj(q[1])
            if X.shape != (1, n) or W.shape != (n,):
                return {"shape": (X.shape, W.shape)}
            mom = []
            for k in range(2 * n - 2):
                s = 0
                for i in range(n):
                    s = add(s, mul(W[i], terms.power(X[0, i], k)))
                mom.append(s)
            return {"shape": (X.shape, W.shape), "left": X[0, 0], "right": X[0, 1], "moments": mom}
        ctx.ob("quadrature with %d points" % n, entry, lambda p: {"shape": ((1, n), (n,)), "left": 0, "right": 1, "moments": [Fraction(1, k + 1) for k in range(2 * n - 2)]},
               stubs=STBE, setup=setup(2, lag_host), mtol=1e-13, key="quadrature %d" % n)
    # a rule that was used or modified by one caller is not shared with the next
    for p_ in (1, 2, 3, 4):
        for nq in (1, 2, 3):
            X1, X2 = (Arr(oarr([S("%s%d" % (nm, q)) for q in range(nq)], (1, nq)), F64, "np") for nm in ("xa", "xb"))

            def entry(I):
                e = I.call(need(I, NOD, "ElementLinePp_nodal"), [p_], {})
                lb = I.getattr(e, "lbasis")
                out = []
                for X in (X1, X2, X1):
                    Y = Arr(X.a.copy(), F64, "np")
                    for i in range(p_ + 1):
                        r = I.call(lb, [Y, i], {})
                        out.append([r[0], r[1]])
                    # the caller may reuse its buffer
                    Y.a[...] = S("junk")
                I.el = e
                return {"basis": out, "maxdeg": I.getattr(e, "maxdeg"), "interior": I.getattr(e, "interior_dofs"), "nodal": I.getattr(e, "nodal_dofs"),
                        "names": len(I.getattr(e, "dofnames")), "doflocs": I.getattr(e, "doflocs")}

            def ref(p):
                q = p.I.call(p.I.call(need(p.I, NOD, "GLL_quad"), [], {}), [p_ + 1], {})
                xs = list(obj(q[0]).reshape(-1))
                out = []
                for X in (X1, X2, X1):
                    for i in range(p_ + 1):
                        out.append([oarr([lag(xs, i, x, 0) for x in obj(X).reshape(-1)], (nq,)), oarr([lag(xs, i, x, 1) for x in obj(X).reshape(-1)], (1, nq))])
                return {"basis": out, "maxdeg": p_, "interior": p_ - 1, "nodal": 1, "names": p_, "doflocs": oarr(xs, (p_ + 1, 1))}
            ctx.ob("nodal element order %d, %d points" % (p_, nq), entry, ref, stubs=STBE, setup=setup(2, lag_host), mtol=1e-11, key="nodal basis")
    ctx.ob("nodal element order 0 is an error", lambda I: I.call(need(I, NOD, "ElementLinePp_nodal"), [0], {}), lambda p: RAISES, stubs=STBE, setup=setup(2, lag_host))
    # the rule used for assembly collocates with the nodes of the element (lumped mass matrix)
    for p_ in (1, 2, 3, 4):
        def entry(I):
            s = I.call(need(I, ADV, "AdDiffSEM"), [mesh(I, 2, [0])], {"p": p_, "params": dict(PRM)})
            b = I.getattr(s, "basis")
            q = I.getattr(b, "quadrature")
            el = I.getattr(b, "elem")
            name = el.cls.name
            return {"kind": name, "n": obj(q[0]).shape[1], "order": I.getattr(el, "maxdeg") if p_ > 2 else I.getattr(el, "order"), "points": q[0] if p_ > 2 else [obj(q[0])[0, i] for i in range(p_ + 1)],
                    "facet": I.getattr(I.getattr(s, "basis_f"), "elem").cls.name}

        def ref(p):
            nm = {1: "ElementLineP1", 2: "ElementLineP2"}.get(p_, "ElementLinePp_nodal")
            if not isinstance(p.out, dict):
                return {}
            if p.out["kind"] == "ElementLinePp_nodal" and p_ < 3:
                return Undecidable("nodal element for low order")
            pts = {1: [0, 1], 2: [0, 1, Fraction(1, 2)]}.get(p_)
            if pts is None:
                q = p.I.call(p.I.call(need(p.I, NOD, "GLL_quad"), [], {}), [p_ + 1], {})
                pts = q[0]
            return {"kind": nm, "n": p_ + 1, "order": p_, "points": pts, "facet": nm}
        ctx.ob("collocated quadrature order %d" % p_, entry, ref, stubs=STBE, setup=setup(2, lag_host), mtol=1e-12, key="collocated quadrature")


# ------------------------------------------------------------------ systems
SA = '''
class SA:
    def __init__(self, A, Ml, b, xs, d):
        self.r = (A, Ml, b)
        self.xs = xs
        self.dirichlet_bd = d
    def assemble(self, **kw):
        return self.r
    def collocation_points(self):
        return self.xs
'''
STS = dict(STBE, orma_sa=("<assembler>", SA))


class Disc:
    """a symbolic discretisation: stiffness, lumped mass, load vector"""

    def __init__(self, m, D):
        self.m, self.D = m, D
        self.A, self.b = mat("A", m), vec("b", m)
        self.Ml = vec("M", m, positive=True, range=(0.4, 1.4))
        self.xs = vec("X", m, range=(0.1, 0.9))

    def build(self, I):
        d = None if self.D is None else Arr(oarr(list(self.D), (len(self.D),)), I64, "np")
        return I.call(need(I, "orma_sa", "SA"), [self.A, self.Ml, self.b, self.xs, d], {})

    def rows(self, f, bc=None):
        """residual / mass, Dirichlet rows replaced"""
        out = zeros(*f.shape)
        for i in range(self.m):
            for j in range(f.shape[1] if f.ndim == 2 else 1):
                x = terms.div(f[i, j] if f.ndim == 2 else f[i], obj(self.Ml)[i])
                if f.ndim == 2:
                    out[i, j] = x
                else:
                    out[i] = x
        return out

    def zero(self, f, val=0):
        f = f.copy()
        for d in self.D or ():
            f[d] = val
        return f


def systems(ctx):
    t = S("t")
    for m in (2, 3):
        for D in (None, [0], [m - 1]):
            dc = Disc(m, D)
            u, v = vec("u", m), vec("v", m)

            def entry(I):
                s = I.call(need(I, ADV, "AffineLinearSEM"), [dc.build(I)], {})
                return {"f": I.call(I.getattr(s, "frhs"), [t, u], {}), "m": I.call(I.getattr(I.call(I.getattr(s, "_fm"), [t, u], {}), "matvec"), [v], {})}

            def ref(p):
                f = dc.zero(dc.rows(minus(dc.b, dot(dc.A, u))))
                return {"f": f, "m": oarr([mul(a, b) for a, b in zip(obj(dc.Ml), obj(v))], (m,))}
            tag = "%d dofs, Dirichlet %s" % (m, D)
            ctx.ob("scalar system, %s" % tag, entry, ref, stubs=STS, setup=setup(m, lag_host), key="scalar system")
            # time-dependent Dirichlet data: the prescribed rate on the Dirichlet rows, the residual elsewhere

            def entry(I):
                s = I.call(need(I, ADV, "NonautonomousSEM"), [dc.build(I)], {})
                return I.call(I.getattr(s, "frhs"), [t, u], {})

            def con(I, b):
                z = b["t"]
                return terms.app("g", 0, ((obj(z).reshape(-1)[0] if isinstance(z, Arr) else z),))

            def ref(p):
                return dc.zero(dc.rows(minus(dc.b, dot(dc.A, u))), terms.app("g", 0, (t,)))
            ctx.ob("scalar system with Dirichlet rate, %s" % tag, entry, ref, contracts={ADV + ".NonautonomousSEM.dirichlet_dt": con}, stubs=STS, setup=setup(m, lag_host), key="Dirichlet rate")

    # the Dirichlet rate is the time derivative of the travelling profile at the left end
    def entry(I):
        s = I.call(need(I, ADV, "NonautonomousSEM"), [Disc(2, [0]).build(I)], {})
        return I.call(I.getattr(s, "dirichlet_dt"), [t], {})

    def ref(p):
        z = sub(add(Fraction("0.3"), mul(t, Fraction(1, 2))), terms.floor(add(Fraction("0.3"), mul(t, Fraction(1, 2)))))
        near = terms.lt(Fraction(1, 2), z)
        d = terms.ite(near, sub(1, z), z)
        s = terms.ite(near, -1, 1)
        # d/dt exp(-(d/(2 w))^2) with d' = +-vel
        w = Fraction("0.05")
        e = terms.exp(mul(-1, terms.power(terms.div(d, 2 * w), 2)))
        return mul(mul(e, mul(-2, terms.div(d, 4 * w * w))), mul(s, Fraction(1, 2)))
    ctx.ob("Dirichlet rate of the travelling profile", entry, ref, stubs=STS, setup=setup(2, lag_host), pre=terms.land(terms.lt(0, t), terms.lt(t, 3)), tol=1e-4, mtol=1e-9,
           hints=[{"t": Fraction(k, 17)} for k in range(1, 40)], key="Dirichlet rate profile")

    # multi-species systems
    con = {SRC + ".mxf_liq_vapor_nonlin": opaque2("mxf"), PRG + "rad_1d_9s.flux_profile": lambda I, b: Arr(oarr([terms.app("flux", 0, (x,)) for x in obj(b["x"]).reshape(-1)], (len(obj(b["x"]).reshape(-1)), 1)), F64, "jnp")}

    def bat(I, mod, keys, lib="decay_lib"):
        l = need(I, mod, lib)
        return refmat(list(keys), [[l[k]] if not isinstance(l[k][0], tuple) else list(l[k]) for k in keys])

    def adv(dc, U, n):
        return dc.rows(dot(dc.A, U))

    for mod, n in (("rad_1d_2s", 2), ("rad_1d_3s", 3), ("rad_1d_9s", 9)):
        mod_ = PRG + mod
        for m in (2, 3):
            for D in (None, [0], [m - 1]):
                if n == 9 and m == 3 and not ctx.thorough and D != [0]:
                    continue
                dc = Disc(m, D)
                u, v = vec("u", n * m), vec("v", n * m)
                U = zeros(m, n)
                for s_ in range(n):
                    for j in range(m):
                        U[j, s_] = obj(u)[s_ * m + j]

                def entry(I):
                    s = I.call(need(I, mod_, "RAD_SEM"), [dc.build(I)], {})
                    keys = ["u_0", "u_1"] if n == 2 else list(need(I, mod_, "keymap"))
                    out = {"f": I.call(I.getattr(s, "frhs"), [t, u], {})}
                    if n == 9:
                        # reactions, one by one (arbitrary profiles)
                        Ua = Arr(U, F64, "jnp")
                        out["off"] = I.call(I.getattr(s, "_gas_purify"), [Ua], {})
                    I.sysinfo = (keys, bat(I, mod_, keys), s)
                    return out

                def ref(p):
                    keys, B, s = p.I.sysinfo
                    M = lambda a, g: terms.app("mxf", 0, (a, g))
                    src = zeros(m, n)
                    want = {}
                    if n == 2:
                        for j in range(m):
                            x = M(U[j, 0], U[j, 1])
                            src[j, 0], src[j, 1] = x, mul(-1, x)
                    if n == 9:
                        I = p.I
                        Tm, Fm = (bat(I, mod_, keys, l) for l in ("transmute_lib", "fission_lib"))
                        flux = [terms.app("flux", 0, (x,)) for x in obj(dc.xs)]
                        ix = {k: i for i, k in enumerate(keys)}
                        off = zeros(m, n)
                        got = obj(p.out["off"]) if isinstance(p.out, dict) and "off" in p.out else off
                        for j in range(m):
                            # fission: flux * yield, transmutation: flux * (loss matrix) u, purification: removes vapor proportionally
                            for i in range(n):
                                x = 0
                                for k in range(n):
                                    x = sub(x, add(Fm[i, k], mul(Tm[i, k], U[j, k])))
                                src[j, i] = mul(flux[j], x)
                            for a, g in (("xe_135_a", "xe_135_v"), ("cs_135_a", "cs_135_v")):
                                x = M(U[j, ix[a]], U[j, ix[g]])
                                src[j, ix[a]] = add(src[j, ix[a]], x)
                                src[j, ix[g]] = sub(src[j, ix[g]], x)
                            # the removal rate is the same profile for both vapors and removes nothing else
                            x0 = obj(dc.xs)[j]
                            lc, rc = Fraction("3.8"), Fraction("4.2")
                            th = lambda z: terms.fn1("tanh", mul(10, z))
                            prof = add(terms.div(mul(-1, mul(th(sub(x0, lc)), th(sub(x0, rc)))), 2), Fraction(1, 2))
                            for g in ("xe_135_v", "cs_135_v"):
                                off[j, ix[g]] = mul(mul(Fraction("-0.16"), U[j, ix[g]]), prof)
                        src = plus(src, off)
                        want["off"] = off
                    F_ = minus(plus(dot(U, B.T), src), adv(dc, U, n))
                    for d in D or ():
                        F_[d, :] = 0
                    want["f"] = oarr([F_[j, s_] for s_ in range(n) for j in range(m)], (n * m,))
                    return want
                ctx.ob("%s right-hand side %d points, Dirichlet %s" % (mod, m, D), entry, ref, contracts=con, stubs=STS, setup=setup(n * m, lag_host), key="system " + mod, mtol=1e-12, budget=200)

    # 2 species: the cubic exchange conserves and is directed from the first to the second species
    def entry(I):
        s = I.call(need(I, PRG + "rad_1d_2s", "RAD_SEM"), [Disc(2, [0]).build(I)], {})
        w = Arr(obj(mat("w", 2)), F64, "jnp")
        r = obj(I.call(I.getattr(s, "_source_poly"), [w], {}))
        return [add(r[j, 0], r[j, 1]) for j in range(2)]
    ctx.ob("cubic exchange conserves", entry, lambda p: [0, 0], stubs=STS, setup=setup(2, lag_host), key="cubic exchange")

    # neutron flux: zero outside the reactor region, cosine inside
    h = S("h", positive=True, range=(0.5, 1.0))
    xs = vec("X", 3, range=(0.1, 0.9))
    for region in ([], [0], [0, 1, 2], [1, 2]):
        def entry(I):
            idx = (Arr(oarr(list(region), (len(region),)), I64, "jnp"),)
            return I.call(need(I, PRG + "rad_1d_9s", "flux_profile"), [h, xs, idx], {})

        def ref(p):
            out = zeros(3, 1)
            for i in region:
                out[i, 0] = terms.fn1("cos", terms.div(mul(terms.PI, sub(obj(xs)[i], terms.div(h, 2))), h))
            return out
        ctx.ob("flux profile on %s" % region, entry, ref, stubs=STS, setup=setup(2, lag_host), key="flux profile")
