"""Degenerate inputs: the formulas extracted at zero states, zero vectors, zero operators, zero steps, one-dimensional
systems and single nodes are defined and equal to the limit of the mathematics there.

The inputs are literal zeros (everything else stays symbolic), so an undefined operation on the locus - 0/0, a division
by a vanishing norm, the logarithm of zero that is used afterwards - is seen in the value graph as nan instead of
cancelling as it does for generic symbols."""
from .. import terms as _terms
from .common import *
from .c11 import STUB_OP
from .c12 import PHC

SYSTEMS = '''
import jax.numpy as jnp
from ormatex_py.ode_sys import OdeSys, OdeSplitSys, MatrixLinOp, DiagLinOp, EyeLinOp, FdJacLinOp, AdJacLinOp, CustomJacLinOp
from orma_host import opaque_F, opaque_L

class Const(OdeSys):
    c: object
    def __init__(self, c):
        self.c = c
    def _frhs(self, t, x, **kwargs):
        return self.c + 0.0 * x
class Lin(OdeSys):
    a: object
    def __init__(self, a):
        self.a = a
    def _frhs(self, t, x, **kwargs):
        return self.a @ x
class ConstSplit(OdeSplitSys):
    c: object
    a: object
    def __init__(self, c, a):
        self.c = c
        self.a = a
    def _frhs(self, t, x, **kwargs):
        return self.c + 0.0 * x
    def _fl(self, t, x, **kwargs):
        return MatrixLinOp(self.a)
class LinSplit(OdeSplitSys):
    a: object
    def __init__(self, a):
        self.a = a
    def _frhs(self, t, x, **kwargs):
        return self.a @ x
    def _fl(self, t, x, **kwargs):
        return MatrixLinOp(self.a)
class Auto(OdeSys):
    """autonomous: the time derivative is zero"""
    def _frhs(self, t, x, **kwargs):
        return opaque_F(0.0, x)
class Opaque(OdeSys):
    def _frhs(self, t, x, **kwargs):
        return opaque_F(t, x)
class OpaqueSplit(OdeSplitSys):
    def _frhs(self, t, x, **kwargs):
        return opaque_F(t, x)
    def _fl(self, t, x, **kwargs):
        return MatrixLinOp(opaque_L(t, x))
def fd(t, u, a, kw):
    return FdJacLinOp(t, u, lambda tt, x, **k: a @ x, **kw)
def ad(t, u, a):
    return AdJacLinOp(t, u, lambda tt, x, **k: a @ x)
def ad_pair(u, fn, extra, kw):
    return AdJacLinOp(0.0, u, lambda tt, x, **k: fn(x[0:1], x[1:2], *extra, **kw))
def mk(a):
    return MatrixLinOp(a)
'''
STB = dict(STUBS, **STUB_OP, orma_deg=("<degenerate systems>", SYSTEMS))
LJ, PO, KR = "ormatex_py.matexp_leja", "ormatex_py.matexp_poly", "ormatex_py.matexp_krylov"
PH, AR, SY = "ormatex_py.matexp_phi", "ormatex_py.arnoldi_jax", "ormatex_py.ode_sys"


def Z(*sh):
    return Arr(zeros(*sh), F64, "jnp")


def run(ctx):
    _terms.IEEE[0] = True
    try:
        krylov(ctx)
        steps_(ctx)
        operators(ctx)
        matfun(ctx)
        leja(ctx)
        poly(ctx)
        models(ctx)
        trajectories(ctx)
    finally:
        _terms.IEEE[0] = False


def mkop(I, A):
    return I.call(need(I, "orma_deg", "mk"), [Arr(obj(A), F64, "jnp")], {})


# ---------------------------------------------------------------- Krylov
def krylov(ctx):
    dt = S("dt", range=(0.2, 1.2))
    for n in (1, 2, 3):
        A, v = mat("a", n, range=(-1, 1)), vec("v", n, range=(0.2, 1.5))
        ax = Arr(oarr([S("ax")] + [0] * (n - 1), (n,)), F64, "jnp")
        loci = [("zero vector", A, dt, Z(n)), ("zero operator", Z(n, n), dt, v), ("zero step", A, 0, v), ("all zero", Z(n, n), 0, Z(n))]
        if n > 1:
            nil = zeros(n, n)
            nil[0, 1] = S("nil")
            loci.append(("nilpotent operator", nil, dt, v))
            loci.append(("operator that maps the vector to zero", nil, dt, ax))
        for lab, A_, h, v_ in loci:
            dims = sorted({1, n, n + 2}) if lab in ("zero vector", "zero operator", "zero step", "all zero") else [n, n + 2]
            for m in dims:
                for k in (0, 1, 2, 3):
                    for iom in ((1, 100) if k == 1 else (100,)):
                        ctx.ob("phi_%d action, %s, n=%d m=%d window=%d" % (k, lab, n, m, iom),
                               lambda I: I.call(need(I, KR, "phi_linop"), [mkop(I, A_), h, v_, k, m], {"iom": iom}),
                               lambda p: outvec(dot(phi(k, scale(h, A_)), v_)), contracts=PHC, stubs=STB, nmodels=2, key="phi_linop:" + lab)
                ctx.ob("exp action, %s, n=%d m=%d" % (lab, n, m),
                       lambda I: I.call(need(I, KR, "matexp_linop"), [mkop(I, A_), h, v_, m], {}),
                       lambda p: outvec(dot(phi(0, scale(h, A_)), v_)), contracts=PHC, stubs=STB, nmodels=2, key="matexp_linop:" + lab)
        for lab, A_, h in (("generic operator", A, dt), ("zero operator", Z(n, n), dt), ("zero step", A, 0)):
            for np_ in (1, 2, 3):
                if n * np_ > 4:
                    continue
                for mask in range(2 ** (np_ + 1)):
                    if lab == "generic operator" and mask == 0 or n == 3 and mask not in (0, 1, 3):
                        continue
                    if lab == "generic operator" and mask != 2 ** (np_ + 1) - 1 and n * np_ > 1:
                        continue          # decided by C12 with the Krylov evaluation replaced by its contract
                    bs = [Z(n) if mask >> j & 1 else vec("b%d_" % j, n, range=(0.3, 1.5)) if n == 1 or lab == "generic operator" else
                          Arr(oarr([S("b%d_0" % j, range=(0.3, 1.5))] + [0] * (n - 1), (n,)), F64, "jnp") for j in range(np_ + 1)]

                    def ref(p):
                        s = zeros(n)
                        for j, b in enumerate(bs):
                            s = plus(s, dot(phi(j, scale(h, A_)), b))
                        return outvec(s)
                    for ns in (1, 2):
                        if ns == 2 and mask not in (0, 2 ** (np_ + 1) - 1):
                            continue
                        ctx.ob("sum of phi-actions, %s, n=%d p=%d zero vectors=%s steps=%d" % (lab, n, np_, bin(mask)[2:], ns),
                               lambda I: I.call(need(I, KR, "kiops_fixedsteps"), [mkop(I, A_), h, list(bs), 100], {"n_steps": ns}) if ns > 1 else
                               I.call(need(I, KR, "kiops_fixedsteps"), [mkop(I, A_), h, list(bs), 100], {}),
                               ref, contracts=PHC, stubs=STB, nmodels=2, key="kiops:" + lab)


# ---------------------------------------------------------------- steps
RB = ["exprb2", "exprb2_dense", "exprb2_pfd", "epi2", "exprb3", "pexprb4", "epi3", "exp_pfd"]
SPLIT = ["exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense"]
LEJA = ["epi2_leja_re", "epi2_leja_im", "epi3_leja_im"]


def methods():
    out = [("ormatex_py.ode_exp", "ExpRBIntegrator", m) for m in RB]
    out += [("ormatex_py.ode_exp", "ExpSplitIntegrator", m) for m in SPLIT]
    out += [("ormatex_py.ode_explicit", "RKIntegrator", m) for m in ("rk4",)]
    return out


def steps_(ctx):
    t0 = S("t0")
    h = S("h", range=(0.1, 0.8))
    # the Krylov, Arnoldi and augmented-operator code is followed; only the matrix functions are contracts
    for n in (1, 2):
        y0, c = vec("y", n, range=(0.3, 1.5)), vec("c", n, range=(0.3, 1.5))
        A = mat("a", n, range=(-1, 1))
        zero = Z(n)
        cases = [
            ("zero field", "Const", "ConstSplit", (zero,), (zero, Z(n, n)), y0, lambda k, d: y0),
            ("zero field at the zero state", "Const", "ConstSplit", (zero,), (zero, Z(n, n)), zero, lambda k, d: zero),
            ("constant field", "Const", "ConstSplit", (c,), (c, Z(n, n)), y0, lambda k, d: plus(y0, scale(k * d, c))),
            ("constant field from the zero state", "Const", "ConstSplit", (c,), (c, Z(n, n)), zero, lambda k, d: scale(k * d, c)),
            ("linear field at its zero state", "Lin", "LinSplit", (A,), (A,), zero, lambda k, d: zero),
            ("opaque field, zero step", "Opaque", "OpaqueSplit", (), (), y0, lambda k, d: y0),
            ("linear field, zero step", "Lin", "LinSplit", (A,), (A,), y0, lambda k, d: y0),
        ]
        for mod, cls, m in methods():
            split = cls == "ExpSplitIntegrator"
            for lab, s1, s2, a1, a2, y, want in cases:
                d = 0 if "zero step" in lab else h
                if m == "exp_pfd" and (lab.startswith("opaque") or lab.startswith("constant")):
                    continue              # homogeneous linear systems only

                def entry(I):
                    C = need(I, mod, cls)
                    s = I.call(need(I, "orma_deg", s2 if split else s1), list(a2 if split else a1), {})
                    integ = I.call(C, [s, t0, y], {"method": m})
                    return steps(I, integ, [d, d])

                def ref(p):
                    return [{"t": add(t0, mul(k, d)), "dt": d, "y": outvec(want(k, d))} for k in (1, 2)]
                ctx.ob("%s: %s, n=%d" % (m, lab, n), entry, ref, contracts=PHC, stubs=STB, setup=host(n, Field("F", n)), nmodels=2,
                       key="step:%s" % m, budget=60)
    # zero time derivative and one dimension with the phi-actions replaced by their contracts: C01/C02 have the formulas
    n = 1
    F = AutoField("F", n)
    R = Ref(F)
    y0, hh, tol = vec("y", n), S("h", range=(0.05, 0.5)), S("tol", range=(-0.5, 1.0))
    refs = {"exprb2": lambda: R.exprb2(t0, y0, hh, tol), "exprb2_dense": lambda: R.exprb2(t0, y0, hh, None), "exprb2_pfd": lambda: R.exprb2(t0, y0, hh, tol),
            "epi2": lambda: R.exprb2(t0, y0, hh, None), "exprb3": lambda: R.exprb3(t0, y0, hh, tol), "pexprb4": lambda: R.pexprb4(t0, y0, hh, tol),
            "epi3": lambda: R.exprb3(t0, y0, hh, tol)}
    for m, fn in refs.items():
        for sysn in ("Auto",):
            def entry(I):
                s = I.call(need(I, "orma_deg", sysn), [], {})
                integ = I.call(need(I, EXP, "ExpRBIntegrator"), [s, t0, y0], {"method": m, "tol_fdt": tol})
                return steps(I, integ, [hh])[-1]
            ctx.ob("%s: autonomous scalar field" % m, entry, lambda p: tri(add(t0, hh), hh, fn()), contracts=STEP_CONTRACTS, stubs=STB,
                   setup=host(n, F), nmodels=4, key="step:%s" % m)


class AutoField(Field):
    """F that ignores the time it is given"""

    def at(self, t, y, *extra):
        return Field.at(self, 0, y, *extra)

    def dt(self, t, y, *extra):
        return zeros(self.n)

    def jac(self, t, y, *extra):
        return Field.jac(self, 0, y, *extra)


# ---------------------------------------------------------------- operators
def operators(ctx):
    t = S("t")
    for n in (1, 2):
        A, u, v = mat("a", n), vec("u", n), vec("v", n)
        for lab, u_, v_ in (("zero state", Z(n), v), ("zero direction", u, Z(n)), ("zero state and direction", Z(n), Z(n))):
            for kind, kws in (("fd", ({}, {"eps": S("eps", positive=True, range=(0.01, 0.2))})), ("ad", ({},))):
                for kw in kws:
                    def entry(I):
                        f = need(I, "orma_deg", kind)
                        op = I.call(f, [t, u_, A] + ([dict(kw)] if kind == "fd" else []), {})
                        return {"jv": I.call(I.getattr(op, "matvec"), [v_], {}), "ft": I.call(I.getattr(op, "_fdt"), [], {}),
                                "f": I.call(I.getattr(op, "_frhs_cached"), [], {}), "call": I.call(op, [v_], {})}

                    def ref(p):
                        w = outvec(dot(A, v_))
                        return {"jv": w, "ft": Z(n), "f": outvec(dot(A, u_)), "call": w}
                    ctx.ob("%s Jacobian, %s, n=%d%s" % (kind, lab, n, "+eps" if kw else ""), entry, ref, stubs=STB, key="jacobian:%s:%s" % (kind, lab))


# ---------------------------------------------------------------- dense matrix functions
def matfun(ctx):
    for n in (1, 2):
        z = Z(n, n)
        b = vec("b", n)
        for k in (0, 1, 2, 3):
            c = Fraction(1, fact(k))
            one = lambda p: outvec(scale(c, eye(n)))
            # f_phi_k divides by the matrix: it is documented to announce (nearly) singular arguments
            if k and n == 1:
                ctx.ob("f_phi_k_inv announces the zero matrix, k=%d" % k,
                       lambda I: terms.lt(Fraction(1, 10 ** 8), I.iterate(I.call(need(I, PH, "f_phi_k_inv"), [z, k, Fraction(1, 2 ** 52)], {}))[1]),
                       lambda p: True, stubs=STB, key="matfun:f_phi_k_inv")
            for fn in ("f_phi_k_sq", "f_phi_k_ext") + (("f_phi_k",) if k == 0 else ()):
                ctx.ob("%s(0, %d) n=%d" % (fn, k, n), lambda I: I.call(need(I, PH, fn), [z, k], {}), one, stubs=STB, tol=1e-9, key="matfun:" + fn)
            ctx.ob("f_phi_k_sq_all(0, %d) n=%d" % (k, n), lambda I: list(I.iterate(I.call(need(I, PH, "f_phi_k_sq_all"), [z, k], {}))),
                   lambda p: [outvec(scale(Fraction(1, fact(j)), eye(n))) for j in range(k + 1)], stubs=STB, tol=1e-9, key="matfun:f_phi_k_sq_all")
            ctx.ob("f_phi_k_poly_all(0, %d) n=%d" % (k, n), lambda I: list(I.iterate(I.call(need(I, PH, "f_phi_k_poly_all"), [z, k], {}))),
                   lambda p: [outvec(scale(Fraction(1, fact(j)), eye(n))) for j in range(k + 1)], stubs=STB, tol=1e-9, key="matfun:f_phi_k_poly_all")
            for lab, zz, bb in (("zero matrix", z, b), ("zero vector", mat("z", n, range=(-1, 1)), Z(n)), ("both zero", z, Z(n))):
                ctx.ob("f_phi_k_appl, %s, k=%d n=%d" % (lab, k, n), lambda I: I.call(need(I, PH, "f_phi_k_appl"), [zz, bb, k], {}),
                       lambda p: outvec(dot(phi(k, zz), bb)), stubs=STB, tol=1e-9, key="matfun:f_phi_k_appl")


# ---------------------------------------------------------------- Leja
def leja(ctx):
    for n in (1, 2, 3):
        z, b, A = Z(n, n), vec("b", n, range=(0.2, 1.5)), mat("a", n, range=(-1, 1))
        nil = zeros(n, n)
        if n > 1:
            nil[0, 1] = 1
            start = Arr(oarr([S("b0", range=(0.5, 1))] + [0] * (n - 1), (n,)), F64, "jnp")

        def run_power(I, A_, b_):
            e, w, it = I.iterate(I.call(need(I, LJ, "power_iter"), [mkop(I, A_), b_, 20], {}))
            return {"eig": e, "finite": [terms.lt(x, 0) is not None and not (isinstance(x, float) and x != x) for x in obj(w).reshape(-1)]}
        for lab, A_, b_ in [("zero operator", z, b)] + ([("operator that maps the start vector to zero", nil, start)] if n > 1 else []):
            ctx.ob("power iteration: %s, n=%d" % (lab, n), lambda I: run_power(I, A_, b_), lambda p: {"eig": 0, "finite": [True] * n}, stubs=STB, unroll=30, key="power_iter")

            def entry(I):
                sh, sc, e, w, it = I.iterate(I.call(need(I, LJ, "leja_shift_scale"), [mkop(I, A_), n], {"b0": b_}))
                return {"eig": e, "lo": terms.le(terms.sub(sh, terms.mul(2, sc)), 0), "hi": terms.ge(terms.add(sh, terms.mul(2, sc)), 0), "usable": terms.lt(0, sc)}
            ctx.ob("shift and scale: %s, n=%d" % (lab, n), entry, lambda p: {"eig": 0, "lo": True, "hi": True, "usable": True}, stubs=STB, unroll=30, key="leja_shift_scale")
    # an ellipse that is a single point
    for n in (2, 3, 4, 8):
        for lab, a, b, c in (("point at zero", 0, 0, 0), ("point", Fraction(-3), Fraction(-3), 0)):
            def entry(I):
                z, nr, sc, sh = I.iterate(I.call(need(I, LJ, "gen_leja_conjugate"), [n], {"a": a, "b": b, "c": c}))
                zz = obj(z).reshape(-1)
                return {"n": len(zz), "defined": [not (isinstance(x, float) and x != x) for x in zz], "usable": terms.lt(0, sc), "shift": sh}
            ctx.ob("ellipse that is a %s, n=%d" % (lab, n), entry, lambda p: {"n": n, "defined": [True] * n, "usable": True, "shift": a}, stubs=STB, key="gen_leja_conjugate")
    # short sequences
    a, b = S("la", range=(-3, -1)), S("lb", range=(0.2, 0.8))
    for n in (1, 2, 3):
        pts = [a, b, terms.mul(Fraction(1, 2), terms.add(a, b))]
        ctx.ob("gen_leja_fast n=%d" % n, lambda I: I.call(need(I, LJ, "gen_leja_fast"), [a, b, n], {}), lambda p: arr(pts[:n], lib="np"), stubs=STB, key="gen_leja_fast", pre=terms.lt(terms.add(a, b), 0))
        ctx.ob("gen_leja_circle n=%d" % n, lambda I: I.call(need(I, LJ, "gen_leja_circle"), [n], {}), lambda p: Arr(oarr([1, -1, terms.I][:n], (n,)), C128, "np"), stubs=STB,
               key="gen_leja_circle")
    # interpolation of exp at a zero vector, a zero operator, a zero step
    sh, sc, tol = S("shift", range=(-1, -0.2)), S("scale", positive=True, range=(0.5, 1.5)), S("tol", positive=True, range=(1e-9, 1e-3))
    for n in (1, 2):
        A, u = mat("a", n, range=(-1, 1)), vec("u", n, range=(0.3, 1.2))
        for m in (2, 3, 4):
            xs = oarr([S("x%d" % i, range=(-2, 2)) for i in range(m)], (m,))
            cs = oarr([S("c%d" % i, range=(-1, 1)) for i in range(m)], (m,))
            X, C = Arr(xs, F64, "jnp"), Arr(cs, F64, "jnp")

            def entry(I):
                w, it, cv = I.iterate(I.call(need(I, LJ, "real_leja_expmv"), [mkop(I, A), 1, Z(n), sh, sc, X, C, tol], {}))
                return {"w": w, "converged": cv}
            ctx.ob("real Leja interpolation of the zero vector n=%d nodes=%d" % (n, m), entry, lambda p: {"w": Z(n), "converged": True}, stubs=STB, key="real_leja_expmv")
            for nr in (1, 2):
                if m < nr + 1:
                    continue

                def entry(I):
                    w, it, cv = I.iterate(I.call(need(I, LJ, "complex_conj_leja_expmv"), [mkop(I, A), 1, Z(n), sh, sc, X, nr, C, tol], {}))
                    return {"w": w, "converged": cv}
                ctx.ob("conjugate Leja interpolation of the zero vector n=%d nodes=%d real=%d" % (n, m, nr), entry, lambda p: {"w": Z(n), "converged": True},
                       stubs=STB, key="complex_conj_leja_expmv")

            def entry(I):
                w, it, cv = I.iterate(I.call(need(I, LJ, "complex_conj_imag_leja_expmv"), [mkop(I, A), 1, Z(n), sh, sc, X, C, tol], {}))
                return {"w": w}
            ctx.ob("imaginary Leja interpolation of the zero vector n=%d nodes=%d" % (n, m), entry, lambda p: {"w": Z(n)}, stubs=STB, key="complex_conj_imag_leja_expmv")


# ---------------------------------------------------------------- divided differences
def poly(ctx):
    sh, sc, h = S("shift", range=(-1, 1)), S("scale", positive=True, range=(0.3, 1.6)), S("h", range=(0.2, 1))
    x = S("x", range=(-1.5, 1.5))
    for lab, xs, sh_, sc_, h_ in (("one node", [x], sh, sc, h), ("one node at zero", [0], sh, sc, h), ("one node, zero step fraction", [x], sh, sc, 0),
                                  ("one node, zero shift", [0], 0, sc, h)):
        X = arr(oarr(xs, (1,)), lib="jnp")
        e = terms.exp(terms.mul(h_, terms.add(sh_, terms.mul(sc_, xs[0]))))
        for fn in ("leja_coeffs_exp_dd", "leja_coeffs_exp", "dd_exp_taylor"):
            ctx.ob("%s, %s" % (fn, lab), lambda I: I.call(need(I, PO, fn), [X, sh_, sc_, h_], {}), lambda p: arr(oarr([e], (1,))), stubs=STB, tol=1e-8, mtol=1e-8, key="dd:" + fn)
        ctx.ob("newton_poly_div_diff, %s" % lab, lambda I: I.call(need(I, PO, "newton_poly_div_diff"), [X, arr(oarr([S("f")], (1,)), lib="jnp")], {}),
               lambda p: arr(oarr([S("f")], (1,))), stubs=STB, key="dd:newton")
    # repeated nodes at zero: the routine that is used with them has the confluent divided differences 1/k! (times powers)
    for m in (2, 3):
        X = Z(m)
        want = [terms.div(terms.mul(terms.power(terms.mul(h, sc), k), terms.exp(terms.mul(h, sh))), fact(k)) for k in range(m)]
        ctx.ob("dd_exp_taylor, %d equal nodes" % m, lambda I: I.call(need(I, PO, "dd_exp_taylor"), [X, sh, sc, h], {}), lambda p: arr(oarr(want, (m,))), stubs=STB,
               tol=1e-8, mtol=1e-8, key="dd:equal nodes")
        ctx.ob("dd_exp_taylor, %d equal nodes, zero step fraction" % m, lambda I: I.call(need(I, PO, "dd_exp_taylor"), [X, sh, sc, 0], {}),
               lambda p: arr(oarr([1] + [0] * (m - 1), (m,))), stubs=STB, tol=1e-8, mtol=1e-8, key="dd:equal nodes")


# ---------------------------------------------------------------- model systems at the zero state
def models(ctx):
    from .c22 import SRC
    from .c23 import STS, lag_host
    from .fem import setup
    PRG = "ormatex_py.progression."
    ua, ug = S("ua", range=(0.1, 2)), S("ug", range=(0.1, 2))
    K = {k: S(k, positive=True, range=(0.2, 2)) for k in ("cvol", "alpha", "k", "kg", "ka", "ks", "e", "apre", "ah")}
    K["alpha"] = S("alpha", positive=True, range=(0.05, 0.5))

    def cont(fn, args, kw, name, key):
        """at every combination of zero arguments among the two concentrations"""
        for mask in (1, 2, 3):
            zs = {s: 0 for i, s in enumerate((ua, ug)) if mask >> i & 1}

            def entry(I):
                f = need(I, SRC, fn)
                I.generic = I.call(f, [arr(oarr([x], (1,)), lib="jnp") if x in (ua, ug) else x for x in args], dict(kw))
                return I.call(f, [arr(oarr([zs.get(x, x)], (1,)), lib="jnp") if x in (ua, ug) else x for x in args], dict(kw))

            def ref(p):
                if isinstance(p.out, Raised):
                    return Z(1)
                out = []
                for g, c in zip(obj(p.I.generic).reshape(-1), obj(p.out).reshape(-1)):
                    w = terms.substitute(g, zs) if isinstance(g, T) else g
                    if isinstance(w, float) and w != w:
                        w = c if not (isinstance(c, float) and c != c) else 0
                    out.append(w)
                return outvec(oarr(out, (1,)))
            if args[:2] == [ua, ug]:
                w_ = vec("w", 2)

                def jac(I, zs):
                    u = arr(oarr([zs.get(ua, ua), zs.get(ug, ug)], (2,)), lib="jnp")
                    op = I.call(need(I, "orma_deg", "ad_pair"), [u, need(I, SRC, fn), list(args[2:]), dict(kw)], {})
                    return I.call(I.getattr(op, "matvec"), [w_], {})

                def entry_j(I):
                    I.generic = jac(I, {})
                    return jac(I, zs)
                ctx.ob("slope of the %s, zero %s" % (name, {1: "liquid", 2: "vapour", 3: "both"}[mask]), entry_j, ref, stubs=STB, key=key + " slope")
            ctx.ob("%s, zero %s" % (name, {1: "liquid", 2: "vapour", 3: "both"}[mask]), entry, ref, stubs=STB, key=key)
    cont("mxf_liq_vapor_lin", [ua, ug], {}, "linear transfer", "model:transfer")
    cont("mxf_liq_vapor_nonlin", [ua, ug], {}, "nonlinear transfer", "model:transfer")
    cont("mxf_liq_vapor_nonlin", [ua, ug, K["k"], K["kg"], K["ka"]], {}, "nonlinear transfer with coefficients", "model:transfer")
    cont("mxf_liq_vapor_bubble_ig", [ua, ug, K["cvol"]], {}, "bubble transfer", "model:transfer")
    cont("bubble_surface_area", [ug, K["cvol"]], {}, "bubble surface", "model:transfer")
    cont("mxf_arrhenius", [ua, ug, K["e"], K["apre"]], {}, "Arrhenius rate", "model:transfer")
    cont("mxf_diffusion_sorption", [ua, ug, K["alpha"]], {}, "sorption", "model:transfer")

    # predator-prey systems: right-hand side and Jacobian at the zero state and on the axes
    u, v, t = vec("u", 2), vec("v", 2), S("t")
    for cls in ("LotkaVolterra", "LotkaVolterraNonauto"):
        for lab, z in (("zero state", Z(2)), ("no prey", Arr(oarr([0, S("u1")], (2,)), F64, "jnp")), ("no predator", Arr(oarr([S("u0"), 0], (2,)), F64, "jnp"))):
            zs = {s: x for s, x in zip(obj(u).reshape(-1), obj(z).reshape(-1)) if not isinstance(x, T)}

            def look(I, uu):
                s = I.call(need(I, PRG + "lotka_volterra", cls), [], {})
                op = I.call(I.getattr(s, "fjac"), [t, uu], {})
                return [I.call(I.getattr(s, "frhs"), [t, uu], {}), I.call(I.getattr(op, "matvec"), [v], {}), I.call(I.getattr(op, "_fdt"), [], {})]

            def entry(I):
                I.generic = look(I, u)
                return look(I, z)

            def ref(p):
                if isinstance(p.out, Raised):
                    return [Z(2)] * 3
                return [outvec(oarr([terms.substitute(g, zs) if isinstance(g, T) else g for g in obj(x).reshape(-1)], (2,))) for x in p.I.generic]
            ctx.ob("%s, %s" % (cls, lab), entry, ref, stubs=STS, setup=setup(2, lag_host), key="model:" + cls)


# ---------------------------------------------------------------- trajectories
def trajectories(ctx):
    W = "ormatex_py.integrate_wrapper"
    for n in (1, 2):
        y0, t0 = vec("y", n), S("t0")
        for m, sysn in (("exprb2", "Opaque"), ("rk4", "Opaque"), ("exp2", "OpaqueSplit"), ("epi3", "Opaque")):
            for lab, h, ns in (("no steps", S("h"), 0), ("zero step", 0, 2)):
                def entry(I):
                    s = I.call(need(I, "orma_deg", sysn), [], {})
                    r = I.call(need(I, W, "integrate"), [s, y0, t0, h, ns, m], {})
                    return {"t": list(I.iterate(I.getattr(r, "t_res"))), "y": list(I.iterate(I.getattr(r, "y_res")))}
                ctx.ob("integrate %s, %s, n=%d" % (m, lab, n), entry, lambda p: {"t": [t0] * (ns + 1), "y": [y0] * (ns + 1)}, contracts=PHC, stubs=STB,
                       setup=host(n, Field("F", n)), nmodels=2, key="trajectory")
