"""Finite-difference operator: exact on affine right-hand sides, forward difference with a relative increment in general, defined at the zero state."""
from .common import *

OPS = '''
from ormatex_py.ode_sys import FdJacLinOp, CustomJacLinOp
from orma_host import opaque_F

class Affine:
    def __init__(self, a, b, c):
        self.a = a
        self.b = b
        self.c = c
    def __call__(self, t, x, **kwargs):
        return self.a @ x + self.b + t * self.c
def rhs(t, x, **kwargs):
    return opaque_F(t, x)
def affine(t, u, a, b, c, scale, gamma, kw):
    return FdJacLinOp(t, u, Affine(a, b, c), scale=scale, gamma=gamma, **kw)
def affine_plain(t, u, a, b, c, kw):
    return FdJacLinOp(t, u, Affine(a, b, c), **kw)
def affine_custom(t, u, a, b, c, kw):
    return CustomJacLinOp(t, u, Affine(a, b, c), a, **kw)
def square(t, x, **kwargs):
    return x * x + t * t
def fd_square(t, u):
    return FdJacLinOp(t, u, square)
def custom_square(t, u, j):
    return CustomJacLinOp(t, u, square, j)
def opaque(t, u, scale, gamma, kw):
    return FdJacLinOp(t, u, rhs, scale=scale, gamma=gamma, **kw)
'''
STB = dict(STUBS, orma_ops=("<operators>", OPS))


def run(ctx):
    t, sc, gm = S("t"), S("sc"), S("gm")
    eps = S("eps", range=(0.01, 0.5), positive=True)
    Z = Fraction(0)
    for n in (1, 2, 3, 4, 6) if ctx.deep else (1, 2, 3):
        F = Field("F", n)
        u, v, w, al = vec("u", n), vec("v", n), vec("w", n), S("al")
        zero = Arr(zeros(n), F64, "jnp")
        A, b, c = mat("a", n), vec("b", n), vec("c", n)
        hints = [{"eps": Fraction(1, 64)}, {"eps": Fraction(1, 4)}]
        for uname, uu in (("", u), (" at the zero state", zero), (" at a large state", Arr(scale(10 ** 6, u), F64, "jnp"))):
            for kwn, kw in (("", {"eps": eps}), (" default increment", {})):
                # exact on affine right-hand sides, whatever the increment; rounding of the tiny default increment is
                # outside exact arithmetic
                mt = None
                for sn, (s_, g_) in {"": (1, 0), " scaled and shifted": (sc, gm)}.items():
                    def entry(I):
                        if sn:
                            op = I.call(need(I, "orma_ops", "affine"), [t, uu, A, b, c, s_, g_, dict(kw)], {})
                        else:
                            op = I.call(need(I, "orma_ops", "affine_plain"), [t, uu, A, b, c, dict(kw)], {})
                        m = I.getattr(op, "matvec")
                        return {"jv": I.call(m, [v], {}), "ft": I.call(I.getattr(op, "_fdt"), [], {}), "f": I.call(I.getattr(op, "_frhs_cached"), [], {}),
                                "lin": I.call(m, [Arr(plus(scale(al, v), w), F64, "jnp")], {}), "zero": I.call(m, [zero], {}), "shape": I.getattr(op, "shape")}

                    def ref(p):
                        M = plus(scale(s_, A), scale(g_, eye(n)))
                        return {"jv": outvec(dot(M, v)), "ft": c, "f": outvec(plus(dot(A, uu), b, scale(t, c))),
                                "lin": outvec(dot(M, plus(scale(al, v), w))), "zero": zero, "shape": (n, n)}
                    ctx.ob("affine n=%d%s%s%s" % (n, uname, kwn, sn), entry, ref, stubs=STB, setup=host(n, F), hints=hints, mtol=mt, key="affine" + uname)
                ctx.ob("affine time derivative of the user-Jacobian fallback n=%d%s%s" % (n, uname, kwn),
                       lambda I: I.call(I.getattr(I.call(need(I, "orma_ops", "affine_custom"), [t, uu, A, b, c, dict(kw)], {}), "_fdt"), [], {}),
                       lambda p: c, stubs=STB, setup=host(n, F), hints=hints, key="affine fallback" + uname)
            # a general right-hand side: the difference quotient with an increment eps*|u|_1 (eps itself at the zero state)
            def entry(I):
                op = I.call(need(I, "orma_ops", "opaque"), [t, uu, sc, gm, {"eps": eps}], {})
                return {"jv": I.call(I.getattr(op, "matvec"), [v], {}), "ft": I.call(I.getattr(op, "_fdt"), [], {})}

            def ref(p):
                s = 0
                for x in obj(uu).reshape(-1):
                    s = add(s, terms.absv(x))
                s = 1 if not isinstance(s, T) and s == 0 else terms.ite(terms.lt(0, s), s, 1)
                h = mul(eps, s)
                q = scale(1 / h, minus(F.at(t, plus(uu, scale(h, v))), F.at(t, uu)))
                return {"jv": outvec(plus(scale(sc, q), scale(gm, v))), "ft": outvec(scale(1 / eps, minus(F.at(t + eps, uu), F.at(t, uu))))}
            ctx.ob("general n=%d%s" % (n, uname), entry, ref, stubs=STB, setup=host(n, F), hints=hints, key="increment" + uname)
    # the default increments: small enough for first-order accuracy, large enough to survive cancellation in double precision
    one = Arr(oarr([Fraction(1)], (1,)), F64, "jnp")
    M1 = Arr(oarr([Fraction(2)], (1, 1)), F64, "jnp")
    for nm, build, what in (("state", lambda I: I.call(need(I, "orma_ops", "fd_square"), [0, one], {}), lambda I, op: I.call(I.getattr(op, "matvec"), [one], {})),
                            ("time", lambda I: I.call(need(I, "orma_ops", "fd_square"), [0, one], {}), lambda I, op: I.call(I.getattr(op, "_fdt"), [], {})),
                            ("time (user Jacobian)", lambda I: I.call(need(I, "orma_ops", "custom_square"), [0, one, M1], {}), lambda I, op: I.call(I.getattr(op, "_fdt"), [], {}))):
        exact = 2 if nm == "state" else 0

        def ref(p, exact=exact):
            h = obj(p.out).reshape(-1)[0] - exact if isinstance(p.out, Arr) else None
            if h is None:
                return {}
            if isinstance(h, T):
                return Undecidable("increment is not a constant")
            return p.out if Fraction(1, 10 ** 11) <= h <= Fraction(1, 10 ** 5) else outvec(oarr([exact + Fraction(1, 2 * 10 ** 8)], (1,)))
        ctx.ob("default increment in %s" % nm, lambda I: what(I, build(I)), ref, stubs=STB, setup=host(1, Field("F", 1)), tol=0, key="default increment " + nm)
