"""Linear operators: product == dense form times vector, block structure of the augmented operator, aliases agree."""
from .common import *

SY = "ormatex_py.ode_sys"
OPS = '''
from ormatex_py.ode_sys import EyeLinOp, DiagLinOp, MatrixLinOp, AugMatrixLinOp, CustomJacLinOp, AdJacLinOp, FdJacLinOp
from jax.experimental import sparse as jsp
from orma_host import opaque_F

def rhs(t, x, **kwargs):
    return opaque_F(t, x)
def eye(n):
    return EyeLinOp(n)
def diag(d):
    return DiagLinOp(d)
def mat(a):
    return MatrixLinOp(a)
def aug(lop, dt, b, k):
    return AugMatrixLinOp(lop, dt, b, k)
def custom(t, u, j, ft):
    return CustomJacLinOp(t, u, rhs, j, ft)
def sparse(a):
    return MatrixLinOp(jsp.BCOO.fromdense(a))
def auto(t, u):
    return AdJacLinOp(t, u, rhs)
'''
STB = dict(STUBS, orma_ops=("<operators>", OPS))


def blk(A, dt, B, K):
    n, p = obj(B).shape
    M = zeros(n + p, n + p)
    for i in range(n):
        for j in range(n):
            M[i, j] = terms.mul(dt, A[i, j])
        for j in range(p):
            M[i, n + j] = obj(B)[i, j]
    for i in range(p):
        for j in range(p):
            M[n + i, n + j] = obj(K)[i, j]
    return M


def run(ctx):
    t, dt = S("t"), S("dt", range=(0.2, 1.5))
    for n in (1, 2, 3):
        F = Field("F", n)
        u, d, A = vec("u", n), vec("d", n), mat("a", n)
        J, ft = mat("j", n), vec("ft", n)
        D = zeros(n, n)
        for i in range(n):
            D[i, i] = obj(d)[i]
        base = [
            ("identity", lambda I: I.call(need(I, "orma_ops", "eye"), [n], {}), eye(n)),
            ("diagonal", lambda I: I.call(need(I, "orma_ops", "diag"), [d], {}), D),
            ("matrix", lambda I: I.call(need(I, "orma_ops", "mat"), [A], {}), obj(A)),
            ("sparse matrix", lambda I: I.call(need(I, "orma_ops", "sparse"), [A], {}), obj(A)),
            ("user Jacobian", lambda I: I.call(need(I, "orma_ops", "custom"), [t, u, J, ft], {}), obj(J)),
            ("user Jacobian without time derivative", lambda I: I.call(need(I, "orma_ops", "custom"), [t, u, J, None], {}), obj(J)),
            ("automatic Jacobian", lambda I: I.call(need(I, "orma_ops", "auto"), [t, u], {}), F.jac(t, u)),
        ]
        ops = list(base)
        for p_ in (1, 2, 3):
            B, K = mat("b", n, p_), mat("k", p_)
            for nm, mk, M in base:
                if p_ > 1 and nm not in ("matrix", "diagonal"):
                    continue
                ops.append(("augmented (%d) %s" % (p_, nm), lambda I, mk=mk, B=B, K=K: I.call(need(I, "orma_ops", "aug"), [mk(I), dt, B, K], {}), blk(M, dt, B, K)))
        B1, K1 = mat("b", n, 1), mat("k", 1)
        B2, K2 = mat("g", n + 1, 2), mat("h", 2)
        dt2 = S("dt2")
        ops.append(("twice augmented matrix", lambda I: I.call(need(I, "orma_ops", "aug"), [
            I.call(need(I, "orma_ops", "aug"), [I.call(need(I, "orma_ops", "mat"), [A], {}), dt, B1, K1], {}), dt2, B2, K2], {}),
            blk(blk(obj(A), dt, B1, K1), dt2, B2, K2)))
        for nm, mk, M in ops:
            N = M.shape[0]
            v, w, al = vec("v", N), vec("w", N), S("al")

            def entry(I):
                op = mk(I)
                m = I.getattr(op, "matvec")
                return {"call": I.call(op, [v], {}), "matvec": I.call(m, [v], {}), "np": I.call(I.getattr(op, "matvec_npcompat"), [v], {}),
                        "linear": I.call(m, [Arr(plus(scale(al, v), w), F64, "jnp")], {}), "again": I.call(m, [v], {})}

            def ref(p):
                Mv = dot(M, v)
                return {"call": outvec(Mv), "matvec": outvec(Mv), "np": outvec(Mv), "linear": outvec(plus(scale(al, Mv), dot(M, w))), "again": outvec(Mv)}
            ctx.ob("%s n=%d: product" % (nm, n), entry, ref, stubs=STB, setup=host(n, F), key="product:" + nm.split(" (")[0])

            def dense(I):
                return I.call(I.getattr(mk(I), "dense"), [], {})

            def dref(p):
                # an operator without a dense form says so
                return RAISES if isinstance(p.out, Raised) and "augmented" in nm and p.out.exc.name == "NotImplementedError" else outvec(M)
            ctx.ob("%s n=%d: dense form" % (nm, n), dense, dref, stubs=STB, setup=host(n, F), key="dense:" + nm.split(" (")[0])
    R = mat("r", 2, 3)
    ctx.ob("a rectangular matrix is not an operator", lambda I: I.call(need(I, "orma_ops", "mat"), [R], {}), lambda p: RAISES, stubs=STB, setup=host(2, Field("F", 2)), key="square")
    V3 = vec("r", 3)
    ctx.ob("a vector is not a matrix operator", lambda I: I.call(need(I, "orma_ops", "mat"), [V3], {}), lambda p: RAISES, stubs=STB, setup=host(2, Field("F", 2)), key="square")
    A, B3, K2 = mat("a", 2), mat("b", 2, 3), mat("k", 2)
    ctx.ob("mismatched blocks are rejected", lambda I: I.call(need(I, "orma_ops", "aug"), [I.call(need(I, "orma_ops", "mat"), [A], {}), dt, B3, K2], {}), lambda p: RAISES,
           stubs=STB, setup=host(2, Field("F", 2)), key="blocks")
