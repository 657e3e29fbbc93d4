"""Arnoldi process: orthonormal basis, compression, Hessenberg relation, truncation window, breakdown."""
from .common import *

AR = "ormatex_py.arnoldi_jax"
STUB_OP = {"orma_op": ("<operator>", '''
from ormatex_py.ode_sys import MatrixLinOp
def mk(a):
    return MatrixLinOp(a)
''')}


def dotT(A, B):
    return dot(obj(A).T, B)


def moving(A, b):
    """b is no eigenvector of A: |Ab|^2 |b|^2 - (b.Ab)^2 is not small"""
    v = dot(obj(A), obj(b).reshape(-1))
    w = obj(b).reshape(-1)
    ip = lambda x, y: terms.add(0, dot(x, y))
    return terms.lt(Fraction(1, 10 ** 5), terms.sub(terms.mul(ip(v, v), ip(w, w)), terms.mul(ip(v, w), ip(v, w))))


def hessenberg(n):
    H = zeros(n, n)
    for i in range(n):
        for j in range(n):
            if i == j + 1:
                H[i, j] = S("h%d_%d" % (i, j), range=(0.3, 1.2))
            elif i <= j:
                H[i, j] = S("h%d_%d" % (i, j), range=(-1.2, 1.2))
    return H


def window_reference(Hm, dt, n, m, iom):
    """Incomplete orthogonalisation by its definition: w = dt A q_k minus its components along the last iom+1 basis vectors."""
    Q = [oarr([int(i == 0) for i in range(n)], (n,))]
    H = zeros(m, m)
    for k in range(m):
        w = scale(dt, dot(Hm, Q[k]))
        for i in range(max(0, k - iom), k + 1):
            c = terms.add(0, dot(w, Q[i]))
            H[i, k] = c
            w = minus(w, scale(c, Q[i]))
        if k + 1 < m:
            nw = terms.sqrt(terms.add(0, dot(w, w)))
            H[k + 1, k] = nw
            Q.append(scale(terms.div(1, nw), w))
    return {"q": [Q[j][i] for i in range(n) for j in range(m)], "qs": (n, m), "hs": (m, m), "h": [H[i, j] for i in range(m) for j in range(m)]}


def run(ctx):
    dims = (2, 3, 4, 5) if ctx.deep else (2, 3, 4)
    dt = S("dt", range=(0.2, 1.5))
    for n in dims:
        A = mat("a", n, range=(-1.2, 1.2))
        b = vec("b", n, range=(0.2, 1.5))
        for m in range(1, n + 2):
            for iom in ((0, 1, 100) if n <= 3 else (1, 100)):
                mm_ = min(m, n)

                def entry(I, m=m, iom=iom, mm_=mm_):
                    f = need(I, AR, "arnoldi_lop")
                    op = I.call(need(I, "orma_op", "mk"), [A], {})
                    q, h = I.iterate(I.call(f, [op, dt, b, m, iom], {}))
                    Q, H = obj(q), obj(h)
                    out = {"q": tuple(Q.shape), "h": tuple(H.shape)}
                    if Q.shape != (n, mm_) or H.shape != (mm_, mm_):
                        return out
                    out["v0"] = list(Q[:, 0])
                    AQ, QH = dot(scale(dt, A), Q), dot(Q, H)
                    out["rel"] = [list(minus(AQ[:, j], QH[:, j])) for j in range(mm_ - 1)]
                    G = dotT(Q, Q)
                    out["win"] = [G[i, j] for j in range(mm_) for i in range(max(0, j - 1 - iom), j + 1)]
                    out["hzero"] = [H[i, j] for i in range(mm_) for j in range(mm_) if i > j + 1 or i < j - iom]
                    # last column: projection on the window
                    j = mm_ - 1
                    out["last"] = [terms.sub(H[i, j], dot(Q[:, i], AQ[:, j])) for i in range(max(0, j - iom), mm_)]
                    return out

                def ref(p, m=m, iom=iom, mm_=mm_):
                    # breakdown happens on a null set only, so every start vector and operator sampled reaches the full size
                    nb = dot(obj(b), obj(b))
                    out = {"q": (n, mm_), "h": (mm_, mm_)}
                    out["v0"] = [terms.div(x, terms.sqrt(nb)) for x in obj(b)]
                    out["rel"] = [[0] * n for _ in range(mm_ - 1)]
                    out["win"] = [int(i == j) for j in range(mm_) for i in range(max(0, j - 1 - iom), j + 1)]
                    out["hzero"] = [0 for i in range(mm_) for j in range(mm_) if i > j + 1 or i < j - iom]
                    j = mm_ - 1
                    out["last"] = [0 for i in range(max(0, j - iom), mm_)]
                    return out
                ctx.ob("Arnoldi n=%d m=%d depth=%d" % (n, m, iom), entry, ref, stubs=dict(STUBS, **STUB_OP), nmodels=4, key="arnoldi:m%s" % ("<=n" if m <= n else ">n"),
                       pre=moving(A, b) if mm_ > 1 else None)

    # sizes beyond the sampled ones: on an upper Hessenberg operator started at the first unit vector the basis is the identity
    # (up to signs) and the compression is the operator itself, within the window
    for n in ((6, 9, 12) if ctx.deep else (6, 9)):
        Hm = hessenberg(n)
        beta = S("beta", range=(0.2, 1.5))
        b1 = Arr(oarr([beta] + [0] * (n - 1), (n,)), F64, "jnp")
        for m in (n, n - 1):
            for iom in ((0, 1, n - 3, 100) if n == 6 or ctx.deep and n == 9 else (n - 3, 100)):
                def entry(I, m=m, iom=iom):
                    op = I.call(need(I, "orma_op", "mk"), [Arr(Hm, F64, "jnp")], {})
                    q, h = I.iterate(I.call(need(I, AR, "arnoldi_lop"), [op, dt, b1, m, iom], {}))
                    Q, H = obj(q), obj(h)
                    return {"q": [Q[i, j] for i in range(Q.shape[0]) for j in range(Q.shape[1])], "qs": tuple(Q.shape), "hs": tuple(H.shape),
                            "h": [H[i, j] for i in range(H.shape[0]) for j in range(H.shape[1])]}

                def ref(p, m=m, iom=iom):
                    # window: the projection on vectors older than j-iom stays in the residual, so only full windows are unit bases
                    if iom < m - 1:
                        return window_reference(Hm, dt, n, m, iom)
                    return {"q": [int(i == j) for i in range(n) for j in range(m)], "qs": (n, m), "hs": (m, m),
                            "h": [terms.mul(dt, Hm[i, j]) for i in range(m) for j in range(m)]}
                ctx.ob("Arnoldi on a Hessenberg operator n=%d m=%d depth=%d" % (n, m, iom), entry, ref, stubs=dict(STUBS, **STUB_OP), nmodels=2,
                       key="arnoldi-hessenberg")

    # breakdown: the invariant subspace found, with A V = V H in every column
    lam = S("lam", range=(-2, 2))
    cases = []
    for n in (2, 3):
        cases.append(("multiple of the identity n=%d" % n, scale(lam, eye(n)), vec("b", n, range=(0.2, 1.5)), 1))
    blk = zeros(3, 3)
    for i in range(2):
        for j in range(2):
            blk[i, j] = S("a%d%d" % (i, j), range=(-1.2, 1.2))
    blk[2, 2] = S("a22")
    cases.append(("invariant plane n=3", blk, arr([S("b0", range=(0.2, 1)), S("b1", range=(0.2, 1)), 0]), 2))
    cases.append(("eigenvector start n=3", blk, arr([0, 0, S("b2", range=(0.2, 1))]), 1))
    cases.append(("zero operator n=2", zeros(2, 2), vec("b", 2, range=(0.2, 1.5)), 1))
    cases.append(("scalar n=1", oarr([lam], (1, 1)), vec("b", 1, range=(0.2, 1.5)), 1))
    for nm, Am, bv, kk in cases:
        n = obj(Am).shape[0]
        for m in sorted({n, n + 2, 2}):
            if min(m, n) < kk:
                continue

            def entry(I):
                f = need(I, AR, "arnoldi_lop")
                op = I.call(need(I, "orma_op", "mk"), [Arr(obj(Am), F64, "jnp")], {})
                q, h = I.iterate(I.call(f, [op, dt, bv, m, 100], {}))
                Q, H = obj(q), obj(h)
                out = {"q": tuple(Q.shape), "h": tuple(H.shape)}
                if H.shape[0] != Q.shape[1] or 0 in H.shape:
                    return out
                out["rel"] = list(minus(dot(scale(dt, Am), Q), dot(Q, H)).reshape(-1))
                G = dotT(Q, Q)
                out["orth"] = list(G.reshape(-1))
                return out

            def ref(p):
                return {"q": (n, kk), "h": (kk, kk), "rel": [0] * (n * kk), "orth": list(eye(kk).reshape(-1))}
            ctx.ob("breakdown: %s, m=%d" % (nm, m), entry, ref, stubs=dict(STUBS, **STUB_OP), nmodels=4, key="breakdown", pre=moving(Am, bv) if kk > 1 else None)
