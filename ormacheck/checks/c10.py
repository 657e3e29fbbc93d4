"""Matrix-function actions: extended-matrix formula and partial-fraction (rational) formula."""
from .common import *

PH = "ormatex_py.matexp_phi"


def run(ctx):
    for n in (1, 2, 3):
        Z = mat("z", n, range=(-1.5, 1.5))
        for shape in ((n,), (n, 1), (n, 2), (n, 3)):
            if n == 3 and shape == (3, 3) and not ctx.thorough:
                continue
            if len(shape) == 1:
                B = vec("b", n)
            else:
                B = mat("b", n, shape[1])
            for k in range(0, 5):
                if n * shape[-1] > 4 and k > 2 and not ctx.thorough:
                    continue

                def ref(p, k=k):
                    return outvec(dot(phi(k, Z), obj(B)))
                ctx.ob("extended-matrix action k=%d n=%d B%s" % (k, n, shape),
                       lambda I, k=k: I.call(need(I, PH, "f_phi_k_appl"), [Z, B, k], {}), ref,
                       contracts={PH + ".f_phi_k_sq": con_phi_sq, PH + ".f_phi_k_sq_all": con_phi_sq_all, PH + ".f_phi_k_ext": con_phi_sq}, nmodels=3, key="appl")

    # rational variant: exactly the function the selected table defines
    def tables(I):
        d = need(I, PH, "pfd_dict")
        return dict(d)
    parts, und = explore(tables, ctx.project, {}, {})
    tab = parts[0].out if parts and isinstance(parts[0].out, dict) else {}
    ok = {}
    for nm, t in tab.items():
        try:
            ps, cs, c0 = [list(obj(x).reshape(-1)) if not isinstance(x, (list, tuple)) else list(x) for x in t[:2]] + [t[2]]
            ok[nm] = (ps, cs, c0)
        except Exception:
            pass
    want = [x for x in ("CN", "IE", "3", "cram_2", "cram_4", "pade_1_2") if x in ok]
    if len(want) < 3:
        ctx.note_undecided("partial-fraction action", "tables of another structure")

    for n in (1, 2):
        Z = mat("z", n, range=(-2.5, -0.5))
        if n == 2:
            Z = arr([[S("z00", range=(-3, -1.2)), S("z01", range=(-.5, .5))], [S("z10", range=(-.5, .5)), S("z11", range=(-3, -1.2))]])
        for shape in ((n,), (n, 2)):
            B = vec("b", n) if len(shape) == 1 else mat("b", n, 2)
            for nm in want:
                ps, cs, c0 = ok[nm]
                for k in (0, 1, 2, 3, 5):
                    def ref(p):
                        M = scale(c0, obj(B)) if k == 0 else zeros(*shape)
                        for pp, cc in zip(ps, cs):
                            R = inv(minus(Z, scale(pp, eye(n))))
                            w = terms.div(terms.mul(2, cc), terms.power(pp, k) if k else 1)
                            M = plus(M, oarr([terms.real(terms.mul(w, x)) for x in dot(R, obj(B)).reshape(-1)], shape))
                        return outvec(M)
                    ctx.ob("rational action table %s k=%d n=%d B%s" % (nm, k, n, shape),
                           lambda I: I.call(need(I, PH, "f_phi_k_pfd"), [Z, B, k, nm], {}), ref, nmodels=3, key="pfd")
            # and, for the tables of high degree, phi_k(Z) B itself on a negative spectrum
            for nm in ("cram_16", "cram_14"):
                if tab and nm not in tab:
                    continue
                for k in (0, 1, 2, 3, 4):
                    ctx.ob("rational action %s approximates phi_%d n=%d B%s" % (nm, k, n, shape),
                           lambda I: I.call(need(I, PH, "f_phi_k_pfd"), [Z, B, k, nm], {}), lambda p: outvec(dot(phi(k, Z), obj(B))),
                           nmodels=3, key="pfd-approx", tol=1e-8, mtol=1e-8)
    for fn in ("f_phi_k_appl",):
        for lab, z, b, k in (("shape mismatch", mat("z", 2), vec("b", 3), 1), ("non-square", mat("z", 2, 3), vec("b", 2), 1), ("negative order", mat("z", 2), vec("b", 2), -1)):
            ctx.ob("%s rejects %s" % (fn, lab), lambda I: I.call(need(I, PH, fn), [z, b, k], {}), lambda p: RAISES, key="reject:" + fn, nmodels=1)


def inv(A):
    A = obj(A)
    n = A.shape[0]
    if n == 1:
        return oarr([terms.div(1, A[0, 0])], (1, 1))
    det = terms.sub(terms.mul(A[0, 0], A[1, 1]), terms.mul(A[0, 1], A[1, 0]))
    return oarr([terms.div(A[1, 1], det), terms.div(terms.mul(-1, A[0, 1]), det), terms.div(terms.mul(-1, A[1, 0]), det), terms.div(A[0, 0], det)], (2, 2))
