"""Dense phi-function evaluators: inverse recurrence, extension formula, Taylor, scaling and squaring."""
from .common import *

PH = "ormatex_py.matexp_phi"


def taylor(j, k, deg, Z):
    """phi_j truncated so that phi_0 has degree deg: sum_{i<=deg-j} Z^i/(i+j)!"""
    n = obj(Z).shape[0]
    s, P = scale(Fraction(1, fact(j)), eye(n)), eye(n)
    for i in range(1, deg - j + 1):
        P = dot(P, Z)
        s = plus(s, scale(Fraction(1, fact(i + j)), P))
    return s


def con_poly_exact(I, b):
    Z, K = b["z"], kint(I, b["k"])
    I.events.append(("poly", K))
    return [outvec(phi(j, Z)) for j in range(K + 1)]


def con_poly_zero(I, b):
    Z, K = b["z"], kint(I, b["k"])
    I.first = (Z, kint(I, b["poly_deg"]))
    return [outvec(zeros(*obj(Z).shape)) for j in range(K + 1)]


def norm_inf(Z):
    rows = []
    for r in obj(Z):
        s = 0
        for x in r:
            s = terms.add(s, terms.absv(x))
        rows.append(s)
    m = rows[0]
    for x in rows[1:]:
        m = terms.vmax(m, x)
    return m


def all_of(cs):
    out = True
    for c in cs:
        out = terms.land(out, c)
    return out


def run(ctx):
    ks = range(0, 7)
    for n in (1, 2, 3):
        Z = mat("z", n, range=(-1.5, 1.5))
        big = mat("z", n, range=(-6, 6))
        for k in ks:
            if n == 3 and k > (5 if ctx.deep else 4) or n == 2 and k > (6 if ctx.deep else 5):
                continue

            def call(fn, *args, **kw):
                def e(I):
                    return I.call(need(I, PH, fn), list(args), kw)
                return e
            ctx.ob("extension formula k=%d n=%d" % (k, n), call("f_phi_k_ext", Z, k), lambda p: outvec(phi(k, Z)), nmodels=3, key="ext")
            ctx.ob("extension formula, all orders, k=%d n=%d" % (k, n), call("f_phi_k_ext", Z, k, True),
                   lambda p: arr([phi(j, Z) for j in range(k + 1)]), nmodels=3, key="ext-all")
            if n <= 2:
                ctx.ob("inverse recurrence k=%d n=%d" % (k, n), lambda I: I.iterate(I.call(need(I, PH, "f_phi_k_inv"), [Z, k, S("eps")], {}))[0],
                       lambda p: outvec(phi(k, Z)), nmodels=3, key="inv")
                ctx.ob("f_phi_k k=%d n=%d" % (k, n), call("f_phi_k", Z, k), lambda p: outvec(phi(k, Z)), nmodels=3, key="phi")
            # scaling and squaring on top of an exact initial evaluation: exact for every number of squarings
            for nm, zz in (("small", Z), ("large", big)):
                if n == 3 and nm == "large":
                    continue
                ctx.ob("squaring k=%d n=%d %s" % (k, n, nm), call("f_phi_k_sq_all", zz, k), lambda p: [outvec(phi(j, zz)) for j in range(k + 1)],
                       contracts={PH + ".f_phi_k_poly_all": con_poly_exact}, nmodels=3, key="squaring")
            for d in range(k + 1, k + 4):
                ctx.ob("Taylor evaluator k=%d n=%d degree %d" % (k, n, d), call("f_phi_k_poly_all", Z, k, d),
                       lambda p: [outvec(taylor(j, k, d, Z)) for j in range(k + 1)], nmodels=3, key="taylor")
            if n <= 2:
                # end to end: truncation controlled by the scaling (3e-5 up to norm 12)
                ctx.ob("accuracy of f_phi_k_sq k=%d n=%d" % (k, n), call("f_phi_k_sq", big, k), lambda p: outvec(phi(k, big)),
                       nmodels=4, key="accuracy", tol=3e-5, mtol=3e-5)
                ctx.ob("f_phi_k_sq all orders k=%d n=%d" % (k, n), call("f_phi_k_sq", Z, k, True), lambda p: arr([phi(j, Z) for j in range(k + 1)]),
                       contracts={PH + ".f_phi_k_poly_all": con_poly_exact}, nmodels=3, key="sq-all")

    # the initial polynomial is only used where it is accurate, for every size of the argument
    for n in (1, 2):
        for k in range(0, 6):
            for lo, hi in ((-2, 2), (-40, -20), (-700, -300), (-9000, -4000), (2000, 90000), (-3 * 10 ** 6, -2 * 10 ** 6), (10 ** 8, 10 ** 9)):
                if n == 2 and (k not in (0, 1, 3) or hi > 2 and not ctx.deep and lo not in (-9000, 10 ** 8)):
                    continue
                zz = mat("z", n, range=(lo, hi))

                def entry(I):
                    I.call(need(I, PH, "f_phi_k_sq_all"), [zz, k], {})
                    z0, deg = I.first
                    return all_of([terms.lt(norm_inf(z0), Fraction(1, 4)), deg >= max(4, k + 1)])
                ctx.ob("initial polynomial of the squaring k=%d n=%d entries in [%d, %d]" % (k, n, lo, hi), entry, lambda p: True,
                       contracts={PH + ".f_phi_k_poly_all": con_poly_zero}, nmodels=3, key="scaled", unroll=48, limit=200)

    # arguments that are not square matrices or negative orders are rejected
    for fn in ("f_phi_k_ext", "f_phi_k_sq", "f_phi_k"):
        for lab, z, k in (("2x3", mat("z", 2, 3), 1), ("negative order", mat("z", 2), -1)):
            ctx.ob("%s rejects %s" % (fn, lab), lambda I: I.call(need(I, PH, fn), [z, k], {}), lambda p: RAISES, key="reject:" + fn, nmodels=1)
