"""Leja generators: endpoints, containment, greedy maximality over the candidates, conjugate pairs, permutations."""
import math
from .common import *

LJ, PO = "ormatex_py.matexp_leja", "ormatex_py.matexp_poly"
BITS = lambda k: bin(k).count("1")


def seq(v):
    return list(obj(v).reshape(-1))


def prod_(xs):
    r = 1
    for x in xs:
        r = terms.mul(r, x)
    return r


def dist(a, b):
    return terms.absv(terms.sub(a, b))


def cabs2(z):
    return terms.add(terms.power(terms.real(z), 2), terms.power(terms.imag(z), 2))


def greedy(zs, order, i0):
    """for every i >= i0: distance product of the chosen point minus the best candidate's (mid-points of neighbours)."""
    out = []
    for i in range(i0, len(zs)):
        prev = [zs[j] for j in range(i)]
        o = sorted(range(i), key=lambda j: order[j])
        cand = [terms.mul(Fraction(1, 2), terms.add(zs[p], zs[q])) for p, q in zip(o, o[1:])]
        best = None
        for c in cand:
            v = prod_(dist(c, x) for x in prev)
            best = v if best is None else terms.vmax(best, v)
        out.append(terms.sub(prod_(dist(zs[i], x) for x in prev), best))
    return out


def rel_greedy(u):
    """distance product of every later point and of the best mid-point candidate (numbers)"""
    for i in range(3, len(u)):
        o = sorted(u[:i])
        best = max(math.prod(abs((p + q) / 2 - x) for x in u[:i]) for p, q in zip(o, o[1:]))
        yield math.prod(abs(u[i] - x) for x in u[:i]), best


def poly(zs):
    x = S("x", range=(-3, 3))
    return prod_(terms.sub(x, z) for z in zs)


def run(ctx):
    c, r = S("c"), S("r", positive=True, range=(0.1, 2))
    N = 110 if ctx.deep else 64
    lo, hi = terms.sub(c, r), terms.add(c, r)

    def fast(I, n):
        return seq(I.call(need(I, LJ, "gen_leja_fast"), [lo, hi, n], {}))

    def norm(z):
        # position in the interval, -1..1: a number for every sequence that is an affine image of a fixed one
        return terms.normal(terms.div(terms.sub(z, c), r))

    def entry_fast(I, n=N):
        z = fast(I, n)
        u = [norm(x) for x in z]
        out = {"n": len(z), "numbers": [not isinstance(x, terms.T) for x in u]}
        if any(isinstance(x, terms.T) for x in u):
            return out
        out["ends"] = sorted(float(x) for x in u[:2])
        out["inside"] = [bool(-1 <= x <= 1) for x in u]
        out["distinct"] = len(set(u))
        out["third"] = u[2]
        out["greedy"] = greedy(u, u, 3)
        return out
    ctx.ob("fast Leja points on every interval, n=%d" % N, entry_fast,
           lambda p: {"n": N, "numbers": [True] * N, "ends": [-1.0, 1.0], "inside": [True] * N, "distinct": N, "third": 0, "greedy": [0] * (N - 3)},
           key="fast")
    for n, a_, b_ in ((100, -2, 2), (48, -3, Fraction(1, 2))):
        def entry_lit(I):
            z = seq(I.call(need(I, LJ, "gen_leja_fast"), [a_, b_, n], {}))
            if len(z) != n or any(isinstance(x, terms.T) for x in z):
                return {"n": len(z)}
            u = [(2 * Fraction(x) - a_ - b_) / (b_ - a_) for x in z]
            return {"n": n, "ends": sorted(map(float, u[:2])), "inside": all(-1 <= x <= 1 for x in u), "distinct": len(set(u)),
                    "greedy": [bool(got * (1 + Fraction(1, 10 ** 9)) >= best) for got, best in rel_greedy(u)]}
        ctx.ob("fast Leja points of [%g, %g], n=%d" % (a_, b_, n), entry_lit,
               lambda p: {"n": n, "ends": [-1.0, 1.0], "inside": True, "distinct": n, "greedy": [True] * (n - 3)}, key="fast", nmodels=1)
    for n in (3, 4, 7):
        ctx.ob("fast Leja sequence of %d points is a prefix of the longer one" % n,
               lambda I: [terms.sub(a, b) for a, b in zip(fast(I, n), fast(I, n + 2)[:n])], lambda p: [0] * n, key="fast-prefix")

    def circle(I, n, conj):
        return seq(I.call(need(I, LJ, "gen_leja_circle"), [n], {"conjugate": conj}))
    for n in (2, 3, 4, 6, 8, 11, 16):
        def entry_circle(I):
            z = circle(I, n, False)
            return {"n": len(z), "first": z[:2], "modulus": [cabs2(x) for x in z],
                    # a point k of a Leja sequence of the circle has distance product 2^(number of binary ones of k)
                    "greedy": [prod_(cabs2(terms.sub(z[k], z[j])) for j in range(k)) for k in range(2, len(z))]}
        ctx.ob("Leja points of the circle n=%d" % n, entry_circle,
               lambda p: {"n": n, "first": [1, -1], "modulus": [1] * n, "greedy": [4 ** BITS(k) for k in range(2, n)]}, key="circle")

        def entry_cc(I):
            z = circle(I, n, True)
            return {"n": len(z), "first": z[:2], "modulus": [cabs2(x) for x in z],
                    "pairs": [terms.sub(z[k + 1], terms.conj(z[k])) if isinstance(z[k], terms.T) else z[k + 1] - z[k] for k in range(2, len(z) - 1, 2)],
                    "roots": [poly(z)] if n in (2, 4, 8, 16) else []}
        ctx.ob("conjugate Leja points of the circle n=%d" % n, entry_cc,
               lambda p: {"n": n, "first": [1, -1], "modulus": [1] * n, "pairs": [0] * len(range(2, n - 1, 2)),
                          "roots": [terms.sub(terms.power(S("x", range=(-3, 3)), n), 1)] if n in (2, 4, 8, 16) else []}, key="circle-conj")

    # long sequences: the doubling steps beyond the sampled sizes
    for n in (70, 140) if ctx.deep else (70,):
        def entry_long(I):
            z = circle(I, n, True)
            w = circle(I, n, False)
            if len(z) != n or len(w) != n:
                return {"n": len(z) if len(z) != n else len(w)}
            some = [k for k in (33, 47, 64, 65, 69, 96, 129, 139) if k < n]
            return {"n": len(z), "modulus": [cabs2(x) for x in z], "modulus2": [cabs2(x) for x in w],
                    "pairs": [terms.sub(z[k + 1], terms.conj(z[k])) for k in range(2, len(z) - 1, 2)],
                    "greedy": [prod_(cabs2(terms.sub(w[k], w[j])) for j in range(k)) for k in some],
                    "distinct": [prod_(cabs2(terms.sub(z[k], z[j])) for j in range(k)) for k in (63,)]}
        # the first 64 points are the 64th roots of unity: the last one has distance product 64
        ctx.ob("Leja points of the circle, long sequence n=%d" % n, entry_long,
               lambda p: {"n": n, "modulus": [1] * n, "modulus2": [1] * n, "pairs": [0] * len(range(2, n - 1, 2)),
                          "greedy": [4 ** BITS(k) for k in (33, 47, 64, 65, 69, 96, 129, 139) if k < n], "distinct": [64 ** 2]}, key="circle-long", nmodels=1, tol=1e-8)

    # ---- ellipse of the box [m-p, m+p] x [-q, q]
    m, p_, q = S("m"), S("p", positive=True, range=(0.3, 2)), S("q", positive=True, range=(0.3, 2))

    def conjseq(I, n, a, b, cc):
        r = I.iterate(I.call(need(I, LJ, "gen_leja_conjugate"), [], {"n": n, "a": a, "b": b, "c": cc}))
        return seq(r[0]), r[1], r[2], r[3]
    for n in (4, 6, 8, 10):
        def entry_ell(I):
            z, nr, sc, sh = conjseq(I, n, terms.sub(m, p_), terms.add(m, p_), q)
            w = [terms.sub(terms.add(sh, terms.mul(sc, x)), m) for x in z]
            return {"n": len(z), "n_real": nr, "shift": sh, "real": [terms.imag(x) for x in z[:2]],
                    "capacity": terms.mul(2, sc),
                    "on_ellipse": [terms.add(terms.power(terms.div(terms.real(x), p_), 2), terms.power(terms.div(terms.imag(x), q), 2)) for x in w],
                    "pairs": [terms.sub(z[k + 1], terms.conj(z[k])) for k in range(2, n - 1, 2)]}
        ratio = terms.land(terms.gt(p_, terms.mul(Fraction(1, 20), q)), terms.gt(q, terms.mul(Fraction(1, 20), p_)))
        ctx.ob("conjugate Leja points of an ellipse n=%d" % n, entry_ell,
               lambda pt: {"n": n, "n_real": 2, "shift": m, "real": [0, 0], "capacity": terms.add(p_, q), "on_ellipse": [1] * n, "pairs": [0] * (n // 2 - 1)},
               pre=ratio, key="ellipse")
    # the sequence depends on the shape of the box, not on its size or place
    for e in (Fraction(1, 10 ** 7), 10 ** 7):
        for lab, cc in (("ellipse", q), ("real interval", 0)):
            n = 7
            def entry_size(I):
                z0, nr0, sc0, sh0 = conjseq(I, n, terms.mul(-1, p_), p_, cc)
                z1, nr1, sc1, sh1 = conjseq(I, n, terms.mul(-e, p_), terms.mul(e, p_), terms.mul(e, cc))
                return {"points": [terms.sub(a, b) for a, b in zip(z0, z1)], "n": len(z1), "real": nr1 - nr0, "scale": terms.div(sc1, terms.mul(e, sc0)), "shift": sh1}
            ctx.ob("Leja points of a box %g times as large, %s" % (float(e), lab), entry_size,
                   lambda pt: {"points": [0] * n, "n": n, "real": 0, "scale": 1, "shift": 0}, pre=ratio, key="size")
    cospi = lambda j, M: terms.fn1("cos", terms.mul(Fraction(j, M), terms.PI))
    for n, M in ((3, 2), (5, 4), (9, 8)):
        def entry_real(I):
            z, nr, sc, sh = conjseq(I, n, terms.sub(m, p_), terms.add(m, p_), 0)
            w = [terms.div(terms.sub(terms.add(sh, terms.mul(sc, x)), m), p_) for x in z]
            return {"n": len(z), "n_real": nr, "ends": w[:2], "set": poly(w), "imag": [terms.imag(x) for x in z]}
        ctx.ob("Leja points of a real interval n=%d" % n, entry_real,
               lambda pt: {"n": n, "n_real": n, "ends": [1, -1], "set": poly([cospi(j, M) for j in range(M + 1)]), "imag": [0] * n}, key="interval")

        def entry_imag(I):
            z, nr, sc, sh = conjseq(I, n, m, m, q)
            w = [terms.div(terms.imag(terms.mul(sc, x)), q) for x in z]
            return {"n": len(z), "n_real": nr, "zero": z[0], "shift": sh, "set": poly(w), "real": [terms.real(x) for x in z],
                    "pairs": [terms.add(w[k], w[k + 1]) for k in range(1, n - 1, 2)]}
        ctx.ob("Leja points of an imaginary interval n=%d" % n, entry_imag,
               lambda pt: {"n": n, "n_real": 1, "zero": 0, "shift": m, "set": poly([cospi(j, M) for j in range(M + 1)]), "real": [0] * n,
                           "pairs": [0] * (n // 2)}, key="imaginary")
    for n in (4, 6, 7):
        for lab, args in (("real", (terms.sub(m, p_), terms.add(m, p_), 0)), ("imaginary", (m, m, q))):
            ctx.ob("%s Leja sequence of %d points is a prefix of the longer one" % (lab, n),
                   lambda I: [terms.sub(a, b) for a, b in zip(conjseq(I, n, *args)[0], conjseq(I, n + 2, *args)[0][:n])], lambda pt: [0] * n, key="conj-prefix")
    ctx.ob("an interval with swapped ends is rejected", lambda I: conjseq(I, 6, terms.add(m, p_), terms.sub(m, p_), terms.add(p_, q)),
           lambda pt: RAISES, key="empty")
    ctx.ob("a negative half height is rejected", lambda I: conjseq(I, 6, terms.sub(terms.sub(m, p_), q), terms.add(m, terms.add(p_, q)), terms.mul(-1, q)),
           lambda pt: RAISES, key="empty")

    # ---- imaginary sequence built from the real one
    b = S("beta", positive=True, range=(0.2, 3))
    for n in (6, 10, 12):
        def entry_ic(I):
            z = seq(I.call(need(I, LJ, "gen_complex_conj_leja_fast"), [b, n], {}))
            u = [terms.normal(terms.div(terms.imag(x), b)) for x in z]
            num = not any(isinstance(x, terms.T) for x in u)
            return {"zero": z[0], "real": [terms.real(x) for x in z], "numbers": num, "inside": num and all(-1 <= x <= 1 for x in u),
                    "distinct": len(z) - len(set(u)), "pairs": [terms.add(u[k], u[k + 1]) for k in range(1, len(z) - 1, 2)], "extreme": sorted(map(float, u[1:3])) if num else None}

        def ref_ic(pt):
            L = len(pt.out["real"]) if isinstance(pt.out, dict) else 0
            return {"zero": 0, "real": [0] * L, "numbers": True, "inside": True, "distinct": 0, "pairs": [0] * ((L - 1) // 2), "extreme": [-1.0, 1.0]}
        ctx.ob("conjugate sequence on the imaginary axis n=%d" % n, entry_ic, ref_ic, key="imag-conj")

    # ---- reordering
    for n in (1, 2, 3, 4):
        for kind in ("real", "complex"):
            if kind == "complex" and n > 3:
                continue
            xs = [S("x%d" % i, range=(-2, 2)) for i in range(n)]
            if kind == "complex":
                xs = [terms.add(x, terms.mul(terms.I, S("y%d" % i, range=(-2, 2)))) for i, x in enumerate(xs)]
            A = Arr(oarr(xs, (n,)), F64 if kind == "real" else C128, "np")

            def entry_re(I):
                z = seq(I.call(need(I, PO, "leja_seq_reordering"), [A], {}))
                g = []
                if len(z) == n:
                    for i in range(1, n):
                        vals = [prod_(terms.sqrt(cabs2(terms.sub(z[k], z[j]))) for j in range(i)) for k in range(i, n)]
                        best = vals[0]
                        for v in vals[1:]:
                            best = terms.vmax(best, v)
                        g.append(terms.sub(vals[0], best))
                return {"n": len(z), "set": poly(z), "greedy": g}
            ctx.ob("reordering %d %s points" % (n, kind), entry_re, lambda pt: {"n": n, "set": poly(xs), "greedy": [0] * (n - 1)}, key="reorder",
                   nmodels=12 if n > 3 else 6)

    for n in (24, 60) if ctx.deep else (24, 45):
        lit = [terms.num(Fraction(2 * ((7 * i) % n) + (i % 3), n)) for i in range(n)]

        def entry_rl(I):
            z = seq(I.call(need(I, PO, "leja_seq_reordering"), [Arr(oarr(lit, (n,)), F64, "np")], {}))
            if len(z) != n or any(isinstance(x, terms.T) for x in z):
                return {"n": len(z)}
            z = [Fraction(x) for x in z]
            # floating-point ties: relative slack far above rounding
            g = []
            for i in range(1, n):
                vals = [math.prod(abs(z[k] - z[j]) for j in range(i)) for k in range(i, n)]
                g.append(bool(vals[0] * (1 + Fraction(1, 10 ** 9)) >= max(vals)))
            return {"n": n, "set": sorted(map(float, z)), "greedy": g}
        ctx.ob("reordering %d points" % n, entry_rl, lambda pt: {"n": n, "set": sorted(map(float, lit)), "greedy": [True] * (n - 1)}, key="reorder", nmodels=1)

    # ---- padding
    for n in (1, 2, 3):
        for np_ in (1, 2, 3, 8):
            x = vec("x", n)

            def entry_pad(I):
                z = seq(I.call(need(I, PO, "leja_seq_pad_zeros"), [x, np_], {}))
                return {"n": len(z), "tail": [terms.sub(a, b_) for a, b_ in zip(z[np_:], obj(x))],
                        "near": [terms.le(terms.absv(a), Fraction(1, 10 ** 9)) for a in z[:np_]]}
            ctx.ob("padding %d points with %d zeros" % (n, np_), entry_pad, lambda pt: {"n": n + np_, "tail": [0] * n, "near": [True] * np_}, key="pad")
