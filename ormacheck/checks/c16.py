"""Leja substep controllers: accepted substeps are converged, chained, positive and sum to one; failure is reported."""
import itertools

from ..values import Bounded
from .common import *
from .c11 import STUB_OP

LJ = "ormatex_py.matexp_leja"
STB = dict(STUBS, **STUB_OP)


@guard
def con_one(I, b):
    """one polynomial evaluation: an opaque vector and the next scripted convergence flag"""
    k = len([e for e in I.events if e[0] == "sub"])
    if k >= len(I.flags):
        if I.tail is None:
            raise Bounded("more attempts than scripted")
        flag = I.tail
    else:
        flag = I.flags[k]
    u = obj(b["u"]).reshape(-1)
    w = Arr(oarr([terms.app("leja_sub%d" % k, (j,), list(u) + [b["dt"]]) for j in range(len(u))], (len(u),)), F64, "jnp")
    it = S("iters%d" % k, positive=True)
    I.events.append(("sub", flag, b["dt"], tuple(u), tuple(w.a.reshape(-1)), it,
                     {q: b.get(q) for q in ("shift", "scale", "leja_x", "coeffs", "tol", "n_leja_real")}))
    return w, it, flag


def con_dd(tag):
    @guard
    def f(I, b):
        x = obj(b["leja_x"]).reshape(-1)
        I.events.append(("dd", tag, tuple(x), b["shift"], b["scale"], b.get("h", 1)))
        return Arr(oarr([S("dd_%s%d" % (tag, j)) for j in range(len(x))], (len(x),)), F64, "jnp")
    return f


CON = {
    LJ + ".real_leja_expmv": con_one,
    LJ + ".complex_conj_leja_expmv": con_one,
    "ormatex_py.matexp_poly.dd_exp_taylor": con_dd("taylor"),
    "ormatex_py.matexp_poly.leja_coeffs_exp": con_dd("pade"),
    "ormatex_py.matexp_poly.leja_coeffs_exp_dd": con_dd("recursive"),
}


def script(flags, tail):
    def s(I):
        I.flags, I.tail = flags, tail
    return s


def near(flags, small):
    """first sizes whose accepted substeps end just short of the end of the step, and a few others"""
    out = [0.9, 0.6, 0.34, 0.26, 1.0] if small else [1.0, 1.5, 2.5]
    r = 0
    for f in flags:
        if f:
            break
        r += 1
    for k in (1, 2, 3, 4):
        for eps in (3e-2, 3e-3, 3e-4, 1e-6):
            t = 1.2 ** r * (1 - eps) / k
            if small and t <= 1:
                out.append(t)
    return out


def run(ctx):
    n, m, nn = 2, 3, 1
    A = mat("a", n)
    v = vec("v", n)
    sh, sc, tol = S("shift"), S("scale", positive=True), S("tol", positive=True)
    X = vec("x", m)
    tau = S("tau", positive=True, range=(0.05, 1.0))
    big = S("tau", positive=True, range=(1.0, 3.0))
    L = 6 if ctx.deep else 5

    def call(I, kind, tau_, substep, ddm, nz):
        op = I.call(need(I, "orma_op", "mk"), [A], {})
        kw = {"tol": tol, "substep": substep, "dd_method": ddm}
        if kind == "real":
            return list(I.iterate(I.call(need(I, LJ, "real_leja_expmv_substep"), [op, tau_, v, X, nn, sh, sc], kw)))
        kw["leja_n_zeros"] = nz
        return list(I.iterate(I.call(need(I, LJ, "complex_conj_leja_expmv_substep"), [op, tau_, v, X, 1, nn, sh, sc], kw)))

    def options(I, out, kind, ddm, nz):
        """the nodes, coefficients, shift, scale and tolerance every evaluation was given"""
        subs = [e for e in I.events if e[0] == "sub"]
        dds = [e for e in I.events if e[0] == "dd"]
        pad = nz if kind == "conj" else 0
        out["coeffs from"] = dds[-1][1] if dds else None
        out["dd args"] = list(dds[-1][3:6]) if dds else None
        out["opts"] = [[e[6]["shift"], e[6]["scale"], e[6]["tol"]] for e in subs]
        out["coeffs"] = [list(obj(e[6]["coeffs"]).reshape(-1)) for e in subs]
        out["nodes"] = [list(obj(e[6]["leja_x"]).reshape(-1))[pad:] for e in subs]
        out["same nodes"] = [tuple(obj(e[6]["leja_x"]).reshape(-1)) == dds[-1][2] for e in subs] if dds else []
        if kind == "conj":
            out["real nodes"] = [e[6]["n_leja_real"] for e in subs]

    def want_options(p, out, kind, ddm, nz):
        subs = [e for e in p.I.events if e[0] == "sub"]
        k = len(subs)
        pad = nz if kind == "conj" else 0
        out["coeffs from"] = ddm
        out["dd args"] = [sh, sc, 1]
        out["opts"] = [[sh, sc, tol]] * k
        out["coeffs"] = [[S("dd_%s%d" % (ddm, j)) for j in range(m + pad)]] * k
        out["nodes"] = [list(obj(X))] * k
        out["same nodes"] = [True] * k
        if kind == "conj":
            out["real nodes"] = [1 + pad] * k

    for kind in ("real", "conj"):
        for tau_, lab in ((tau, "tau<=1"), (big, "tau>1")):
            for flags in itertools.product((True, False), repeat=L):
                nz = 2 if kind == "conj" else 0

                def entry(I):
                    cut = False
                    try:
                        w, it, cv, mx = call(I, kind, tau_, True, "taylor", nz)
                    except Bounded:
                        cut = True
                    subs = [e for e in I.events if e[0] == "sub"]
                    I.cut = cut
                    acc = [e for e in subs if e[1]]
                    out = {}
                    s = 0
                    for e in acc:
                        s = terms.add(s, e[2])
                    out["sum"] = s
                    out["positive"] = [terms.lt(0, e[2]) for e in subs]
                    out["within"] = []
                    done, cur, chain = 0, tuple(obj(v)), []
                    for e in subs:
                        chain.append(list(minus(oarr(list(e[3]), (n,)), oarr(list(cur), (n,)))))
                        out["within"].append(terms.le(terms.add(done, e[2]), 1 + Fraction(1, 10 ** 9)))
                        if e[1]:
                            done, cur = terms.add(done, e[2]), e[4]
                    out["chain"] = chain
                    # a rejected size is not tried again unchanged
                    out["smaller"] = [terms.lt(b[2], a[2]) for a, b in zip(subs, subs[1:]) if not a[1]]
                    if cut:
                        del out["sum"]
                        options(I, out, kind, "taylor", nz)
                        return out
                    out["converged"] = cv
                    out["w"] = list(minus(w, oarr(list(cur)[:nn], (nn,))))
                    q = 0
                    for e in subs:
                        q = terms.add(q, e[5])
                    out["iters"] = terms.sub(it, q)
                    mm_ = 0
                    for e in acc:
                        mm_ = terms.vmax(mm_, e[2])
                    out["largest"] = terms.sub(mx, mm_)
                    options(I, out, kind, "taylor", nz)
                    return out

                def ref(p):
                    subs = [e for e in p.I.events if e[0] == "sub"]
                    out = {"converged": True, "sum": 1, "positive": [True] * len(subs), "within": [True] * len(subs),
                           "chain": [[0] * n] * len(subs), "w": [0] * nn, "smaller": [True] * len([e for e in subs[:-1] if not e[1]]),
                           "iters": 0, "largest": 0}
                    if p.I.cut:
                        for k in ("converged", "sum", "w", "iters", "largest"):
                            del out[k]
                    want_options(p, out, kind, "taylor", nz)
                    return out
                ctx.ob("%s substeps, outcomes %s, %s" % (kind, "".join("A" if f else "r" for f in flags), lab), entry, ref, contracts=CON, stubs=STB,
                       setup=script(flags + (True,) * 5, None), key="substep:" + kind, nmodels=12, mtol=1e-12,
                       hints=[{"tau": t} for t in near(flags, tau_ is tau)])
        for ddm in ("taylor", "pade", "recursive"):
            for nz in ((0, 2) if kind == "conj" else (0,)):
                for flag in (True, False):
                    def entry1(I):
                        w, it, cv, mx = call(I, kind, tau, False, ddm, nz)
                        subs = [e for e in I.events if e[0] == "sub"]
                        out = {"calls": len(subs), "converged": cv}
                        if len(subs) == 1:
                            e = subs[0]
                            out["h"] = e[2]
                            out["in"] = list(e[3])
                            out["w"] = list(minus(w, oarr(list(e[4])[:nn], (nn,))))
                            out["iters"] = terms.sub(it, e[5])
                        options(I, out, kind, ddm, nz)
                        return out

                    def ref1(p):
                        out = {"calls": 1, "converged": flag, "h": 1, "in": list(obj(v)), "w": [0] * nn, "iters": 0}
                        want_options(p, out, kind, ddm, nz)
                        return out
                    ctx.ob("%s without substepping (%s coefficients, %d zeros, converged=%s)" % (kind, ddm, nz, flag), entry1, ref1, contracts=CON, stubs=STB,
                           setup=script([flag], None), key="single:" + kind)
        ctx.ob("%s substeps that never converge raise" % kind, lambda I: call(I, kind, Fraction(1, 2), True, "taylor", 0), lambda p: RAISES,
               contracts=CON, stubs=STB, setup=script([], False), key="never:" + kind)
        ctx.ob("%s substeps that stop converging raise" % kind, lambda I: call(I, kind, Fraction(1, 4), True, "taylor", 0), lambda p: RAISES,
               contracts=CON, stubs=STB, setup=script([True, True], False), key="never:" + kind)
    # shift and scale of the real interval [lambda, 0]
    lam = S("lam", range=(-5, -0.5))
    sf = S("sf", positive=True, range=(0.8, 1.5))

    @guard
    def con_power(I, b):
        I.events.append(("power", b["iter"], tuple(obj(b["b0"]).reshape(-1))))
        return lam, vec("pb", n), S("pit", positive=True)

    def entry_ss(I):
        op = I.call(need(I, "orma_op", "mk"), [A], {})
        b0 = vec("b", n)
        shift, scl, me, b, it = I.iterate(I.call(need(I, LJ, "leja_shift_scale"), [op, n, 7, b0, sf], {}))
        ev = [e for e in I.events if e[0] == "power"]
        # nodes are in [-2, 2]: the interval they are mapped to
        return {"lo": terms.sub(shift, terms.mul(2, scl)), "hi": terms.add(shift, terms.mul(2, scl)), "eig": me, "b": b, "it": it,
                "start": [e[1] for e in ev] + [list(e[2]) for e in ev]}
    ctx.ob("the real Leja interval is the estimated spectral interval", entry_ss,
           lambda p: {"lo": terms.mul(sf, lam), "hi": 0, "eig": terms.mul(sf, lam), "b": vec("pb", n), "it": S("pit", positive=True), "start": [7, list(obj(vec("b", n)))]},
           contracts={LJ + ".power_iter": con_power}, stubs=STB, key="interval")
