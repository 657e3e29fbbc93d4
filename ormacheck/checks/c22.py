"""Decay systems: the matrix assembled from a library is the decay matrix of that library, for every library structure; the systems step with it; phase transfer conserves atoms."""
import itertools

from .common import *

BAT, NONLIN, SRC = "ormatex_py.progression.bateman_sys", "ormatex_py.progression.bateman_nonlin_sys", "ormatex_py.progression.species_source_sink"


def entries(names, i, full):
    """every library entry of nuclide i: one daughter, or a tuple of one or two branches"""
    out = [(c,) for c in ["none"] + names]
    res = [("plain", c) for c in out]
    res += [("branches", c) for c in out]
    two = [(a[0], b[0]) for a in out for b in out]
    if not full:
        two = [x for x in two if x in (("none", names[0]), (names[-1], "none"), (names[0], names[-1]), (names[-1], names[-1]))]
    return res + [("branches", c) for c in two] + ([("branches", ("none", names[0], names[-1]))] if full else [])


def terms_sum(xs):
    s = 0
    for x in xs:
        s = add(s, x)
    return s


def build(i, e, name):
    kind, ch = e
    lam = [sym("lam%d%d" % (i, j), positive=True) for j in range(len(ch))]
    ent = (ch[0], lam[0]) if kind == "plain" else tuple((c, l) for c, l in zip(ch, lam))
    return ent, list(zip(ch, lam))


def refmat(names, br):
    n = len(names)
    M = zeros(n, n)
    for i, bs in enumerate(br):
        for c, l in bs:
            M[i, i] = sub(M[i, i], l)
            if c != "none":
                j = names.index(c)
                M[j, i] = add(M[j, i], l)
    return M


def libs(thorough):
    for n in (1, 2):
        names = ["n%d" % i for i in range(n)]
        for es in itertools.product(*[entries(names, i, True) for i in range(n)]):
            yield names, es
    names = ["n0", "n1", "n2"]
    full = [entries(names, i, True) for i in range(3)]
    plain = [e for e in full[0] if e[0] == "plain"]
    for es in itertools.product(plain, repeat=3):
        yield names, es
    # branch entries at every position, the other nuclides running through every single daughter
    for i in range(3):
        for k, e in enumerate(full[i]):
            for a in range(4) if thorough else (k % 4,):
                es = [plain[a], plain[(a + k) % 4], plain[(a + 1) % 4]]
                es[i] = e
                yield names, tuple(es)


def run(ctx):
    th = ctx.thorough
    groups = {}
    for names, es in libs(th):
        groups.setdefault((len(names), sum(1 for e in es if e[0] != "plain"), es[0]), []).append((names, es))
    phi = S("phi")
    for gk, items in sorted(groups.items(), key=str):
        data = []
        for names, es in items:
            ent = [build(i, e, names[i]) for i, e in enumerate(es)]
            data.append((names, {nm: x[0] for nm, x in zip(names, ent)}, [x[1] for x in ent]))

        def entry(I, fn="gen_bateman_matrix"):
            f = need(I, BAT, fn)
            out = []
            for k, (names, lib, br) in enumerate(data):
                keys = list(names)
                if k % 3 == 1:      # libraries may list the species in any order, and more species than are tracked
                    lib = dict(reversed(list(lib.items())), extra=("none", sym("lx")))
                out.append(I.call(f, [keys, dict(lib)], {}))
            return out
        ctx.ob("decay matrix %d nuclides, %d branched, first %s/%s (%d libraries)" % (gk[0], gk[1], gk[2][0], "+".join(gk[2][1]), len(data)),
               entry, lambda p: [refmat(names, br) for names, lib, br in data], setup=host(2, Field("F", 2)), key="decay matrix")

        def entryc(I):
            # all daughters tracked: the columns sum to zero (no atom is lost)
            f = need(I, BAT, "gen_bateman_matrix")
            out = []
            for names, lib, br in data:
                if all(c != "none" for b in br for c, l in b):
                    M = obj(I.call(f, [list(names), dict(lib)], {}))
                    out.append([terms_sum(M[:, j]) for j in range(M.shape[1])])
            return out
        ctx.ob("atoms conserved %d nuclides, %d branched, first %s/%s" % (gk[0], gk[1], gk[2][0], "+".join(gk[2][1])), entryc,
               lambda p: [[0] * len(names) for names, lib, br in data if all(c != "none" for b in br for c, l in b)], setup=host(2, Field("F", 2)), key="conservation")
        if gk[0] <= 2 or th:
            def entryt(I):
                f = need(I, BAT, "gen_transmute_matrix")
                return [I.call(f, [list(names), dict(lib)] + ([phi] if k % 2 else []), {}) for k, (names, lib, br) in enumerate(data)]
            ctx.ob("transmutation matrix %d nuclides, %d branched, first %s/%s" % (gk[0], gk[1], gk[2][0], "+".join(gk[2][1])), entryt,
                   lambda p: [scale(-1 * phi if k % 2 else -1, refmat(names, br)) for k, (names, lib, br) in enumerate(data)], setup=host(2, Field("F", 2)), key="transmutation matrix")

    # untracked daughters that are not declared as such are an error, not silently dropped
    def entry(I):
        return I.call(need(I, BAT, "gen_bateman_matrix"), [["a"], {"a": ("b", sym("lam0", positive=True)), "b": ("none", sym("lam1", positive=True))}], {})
    ctx.ob("daughter outside the tracked species is an error", entry, lambda p: RAISES, setup=host(2, Field("F", 2)))

    # the systems
    t, lam = S("t"), [sym("l%d" % i, positive=True) for i in range(3)]
    for names, lib in ((["a", "b"], {"a": ("b", lam[0]), "b": ("none", lam[1])}),
                       (["c", "a", "b"], {"a": ("b", lam[0]), "b": (("c", lam[1]), ("none", lam[2])), "c": ("a", lam[2])})):
        n = len(names)
        br = [[lib[k]] if not isinstance(lib[k][0], tuple) else list(lib[k]) for k in names]
        M = refmat(names, br)
        u, v = vec("u", n), vec("v", n)

        def entry(I):
            s = I.call(need(I, BAT, "TestBatemanSysJac"), [list(names), dict(lib)], {})
            j = I.call(I.getattr(s, "fjac"), [t, u], {})
            l = I.call(I.getattr(s, "fl"), [t, u], {})
            return {"f": I.call(I.getattr(s, "frhs"), [t, u], {}), "jv": I.call(I.getattr(j, "matvec"), [v], {}), "jd": I.call(I.getattr(j, "dense"), [], {}),
                    "ft": I.call(I.getattr(j, "_fdt"), [], {}), "lv": I.call(I.getattr(l, "matvec"), [v], {}), "ld": I.call(I.getattr(l, "dense"), [], {})}
        ctx.ob("decay system %d nuclides" % n, entry,
               lambda p: {"f": outvec(dot(M, u)), "jv": outvec(dot(M, v)), "jd": M, "ft": zeros(n), "lv": outvec(dot(M, v)), "ld": M}, setup=host(n, Field("F", n)), key="decay system")

    # linear chain from one parent: Bateman's solution
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        lam = [sym("l%d" % i, range=(0.1 + i, 0.6 + i), positive=True) for i in range(n)]
        N0 = S("N0")
        ts = vec("tt", 2)
        M = zeros(n, n)
        for i in range(n):
            M[i, i] = -1 * lam[i]
            if i + 1 < n:
                M[i + 1, i] = lam[i]

        def entry(I):
            r = I.call(need(I, BAT, "analytic_bateman_single_parent"), [Arr(obj(ts), F64, "np"), Arr(M, F64, "np"), N0], {})
            return obj(r)

        def ref(p):
            out = zeros(2, n)
            for k in range(2):
                for i in range(n):
                    pr = 1
                    for j in range(i):
                        pr = mul(pr, lam[j])
                    s = 0
                    for a in range(i + 1):
                        d = 1
                        for b in range(i + 1):
                            if b != a:
                                d = mul(d, sub(lam[b], lam[a]))
                        s = add(s, terms.div(terms.exp(mul(-1, mul(lam[a], obj(ts)[k]))), d))
                    out[k, i] = mul(N0, mul(pr, s))
            return out
        ctx.ob("analytic chain of %d" % n, entry, ref, setup=host(2, Field("F", 2)), key="analytic chain")

    transfer(ctx)
    systems(ctx)


R = Fraction("8.3145")
RAD3, RAD2, RAD9 = ("ormatex_py.progression.rad_1d_%ds" % i for i in (3, 2, 9))


def transfer(ctx):
    """every source/sink model is its documented rate, element by element, for keyword and positional parameters and a vector of cells"""
    ua, ug = vec("ua", 2, positive=True, range=(0.2, 2.0)), vec("ug", 2, positive=True, range=(0.2, 2.0))
    K = {x: sym(x, positive=True, range=(0.2, 0.9)) for x in ("k", "kg", "ka", "a", "cvol", "alpha", "h", "nb", "T", "P", "ak", "als", "e", "apre", "ma", "mb", "ks")}
    k = K

    def area(g, nb, ak, T_, P):
        vol = terms.add(mul(k["cvol"], terms.div(k["alpha"], nb)), mul(ak, terms.div(mul(mul(k["cvol"], g), mul(R, T_)), mul(mul(P, Fraction(1, 10 ** 6)), nb))))
        r = terms.power(terms.div(mul(Fraction(3, 4), vol), terms.PI), Fraction(1, 3))
        return mul(mul(nb, mul(4, terms.PI)), mul(r, r))

    def ew(fn):
        return outvec(oarr([fn(a, g) for a, g in zip(obj(ua), obj(ug))], (2,)))
    lin = lambda a, g: sub(mul(k["kg"], g), mul(k["ka"], a))
    clip = lambda g: terms.vmax(g, Fraction(1, 10 ** 16))
    P0 = Fraction(101300)
    cases = [
        ("mxf_liq_vapor_lin", [ua, ug], dict(k=k["k"], k_g=k["kg"], k_a=k["ka"], a=k["a"]), lambda a, g: mul(mul(k["k"], k["a"]), lin(a, g))),
        ("mxf_liq_vapor_nonlin", [ua, ug], dict(k=k["k"], k_g=k["kg"], k_a=k["ka"], k_s=k["ks"]),
         lambda a, g: mul(mul(k["k"], terms.add(terms.power(clip(g), Fraction(2, 3)), k["ks"])), lin(a, g))),
        ("bubble_surface_area", [ug, k["cvol"]], dict(alpha_g=k["alpha"], nb=k["nb"], a_k=k["ak"], T=k["T"], P=k["P"]), lambda a, g: area(g, k["nb"], k["ak"], k["T"], k["P"])),
        ("mxf_liq_vapor_bubble_ig", [ua, ug, k["cvol"]], dict(alpha_g=k["alpha"], k=k["k"], h=k["h"], nb=k["nb"], T=k["T"]),
         lambda a, g: mul(mul(k["k"], area(g, k["nb"], Fraction(1, 10), k["T"], P0)),
                          sub(mul(terms.div(g, k["alpha"]), mul(k["h"], mul(R, k["T"]))), terms.div(a, sub(1, k["alpha"]))))),
        ("mxf_diffusion_sorption", [ua, ug, k["als"]], dict(k=k["k"], a=k["a"]), lambda a, g: mul(-1, mul(mul(k["k"], k["a"]), sub(a, terms.div(g, k["als"]))))),
        ("mxf_arrhenius", [ua, ug], dict(e=k["e"], apre=k["apre"], m_a=k["ma"], m_b=k["mb"], T=k["T"]),
         lambda a, g: mul(mul(mul(terms.power(a, k["ma"]), terms.power(g, k["mb"])), k["apre"]), terms.exp(mul(-1, terms.div(k["e"], mul(R, k["T"])))))),
    ]
    for name, pos, kw, fn in cases:
        for how in ("keyword", "positional"):
            def entry(I):
                f = need(I, SRC, name)
                if how == "positional":
                    order = {"mxf_liq_vapor_nonlin": ["k", "k_g", "k_a", "k_s"], "mxf_liq_vapor_lin": ["k", "k_g", "k_a", "a"], "bubble_surface_area": ["alpha_g", "nb", "a_k", "T", "P"],
                             "mxf_liq_vapor_bubble_ig": ["alpha_g", "k", "h", "nb", "T"], "mxf_diffusion_sorption": ["k", "a"], "mxf_arrhenius": ["e", "apre", "m_a", "m_b", "T"]}[name]
                    return I.call(f, list(pos) + [kw[o] for o in order], {})
                return I.call(f, list(pos), dict(kw))
            ctx.ob("%s (%s parameters)" % (name, how), entry, lambda p: ew(fn), setup=host(2, Field("F", 2)), mtol=1e-9, tol=1e-5, key="source model " + name)

    # no transfer at equilibrium-free zero: an empty gas phase does not make the rate undefined
    z = Arr(zeros(2), F64, "jnp")
    ctx.ob("mxf_liq_vapor_nonlin with an empty gas phase", lambda I: I.call(need(I, SRC, "mxf_liq_vapor_nonlin"), [ua, z], dict(k=k["k"], k_g=k["kg"], k_a=k["ka"], k_s=k["ks"])),
           lambda p: outvec(oarr([mul(mul(k["k"], terms.add(terms.power(Fraction(1, 10 ** 16), Fraction(2, 3)), k["ks"])), mul(-1, mul(k["ka"], a))) for a in obj(ua)], (2,))),
           setup=host(2, Field("F", 2)), mtol=1e-9, key="source model empty gas phase")


def opaque2(name, args=("u_a", "u_g"), extra=()):
    """contract: an arbitrary rate, a function of the two concentrations (other parameters are example data)"""
    def con(I, b):
        a, g = (b[x] for x in args)
        aa, gg = (obj(x).reshape(-1) if isinstance(x, Arr) else [x] for x in (a, g))
        ex = tuple(obj(b[x]).reshape(-1)[0] if isinstance(b[x], Arr) else b[x] for x in extra)
        out = [terms.app(name, 0, (x, y) + ex) for x, y in zip(aa, gg)]
        return Arr(oarr(out, obj(a).shape), F64, "jnp") if isinstance(a, Arr) else out[0]
    return con


def systems(ctx):
    con = {SRC + ".mxf_liq_vapor_nonlin": opaque2("mxf"), SRC + ".mxf_liq_vapor_bubble_ig": opaque2("mxf", extra=("cvol",))}
    V = S("vol", positive=True)
    M = lambda a, g: terms.app("mxf", 0, (a, g, V))
    # tank: what leaves the liquid enters the vapor; nothing else changes
    for n in (2, 3, 4):
        for ia in range(n):
            for ig in range(n):
                if ia == ig or (n == 4 and not ctx.thorough and (ia + ig) % 2):
                    continue
                u = vec("u", n)

                def ref(p):
                    s = zeros(n)
                    s[ia] = M(obj(u)[ia], obj(u)[ig])
                    s[ig] = mul(-1, s[ia])
                    return outvec(s)
                ctx.ob("tank phase transfer %d species, %d -> %d" % (n, ia, ig), lambda I: I.call(need(I, NONLIN, "srcf_xe_av"), [u, ia, ig], {"tank_vol": V}), ref, contracts=con,
                       setup=host(n, Field("F", n)), key="tank transfer")

    # the tank system: bat u + phi (trans u + fission) + transfer, with the matrices of its own libraries
    t, phi = S("t"), S("phi")

    def entry(I):
        m = need(I, NONLIN, "NonlinearBateman")
        s = I.call(m, [], {"n_phi": phi, "tank_vol": V})
        keys = need(I, NONLIN, "keymap")
        n = len(keys)
        u, v = vec("u", n), vec("v", n)
        I.tank = (list(keys), u, v, {x: need(I, NONLIN, x) for x in ("decay_lib", "transmute_lib", "fission_lib")})
        fl = I.call(I.getattr(s, "fl"), [t, u], {})
        return {"f": I.call(I.getattr(s, "frhs"), [t, u], {}), "l": I.call(I.getattr(fl, "matvec"), [v], {})}

    def ref(p):
        keys, u, v, libs_ = p.I.tank
        n = len(keys)

        def mt(l):
            br = [[l[k]] if not isinstance(l[k][0], tuple) else list(l[k]) for k in keys]
            return refmat(keys, br)
        D, Tm, Fm = (mt(libs_[x]) for x in ("decay_lib", "transmute_lib", "fission_lib"))
        ia, ig = keys.index("xe_135_a"), keys.index("xe_135_v")
        s = zeros(n)
        s[ia] = M(obj(u)[ia], obj(u)[ig])
        s[ig] = mul(-1, s[ia])
        return {"f": outvec(plus(dot(D, u), scale(-1 * phi, dot(Tm, u)), scale(-1 * phi, oarr([Fm[i, i] for i in range(n)], (n,))), s)), "l": outvec(dot(D, v))}
    ctx.ob("tank system", entry, ref, contracts=con, setup=host(2, Field("F", 2)), key="tank system", mtol=1e-12)
