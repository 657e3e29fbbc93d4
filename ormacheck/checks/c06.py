"""Method dispatch, defaults and option forwarding of the integrate interface."""
import ast
import itertools
import os
import re

from .common import *
from .c05 import RUST_STUB, rust_ext, diffrax_ext

WRAP = "ormatex_py.integrate_wrapper"
CLASSES = [(EXP, "ExpRBIntegrator", "UserSys"), (EXP, "ExpLejaIntegrator", "UserSys"), (EXP, "ExpSplitIntegrator", "SplitSys"),
           (EXPLICIT, "RKIntegrator", "UserSys")]


def documented(root):
    p = os.path.join(root, "README.md")
    out = []
    if not os.path.isfile(p):
        return out
    for ln in open(p, encoding="utf-8"):
        m = re.match(r"\|\s*([a-z0-9\\_]+)\s*\|\s*(\d+)\s*\|\s*([A-Za-z/]+)", ln)
        if m:
            out.append((m.group(1).replace("\\", ""), int(m.group(2)), m.group(3)))
    return out


def all_ext(I):
    rust_ext(I)
    diffrax_ext(I)

    def phikv(i, a, k):
        i.events.append(("phikv_rs", a[0]))
        return HostFn("x", lambda *_: None)


def run(ctx):
    n = 2
    F = Field("F", n)
    t0, h = S("t0"), S("h", range=(0.05, 0.5))
    y0 = vec("y", n)
    Lc = mat("L", n)
    setup = host(n, F, L=Lc, extra=all_ext)
    stubs = dict(STUBS, **RUST_STUB)

    # the advertised methods of each integrator family, read from the classes themselves
    advertised = {}

    def list_methods(I):
        out = {}
        for mod, c, s in CLASSES:
            cls = need(I, mod, c)
            d, _ = cls.lookup("_valid_methods")
            if not isinstance(d, dict):
                raise Unsupported("method table of %s" % c)
            out[c] = sorted(d.items())
        return out
    parts, und = explore(list_methods, ctx.project, {}, stubs, setup=setup)
    if parts:
        advertised = parts[0].out
    else:
        ctx.note_undecided("method tables", "; ".join(und))

    def stepped(mod, c, sysname, method):
        def entry(I):
            cls = need(I, mod, c)
            s = I.call(need(I, "orma_stub", sysname), [], {})
            integ = I.call(cls, [s, t0, y0], {"method": method})
            r1 = I.call(I.getattr(integ, "step"), [h], {})
            I.call(I.getattr(integ, "accept_step"), [r1], {})
            r2 = I.call(I.getattr(integ, "step"), [h], {})
            return {"t": I.getattr(r2, "t"), "shape": tuple(I.getattr(r2, "y").shape)}
        return entry
    for mod, c, sysname in CLASSES:
        for method, order in advertised.get(c, []):
            if method.endswith("_rs"):
                continue            # need the native phi routines
            def ref(p):
                if any(cond.op == "bapp" and not v for cond, v in p.decisions.items()):
                    return SKIP
                return {"t": t0 + 2 * h, "shape": (n,)}
            ctx.ob("%s(method=%r) steps" % (c, method), stepped(mod, c, sysname, method), ref, STEP_CONTRACTS, setup, stubs=stubs,
                   key="method-steps:" + method, hints=[{"h": Fraction(1, 8)}], nmodels=2)

    # documented methods are accepted by integrate
    docs = documented(ctx.root)
    if len(docs) < 10:
        ctx.note_undecided("documented methods", "README table not found")
    for method, order, impl in docs:
        sysname = "SplitSys" if any(method == m for m, _ in advertised.get("ExpSplitIntegrator", [])) else "UserSys"

        def entry(I):
            f = need(I, WRAP, "integrate")
            s = I.call(need(I, "orma_stub", sysname), [], {})
            I.call(f, [s, y0, t0, h, 3, method], {})
            return {"ok": True}
        ctx.ob("documented method %s is dispatched" % method, entry, lambda p: {"ok": True}, STEP_CONTRACTS, setup, stubs=stubs,
               key="documented:" + method, nmodels=2)
        for c in advertised:
            for m, o in advertised[c]:
                if m == method:
                    ctx.rule("declared order of %s equals the documented order" % method, ["%s: %s" % (m, o)],
                             [] if o == order else [("order:" + m, "%s declares order %s, documented order %s" % (m, o, order))])

    # an unknown method is an error
    for bad in ("no_such_method", "", "exprb2 ", "EXPRB2"):
        def entry(I):
            f = need(I, WRAP, "integrate")
            s = I.call(need(I, "orma_stub", "UserSys"), [], {})
            I.call(f, [s, y0, t0, h, 1, bad], {})
            return {"ok": True}
        ctx.ob("unknown method %r is rejected" % bad, entry, lambda p: RAISES, STEP_CONTRACTS, setup, stubs=stubs, key="unknown-method", nmodels=1)
        for mod, c, sysname in CLASSES:
            def centry(I):
                cls = need(I, mod, c)
                s = I.call(need(I, "orma_stub", sysname), [], {})
                I.call(cls, [s, t0, y0], {"method": bad})
                return {"ok": True}
            ctx.ob("%s rejects method %r" % (c, bad), centry, lambda p: RAISES, STEP_CONTRACTS, setup, stubs=stubs, key="unknown-method:" + c, nmodels=1)

    # default construction and integration works
    for mod, c, sysname in CLASSES:
        def entry(I):
            cls = need(I, mod, c)
            s = I.call(need(I, "orma_stub", sysname), [], {})
            integ = I.call(cls, [s, t0, y0], {})
            I.call(I.getattr(integ, "step"), [h], {})
            return {"ok": True}

        def ref(p):
            return SKIP if any(cond.op == "bapp" and not v for cond, v in p.decisions.items()) else {"ok": True}
        ctx.ob("%s default method" % c, entry, ref, STEP_CONTRACTS, setup, stubs=stubs, key="default-method:" + c, nmodels=2)

    # options reach the numerical kernels
    mk, iom, pfd = S("mk", integer=True, positive=True), S("iom", integer=True, positive=True), "pfd_opt"

    def opts_entry(sysname, method, kw, kinds):
        def entry(I):
            f = need(I, WRAP, "integrate")
            s = I.call(need(I, "orma_stub", sysname), [], {})
            I.call(f, [s, y0, t0, h, 3, method], dict(kw))
            return [e for e in I.events if e[0] in kinds]
        return entry
    for method, sysname in [("exprb2", "UserSys"), ("exprb3", "UserSys"), ("pexprb4", "UserSys"), ("epi2", "UserSys"), ("epi3", "UserSys"),
                            ("exp1", "SplitSys"), ("exp2", "SplitSys"), ("exp3", "SplitSys")]:
        def ref(p):
            if isinstance(p.out, Raised):
                return []
            if not p.out:
                return Undecidable("no Krylov call seen")
            return [["krylov", mk, iom] for _ in p.out]
        ctx.ob("options of %s reach the Krylov routine" % method,
               opts_entry(sysname, method, {"max_krylov_dim": mk, "iom": iom, "tol_fdt": 0} if sysname == "UserSys" else {"max_krylov_dim": mk, "iom": iom}, ("krylov",)),
               lambda p: _lst(ref(p), p), STEP_CONTRACTS, setup, stubs=stubs, key="options:" + method, nmodels=2)
    for method in ("exprb2_pfd", "exp_pfd"):
        def ref(p):
            if isinstance(p.out, Raised):
                return []
            if not p.out:
                return Undecidable("no pfd call seen")
            return [["pfd", pfd] for _ in p.out]
        ctx.ob("pfd_method option of %s" % method, opts_entry("UserSys", method, {"pfd_method": pfd}, ("pfd",)),
               lambda p: _lst(ref(p), p), STEP_CONTRACTS, setup, stubs=stubs, key="options:" + method, nmodels=2)
    # Leja options
    lt, la, lc_, ms = S("leja_tol"), S("leja_a", range=(-9, -1)), S("leja_c", positive=True), S("leja_scale")
    combos = [(3, 3, False, "pade", lc_), (0, 5, True, "recursive", 0), (9, 400, False, "taylor", lc_), (1, 2, True, "pade", lc_)]
    for method, (nz, nl, sub_, ddm, lc) in itertools.product(("epi2_leja_re", "epi2_leja_im", "epi3_leja_im"), combos):
        kw = {"leja_tol": lt, "leja_substep": sub_, "dd_method": ddm, "leja_n_zeros": nz, "leja_max_re_eig_scale": ms, "n_leja": nl, "leja_c": lc}

        def ref(p, nz=nz, nl=nl, sub_=sub_, ddm=ddm, lc=lc):
            if isinstance(p.out, Raised):
                return SKIP
            got = [e for e in p.out if e[0] == "leja"]
            if not got:
                return Undecidable("no Leja call seen")
            want = []
            for e in got:
                d = dict(e[2])
                d.update(tol=lt, substep=sub_, dd_method=ddm)
                if method != "epi2_leja_re":
                    d["leja_n_zeros"] = nz
                want.append(["leja", e[1], d])
            out = []
            for e in p.out:
                if e[0] == "leja":
                    out.append(want.pop(0))
                elif e[0] == "leja_ss":
                    out.append(["leja_ss", e[1], e[2], e[3], ms])
                elif e[0] == "gen_leja_conjugate":
                    out.append(["gen_leja_conjugate", nl, e[2], e[3], lc * h])
                elif e[0] == "gen_leja_fast":
                    out.append(["gen_leja_fast", e[1], e[2], nl])
            return out
        ctx.ob("options of %s reach the Leja routines (%d zeros, %d points, substep=%s, %s)" % (method, nz, nl, sub_, ddm),
               opts_entry("UserSys", method, kw, ("leja", "leja_ss", "gen_leja_conjugate", "gen_leja_fast")),
               ref, STEP_CONTRACTS, setup, stubs=stubs, key="options:" + method, nmodels=2)
        if (nz, nl) != (3, 3):
            continue
        kw2 = {"leja_a": la}

        def ref2(p):
            if isinstance(p.out, Raised):
                return SKIP
            if any(e[0] == "leja_ss" for e in p.out):
                return {"eigenvalue estimate": "must not run when the bound is supplied"}
            out = []
            for e in p.out:
                e = list(e)
                if e[0] == "gen_leja_conjugate":
                    e = [e[0], e[1], la * h, e[3], e[4]]
                elif e[0] == "leja" and e[1] == "real":
                    d = dict(e[2])
                    d.update(shift=la * h / 2, scale=terms.absv(la * h) / 4)
                    e = [e[0], e[1], d]
                out.append(e)
            return out
        ctx.ob("user-supplied spectral bound of %s" % method,
               opts_entry("UserSys", method, kw2, ("leja", "leja_ss", "gen_leja_conjugate")),
               ref2, STEP_CONTRACTS, setup, stubs=stubs, key="options-bound:" + method, nmodels=2)


def _lst(x, p):
    return x
