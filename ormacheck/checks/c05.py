"""Trajectory contract of the high-level integrate entry point."""
from .common import *

from .c18 import install, PF, STB as STB18

WRAP = "ormatex_py.integrate_wrapper"


def cbhost(n, F, log_before, log_after, **kw):
    base = host(n, F, **kw)

    def setup(I):
        base(I)
        m = I.modules["orma_host"]

        def before(i, a, k):
            i.events.append(("before", a[1], list(obj(a[2]).reshape(-1))))
            if a[0] is not i.user_sys:
                i.events.append(("wrongsys",))
            return {"p": S("p%d" % sum(1 for e in i.events if e[0] == "before"))}

        def after(i, a, k):
            i.events.append(("after", a[1], list(obj(a[2]).reshape(-1))))
            if a[0] is not i.user_sys:
                i.events.append(("wrongsys",))
            return S("q%d" % sum(1 for e in i.events if e[0] == "after"))
        m.ns["cb_before"] = HostFn("cb_before", before)
        m.ns["cb_after"] = HostFn("cb_after", after)
    return setup


def run(ctx):
    n = 2
    F = Field("F", n)
    t0, h, tol = S("t0"), S("h", range=(0.05, 0.5)), S("tol", range=(-0.5, 1.0))
    y0 = vec("y", n)
    R = Ref(F)
    Lc = mat("L", n)
    RC = SplitRef(F, lambda t, y: obj(Lc))

    def c2fn(f):
        return [("", f)]
    fams = {
        "rk4": ("UserSys", {}, lambda t, y, hist: rk4_ref(F, t, y, h)),
        "exprb2": ("UserSys", {"tol_fdt": tol}, lambda t, y, hist: R.exprb2(t, y, h, tol)),
        "epi2": ("UserSys", {}, lambda t, y, hist: R.exprb2(t, y, h, None)),
        "epi3": ("UserSys", {"tol_fdt": Fraction(-1)}, lambda t, y, hist: R.exprb3(t, y, h, Fraction(-1)) if len(hist) < 2 else R.epi3(t, y, h, *hist[-2])),
        "exp1": ("SplitSys", {}, lambda t, y, hist: RC.exp1(t, y, h)),
        "exp1_dense": ("SplitSys", {}, lambda t, y, hist: RC.exp1(t, y, h)),
        "epi2_leja_re": ("UserSys", {}, None),
        "epi2_leja_im": ("UserSys", {}, None),
    }

    def traj(fn, nst):
        hist, t, y = [(t0, y0)], t0, obj(y0)
        ts, ys = [t0], [outvec(y)]
        for _ in range(nst):
            y = fn(t, y, hist)
            t = t + h
            hist.append((t, y))
            ts.append(t)
            ys.append(outvec(y))
        return {"t": ts, "y": ys}
    for m, (sysname, kw, fn) in fams.items():
        for nst in ((0, 1, 2, 5) if m == "epi2" else (0, 1, 2) if m == "exprb2" else (0, 3, 12) if m in ("exp1", "exp1_dense") else (0, 3, 6) if m == "rk4" else (4,) if m == "epi3" else (3,)):
            def entry(I):
                f = need(I, WRAP, "integrate")
                s = I.call(need(I, "orma_stub", sysname), [], {})
                I.user_sys = s
                r = I.call(f, [s, y0, t0, h, nst, m], dict(kw))
                out = {"t": list(I.iterate(I.getattr(r, "t_res"))), "y": list(I.iterate(I.getattr(r, "y_res"))),
                       "t2": list(I.iterate(I.getattr(r, "t"))), "y2": list(I.iterate(I.getattr(r, "y")))}
                return out

            def ref(p):
                for cond, v in p.decisions.items():
                    if cond.op == "bapp" and not v:
                        return SKIP
                # Leja methods solve the same linearised problem as epi2
                f2 = fn or (lambda t, y, hist: R.exprb2(t, y, h, None))
                d = traj(f2, nst)
                return {"t": d["t"], "y": d["y"], "t2": d["t"], "y2": d["y"]}
            ctx.ob("integrate(%s) nsteps=%d" % (m, nst), entry, ref, STEP_CONTRACTS, host(n, F, L=Lc), stubs=STUBS,
                   key="trajectory:" + m, nmodels=3)

    # callbacks: one call before and one after every accepted step, in order, with the current (t, y); outputs recorded
    for m, sysname in (("exprb2", "UserSys"), ("epi2", "UserSys"), ("exp1", "SplitSys"), ("rk4", "UserSys"), ("epi2_leja_im", "UserSys"), ("exp1_dense", "SplitSys")):
        ncb = 2 if "leja" in m else 5
        for which in (("before",), ("after",), ("before", "after")):
            def entry(I):
                f = need(I, WRAP, "integrate")
                s = I.call(need(I, "orma_stub", sysname), [], {})
                I.user_sys = s
                hm = I.modules["orma_host"].ns
                kw = {}
                if "before" in which:
                    kw["callback_before_step"] = hm["cb_before"]
                if "after" in which:
                    kw["callback_after_step_accept"] = hm["cb_after"]
                if m == "exprb2":
                    kw["tol_fdt"] = -1
                r = I.call(f, [s, y0, t0, h, ncb, m], kw)
                ys = [list(obj(y).reshape(-1)) for y in I.iterate(I.getattr(r, "y_res"))]
                evs = [e for e in I.events if e[0] in ("before", "after", "wrongsys")]
                return {"ev": [list(e) for e in evs], "ys": ys, "cb": I.getattr(r, "cb")}

            def ref(p):
                if any(cond.op == "bapp" and not v for cond, v in p.decisions.items()):
                    return SKIP
                if isinstance(p.out, Raised):
                    return {}
                ys = p.out["ys"]
                ev, cb = [], {"callback_before_step": [], "callback_after_step_accept": []}
                for k in range(ncb):
                    if "before" in which:
                        ev.append(["before", t0 + k * h, ys[k]])
                        cb["callback_before_step"].append({"p": S("p%d" % (k + 1))})
                    if "after" in which:
                        ev.append(["after", t0 + (k + 1) * h, ys[k + 1]])
                        cb["callback_after_step_accept"].append(S("q%d" % (k + 1)))
                return {"ev": ev, "ys": ys, "cb": cb}
            ctx.ob("callbacks %s of integrate(%s)" % ("+".join(which), m), entry, ref, STEP_CONTRACTS,
                   cbhost(n, F, None, None, L=Lc), stubs=STUBS, key="callbacks:%s:%s" % (m, "+".join(which)), nmodels=3)

    # what the callback before a step returns are the parameters of that step, and of that step only
    for m, fn in (("rk4", lambda R_, p, t, y, hist: rk4_ref(PF(F, p), t, y, h)), ("epi2", lambda R_, p, t, y, hist: R_.exprb2(t, y, h, None)),
                  ("exprb3", lambda R_, p, t, y, hist: R_.exprb3(t, y, h, Fraction(-1))), ("exprb2_dense", lambda R_, p, t, y, hist: R_.exprb2(t, y, h, None)),
                  ("epi3", lambda R_, p, t, y, hist: R_.exprb3(t, y, h, Fraction(-1)) if len(hist) < 2 else R_.epi3(t, y, h, *hist[-2]))):
        for pat in ("changing", "constant", "alternating", "none at times"):
            nst = 6 if m in ("rk4", "epi2") else 4

            def par(k, pat=pat):
                return {"changing": S("p%d" % (k + 1)), "constant": S("p1"), "alternating": S("p%d" % (k % 2 + 1)),
                        "none at times": S("p%d" % (k + 1)) if k % 2 == 0 else None}[pat]

            def setup(I, par=par):
                install(n, F)(I)
                m_ = I.modules["orma_host"]

                def before(i, a, k):
                    q = par(sum(1 for e in i.events if e[0] == "before"))
                    i.events.append(("before", a[1]))
                    return {} if q is None else {"p": q}
                m_.ns["cb_before"] = HostFn("cb_before", before)

            def entry(I, m=m, nst=nst):
                f = need(I, WRAP, "integrate")
                s = I.call(need(I, "orma_stub", "KwSys"), [], {})
                kw = {"callback_before_step": I.modules["orma_host"].ns["cb_before"]}
                if m in ("exprb3", "epi3"):
                    kw["tol_fdt"] = -1
                r = I.call(f, [s, y0, t0, h, nst, m], kw)
                cb = I.getattr(r, "cb")
                return {"t": list(I.iterate(I.getattr(r, "t_res"))), "y": list(I.iterate(I.getattr(r, "y_res"))),
                        "n": len(list(I.iterate(I.getitem(cb, "callback_before_step"))))}

            def ref(p, fn=fn, nst=nst, par=par):
                it = iter(range(nst))

                def go(t, y, hist):
                    q = par(next(it))
                    q = 0 if q is None else q
                    return fn(Ref(F, (q,)), q, t, y, hist)
                d = traj(go, nst)
                return {"t": d["t"], "y": d["y"], "n": nst}
            ctx.ob("parameters from the callback, %s, integrate(%s)" % (pat, m), entry, ref, STEP_CONTRACTS, setup, stubs=STB18, key="parameters:%s" % m, nmodels=3)

    # delegated integrators are given the same horizon and step
    def entry(I):
        f = need(I, WRAP, "integrate")
        s = I.call(need(I, "orma_stub", "UserSys"), [], {})
        r = I.call(f, [s, y0, t0, h, 3, "dopri5"], {})
        e = [e for e in I.events if e[0] == "diffeqsolve"]
        if len(e) != 1:
            raise Unsupported("diffeqsolve call not seen")
        return {"t0": e[0][1], "t1": e[0][2], "dt": e[0][3], "y0": e[0][4], "max_steps": terms.ge(e[0][5], 3) if e[0][5] is not None else True,
                "t": I.getattr(r, "t_res"), "y": I.getattr(r, "y_res")}

    def ref(p):
        ts = [S("dfx_t%d" % i) for i in range(3)]
        ys = [[S("dfx_y%d%d" % (i, j)) for j in range(n)] for i in range(3)]
        return {"t0": t0, "t1": t0 + 3 * h, "dt": h, "y0": y0, "max_steps": True,
                "t": arr([t0] + ts), "y": arr([list(obj(y0))] + ys)}
    ctx.ob("integrate(dopri5): delegated horizon", entry, ref, STEP_CONTRACTS, host(n, F, extra=diffrax_ext), stubs=STUBS, key="horizon:diffrax")

    def rentry(I):
        f = need(I, WRAP, "integrate")
        s = I.call(need(I, "orma_stub", "UserSys"), [], {})
        I.call(f, [s, y0, t0, h, 3, "exprb2_rs"], {"max_krylov_dim": S("mk"), "iom": S("iom")})
        e = [e for e in I.events if e[0] == "rust"]
        if len(e) != 1:
            raise Unsupported("rust call not seen")
        return e[0][1]

    def rref(p):
        return {"y0": arr(obj(y0).reshape(-1, 1), lib="np"), "t0": t0, "dt": h, "nsteps": 3, "method": "exprb2", "kw": {"max_krylov_dim": S("mk"), "iom": S("iom")}}
    ctx.ob("integrate(exprb2_rs): arguments handed to the native integrator", rentry, rref, STEP_CONTRACTS,
           host(n, F, extra=rust_ext), stubs=dict(STUBS, **RUST_STUB), key="horizon:rust")


RUST_STUB = {"ormatex_py.ormatex": ("<native module>", '''
from orma_host import rust_integrate
def integrate_wrapper_rs(sys, y0, t0, dt, nsteps, method="epi2", **kw):
    return rust_integrate(y0, t0, dt, nsteps, method, kw)
class PySysWrapped:
    def __init__(self, s):
        self.s = s
class DensePhikvEvalRs:
    def __init__(self, method, order):
        self.method = method
        self.order = order
''')}


def rust_ext(I):
    def f(i, a, k):
        i.events.append(("rust", {"y0": a[0], "t0": a[1], "dt": a[2], "nsteps": a[3], "method": a[4], "kw": a[5]}))
        return ([arr([[S("r")]], lib="np")], [S("rt")])
    I.modules["orma_host"].ns["rust_integrate"] = HostFn("rust_integrate", f)


def diffrax_ext(I):
    def f(i, a, k):
        names = ["terms", "solver", "t0", "t1", "dt0", "y0"]
        d = dict(zip(names, a))
        d.update(k)
        i.events.append(("diffeqsolve", d["t0"], d["t1"], d["dt0"], d["y0"], d.get("max_steps")))
        ns = ModuleVal("res", None, None)
        ns.ns.update(ts=arr([S("dfx_t%d" % q) for q in range(3)]), ys=arr([[S("dfx_y%d%d" % (q, j)) for j in range(2)] for q in range(3)]))
        return ns
    m = ModuleVal("diffrax", None, None)

    class _Any(dict):
        def __contains__(self, k):
            return True

        def __missing__(self, k):
            return HostFn(k, lambda i, a, kk: ExtVal("diffrax." + k + "()"))

        def get(self, k, d=None):
            return self[k]
    m.ns = _Any(diffeqsolve=HostFn("diffeqsolve", f))
    m.loaded = True
    for nm in ("diffrax", "optimistix", "lineax"):
        mm_ = ModuleVal(nm, None, None)
        mm_.ns = m.ns
        mm_.loaded = True
        I.modules[nm] = mm_
