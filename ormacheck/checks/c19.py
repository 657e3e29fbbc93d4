"""Callers' data, module tables, class attributes and default arguments are not modified; integrators do not influence each other.

Effects are observed in the abstract state: every entry of every other obligation is explored with an interpreter that keeps a copy of
each array, list, dictionary and set that was handed in or handed out, and compares them when the outermost call ends (also when it
raises).  What a function does to objects it created itself is its own business.  Functions outside those entries are covered by a
write-site rule over the syntax tree, judged at the interface and not at helpers."""
import importlib
from collections import deque

from .common import *
from ..driver import DEFLIB, INTERP
from ..interp import Interp
from ..runner import Ctx
from ..values import *
from .. import effects

RULE = "no object reachable from an argument, a previous result, a module global, a class attribute or a default argument differs after the call"
OTHERS = ["c%02d" % i for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 22, 23, 24, 26, 27)]
SKIPMOD = ("orma_stub", "orma_host")


def content(o):
    """a comparable copy of a mutable object"""
    if isinstance(o, Arr):
        return ("arr", o.a.shape, tuple(o.a.reshape(-1).tolist()))
    if isinstance(o, dict):
        return ("dict", tuple((k, ident(v)) for k, v in o.items()))
    if isinstance(o, (list, deque)):
        return ("list", tuple(ident(v) for v in o))
    if isinstance(o, set):
        return ("set", frozenset(o))
    return None


def ident(v):
    return v if isinstance(v, (int, float, str, bool, T, type(None), tuple)) and not isinstance(v, tuple) else id(v)


def same(a, b):
    if a[0] != b[0] or a[0] == "arr" and a[1] != b[1]:
        return False
    x, y = a[-1], b[-1]
    if a[0] == "set":
        return x == y
    return len(x) == len(y) and all(p is q or (p == q and type(p) == type(q) if not isinstance(p, tuple) else len(p) == len(q) and all(s is r or s == r for s, r in zip(p, q))) for p, q in zip(x, y))


def restore(o, c, keep):
    if isinstance(o, Arr):
        o.a.reshape(-1)[:] = np.array(list(c[2]) + [None], dtype=object)[:-1] if o.a.size else []


class PureInterp(Interp):
    """Interpreter that watches foreign objects across outermost calls."""
    found = None

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.reg = {}              # id -> (object, label)
        self._host = 0
        self._late = {}
        self._base = {}            # module -> {label: (object, content)}
        self._loading = 0

    # -- registration
    def watch(self, o, label, deep=0, own=False):
        if deep > 4:
            return
        if isinstance(o, (Arr, dict, list, deque, set)):
            if id(o) in self.reg:
                return
            self.reg[id(o)] = (o, label)
        if isinstance(o, dict):
            for k, v in list(o.items()):
                self.watch(v, "%s[%r]" % (label, k), deep + 1)
        elif isinstance(o, (list, deque, tuple)):
            for i, v in enumerate(o):
                self.watch(v, "%s[%d]" % (label, i), deep + 1)
        elif isinstance(o, Inst):
            user = o.cls.module.name.startswith("orma_") or o.cls.dataclass
            for k, v in list(o.attrs.items()):
                if isinstance(v, Arr) or user and not isinstance(v, Inst):
                    self.watch(v, "%s.%s" % (label, k), deep + 1)

    def handed_out(self, r, label, deep=0):
        """arrays of results stay as they were returned"""
        if deep > 3:
            return
        if isinstance(r, Arr):
            self.reg.setdefault(id(r), (r, label))
        elif isinstance(r, (list, tuple)):
            for v in r:
                self.handed_out(v, label, deep + 1)
        elif isinstance(r, Inst) and r.cls.dataclass:
            self.watch(r, label)
        elif isinstance(r, dict):
            for v in r.values():
                self.handed_out(v, label, deep + 1)

    def call(self, f, args, kwargs, node=None):
        if self._host or self.depth or self._loading:
            r = super().call(f, args, kwargs, node)
            if self._host and isinstance(f, HostFn) and f.name.startswith("cb"):
                self.from_user(r, args, kwargs, "value returned by the user's callback")
            return r
        self._host = 1
        name = self.fname(f)
        for i, v in enumerate(args):
            self.watch(v, "argument %s" % self.argname(f, i))
        for k, v in kwargs.items():
            self.watch(v, "argument %s" % k)
        before = {i: content(o) for i, (o, _) in self.reg.items()}
        try:
            r = super().call(f, args, kwargs, node)
            self.handed_out(r, "earlier result of %s" % name)
            return r
        finally:
            self._host = 0
            before.update(self._late)
            self._late = {}
            for i, c in before.items():
                o, label = self.reg[i]
                now = content(o)
                if not same(c, now):
                    PureInterp.found.append((name, label, self.describe(c, now), self.writer(o)))
                    restore(o, c, None)

    def call_func(self, f, args, kwargs, node=None):
        r = super().call_func(f, args, kwargs, node)
        if self._host and f.module.name == "orma_stub":
            self.from_user(r, args, kwargs, "value returned by the user's %s" % f.qualname.split(".")[-1])
        return r

    def from_user(self, r, args, kwargs, label):
        """what a user's function or callback returned stays as it was returned (unless it is what it was given)"""
        if isinstance(r, (Arr, dict, list, set)) and id(r) not in self.reg and not any(a is r for a in list(args) + list(kwargs.values())):
            n0 = set(self.reg)
            self.watch(r, label)
            for i in set(self.reg) - n0:
                self._late[i] = content(self.reg[i][0])

    def note_write(self, arr):
        super().note_write(arr)
        self.__dict__.setdefault("_writers", {})[id(arr.a.base if arr.a.base is not None else arr.a)] = self.stack[-1] if self.stack else "?"

    def writer(self, o):
        if isinstance(o, Arr):
            return self.__dict__.get("_writers", {}).get(id(o.a.base if o.a.base is not None else o.a))
        return None

    @staticmethod
    def describe(c, now):
        if c[0] == "arr":
            ch = [i for i, (p, q) in enumerate(zip(c[2], now[2])) if p is not q and p != q]
            return "entries %s change" % ch[:6] if c[1] == now[1] else "shape changes"
        return "contents change (%d -> %d entries)" % (len(c[-1]), len(now[-1]))

    @staticmethod
    def fname(f):
        g, cls = f, None
        while isinstance(g, (BoundMethod, PartialVal)):
            g = g.func
        if isinstance(g, FuncVal):
            return g.qualname
        return getattr(g, "qualname", None) or repr(g)[:60]

    @staticmethod
    def argname(f, i):
        g, off = f, 0
        while isinstance(g, BoundMethod):
            g, off = g.func, off + 1
        if isinstance(g, ClassVal):
            g, off = g.lookup("__init__")[0], 1
        if isinstance(g, FuncVal):
            ps = [a.arg for a in g.node.args.args]
            if i + off < len(ps):
                return repr(ps[i + off])
        return "%d" % i

    # -- module state
    def module(self, name):
        known = name in self.modules
        self._loading += 1
        try:
            m = super().module(name)
        finally:
            self._loading -= 1
        if m is not None and not known and not self._loading:
            for mm in list(self.modules.values()):
                if mm.name not in self._base and mm.name.startswith("ormatex_py"):
                    self._base[mm.name] = self.state_of(mm)
        return m

    def state_of(self, m):
        out = {}

        def data(o, label, deep=0):
            if isinstance(o, (Arr, dict, list, deque, set)):
                out[label] = (o, content(o))
                if deep < 3 and isinstance(o, (dict, list)) and len(o) < 400:
                    for k, v in (o.items() if isinstance(o, dict) else enumerate(o)):
                        data(v, "%s[%s]" % (label, str(k)[:30]), deep + 1)

        def func(f, label):
            if isinstance(f, (StaticVal, ClassMethodVal)):
                f = f.func
            if isinstance(f, FuncVal) and f.module is m:
                ds = f.defaults if isinstance(f.defaults, (list, tuple)) else list(f.defaults.values())
                kd = f.kw_defaults.values() if isinstance(f.kw_defaults, dict) else [x for x in f.kw_defaults or []]
                for i, d in enumerate(list(ds) + list(kd)):
                    data(d, "default argument %d of %s" % (i, label))
        for k, v in m.ns.items():
            if k.startswith("__"):
                continue
            if isinstance(v, ClassVal) and v.module is m:
                names = {}
                for a, b in v.ns.items():
                    if a.startswith("__"):
                        func(b, "%s.%s" % (k, a))
                        continue
                    func(b, "%s.%s" % (k, a))
                    data(b, "class attribute %s.%s" % (k, a))
                    if not a.startswith("_") and not isinstance(b, (FuncVal, PropertyVal)):
                        names[a] = ident(b)
                out["attributes of class %s" % k] = (v, ("ns", names))
            elif isinstance(v, FuncVal) and v.module is m:
                func(v, k)
            elif not isinstance(v, (ModuleVal, FuncVal, ClassVal, ExtVal)):
                data(v, "module table %s" % k)
        out["globals"] = (m, ("ns", {k: ident(v) for k, v in m.ns.items() if not k.startswith("_") and isinstance(v, (int, float, str, T))}))
        return out

    def check_modules(self):
        for name, st in self._base.items():
            for label, (o, c) in st.items():
                last = label.split(".")[-1].split(" ")[-1]
                if c[0] == "ns":
                    ns = o.ns
                    for k, v in c[1].items():
                        if k not in ns or ident(ns[k]) != v:
                            PureInterp.found.append((name, label, "%s is rebound" % k, None))
                    continue
                if last.split("[")[0].startswith("_") and c[0] in ("dict", "list", "set"):
                    now = content(o)     # a private memo may grow
                    if c[0] == "dict":
                        d = dict(now[1])
                        if all(k in d and (d[k] is v or d[k] == v) for k, v in c[1]):
                            continue
                    elif len(now[-1]) >= len(c[-1]):
                        continue
                now = content(o)
                if not same(c, now):
                    PureInterp.found.append((name, label, self.describe(c, now), self.writer(o)))


class PureCtx(Ctx):
    def __init__(self, parent, label):
        self.__dict__.update(parent.__dict__)
        self.parent, self.label = parent, label
        self.reports, self.findings, self.rules, self.undecided, self.assumptions = [], [], [], [], []
        self.seen, self.mut, self.raised = [], [], 0
        self.grouped = False

    def ob(self, name, entry, ref, contracts=None, setup=None, hints=(), pre=None, stubs=None, lazy_threads=False, limit=96, unroll=12,
           nmodels=None, budget=120, tol=1e-6, key=None, mtol=None):
        rep = Report(name)
        rep.partitions = rep.proved = 1
        if not self.grouped and not self.mine():
            return rep
        self.parent.index = self.index

        def watched(I):
            try:
                return entry(I)
            finally:
                I.check_modules()
        def go(lib):
            PureInterp.found = []
            DEFLIB[0], INTERP[0] = lib, PureInterp
            try:
                # the arrays an entry closes over were built by the library in force when its check was set up
                parts, und = explore(watched, self.project, contracts, stubs, lazy_threads, min(limit, 24), unroll, setup, min(budget, 20))
            except AnchorMissing:
                parts = []
            except Exception as e:
                parts = []
                self.parent.note_undecided("%s %s" % (self.label, name), "%s: %s" % (type(e).__name__, e))
            finally:
                INTERP[0] = Interp
            return parts
        parts = go(DEFLIB[0])
        for p in parts:
            for q, loc in p.I.funcs.items():
                rep.funcs.setdefault(q, loc)
        self.parent.reports.append(rep)
        rep.name = "%s: %s" % (self.label, name)
        rep.index = self.index
        rep.partitions = rep.proved = max(1, len(parts))
        rep.calls = sum(p.I.calls for p in parts)
        for fn, label, what, w in PureInterp.found:
            self.parent.violate("%s:%s" % (fn, label.replace(" ", "-")), "%s: %s: %s%s (%s)" % (fn, label, what, ", written in %s" % w if w else "", name))
        self.reports.append(rep)
        return rep

    def rule(self, *a, **k):
        pass

    def violate(self, *a, **k):
        pass

    def note_undecided(self, *a, **k):
        pass


def run(ctx):
    for lib in ("np", "jnp"):
        DEFLIB[0] = lib
        for name in OTHERS:
            mod = importlib.import_module("ormacheck.checks." + name)
            c = PureCtx(ctx, "%s/%s" % (name.upper(), lib))
            try:
                mod.run(c)
            except AnchorMissing as e:
                ctx.note_undecided(name, "vanished: %s" % e)
            except Exception as e:
                ctx.note_undecided(name, "%s: %s" % (type(e).__name__, e))
                if os.environ.get("ORMA_DEBUG"):
                    import traceback
                    traceback.print_exc()
            finally:
                ctx.index = c.index
    DEFLIB[0] = "jnp"
    interleave(ctx)
    if ctx.worker == 0:
        inst, bad = effects.check(ctx.project)
        ctx.rule("write sites: parameters, module tables, class attributes, default arguments", inst, bad, floor=10)


# ------------------------------------------------------------------ two integrators at a time
STUB2 = STUBS["orma_stub"][1] + '''
from orma_host import opaque_G, opaque_M

class OtherSys(OdeSys):
    def _frhs(self, t, x, **kwargs):
        return opaque_G(t, x)

class OtherSplitSys(OdeSplitSys):
    def _frhs(self, t, x, **kwargs):
        return opaque_G(t, x)
    def _fl(self, t, x, **kwargs):
        return MatrixLinOp(opaque_M(t, x))
'''


def interleave(ctx):
    n = 2
    F, G = Field("F", n), Field("G", n)
    t0, h, h2 = S("t0"), S("h", range=(0.05, 0.5)), S("h2", range=(0.05, 0.5))
    y0, z0 = vec("y", n), vec("z", n)
    base = host(n, F)

    def setup(I):
        base(I)
        hs = I.modules["orma_host"]
        hs.ns["opaque_G"] = HostFn("opaque_G", lambda I, a, k: Arr(G.at(a[0] if not isinstance(a[0], Arr) else a[0].a.reshape(-1)[0], a[1]), F64, a[1].lib))
        hs.ns["opaque_M"] = HostFn("opaque_M", lambda I, a, k: mat("m", n, lib="jnp"))
    fams = [(EXP, "ExpRBIntegrator", "UserSys", "OtherSys", m, {"tol_fdt": Fraction(-1)}) for m in ("exprb2", "exprb3", "pexprb4", "epi2", "epi3", "exprb2_dense", "exprb2_pfd", "exp_pfd")]
    fams += [(EXPLICIT, "RKIntegrator", "UserSys", "OtherSys", "rk4", {})]
    fams += [(EXP, "ExpSplitIntegrator", "SplitSys", "OtherSplitSys", m, {}) for m in ("exp1", "exp2", "exp3", "exp1_dense", "exp2_dense", "exp3_dense")]
    fams += [(EXP, "ExpLejaIntegrator", "UserSys", "OtherSys", m, {}) for m in ("epi2_leja_re", "epi2_leja_im", "epi3_leja_im")]
    stubs = {"orma_stub": ("<user systems>", STUB2)}
    scheds = {"alternating": "ABABAB"[:4], "one after the other, then the first again": "AABBA"}
    if ctx.thorough:
        scheds["second first"] = "BABAAB"
    for mod, c, sa, sb, m, kw in fams:
        for shared in (False, True):
            for label, sched in scheds.items():
                def entry(I, which=None, sched=sched, c=c, mod=mod, sa=sa, sb=sb, m=m, kw=kw, shared=shared):
                    cls = need(I, mod, c)
                    out, integ = {"A": [], "B": []}, {}
                    SA = I.call(need(I, "orma_stub", sa), [], {})
                    SB = SA if shared else I.call(need(I, "orma_stub", sb), [], {})
                    for x in "AB":
                        if which in (None, x):
                            integ[x] = I.call(cls, [SA if x == "A" else SB, t0, y0 if x == "A" else z0], dict(kw, method=m))
                    for x in sched:
                        if x in integ:
                            out[x] += steps(I, integ[x], [h])
                    return out

                def ref(p, entry=entry):
                    if any(c.op == "bapp" and not v for c, v in p.decisions.items()):
                        return SKIP        # a failed convergence is an error either way
                    want = {}
                    for x in "AB":
                        I = Interp(ctx.project, p.decisions, STEP_CONTRACTS, stubs)
                        I.unroll = 12
                        setup(I)
                        try:
                            want[x] = entry(I, x)[x]
                        except (Fork, PyRaise) as e:
                            return Undecidable("alone: %r" % (e,)) if isinstance(e, Fork) else RAISES
                    return want
                ctx.ob("%s: two integrators%s, %s" % (m, " on one system" if shared else "", label), entry, ref, STEP_CONTRACTS, setup, stubs=stubs, key="interleaved:" + m, nmodels=2)
