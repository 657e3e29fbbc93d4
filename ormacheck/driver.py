"""Obligations: explore the partitions of an entry, compare with a reference.

explore() runs the abstract interpreter once per trace partition (a partition
is fixed by the truth values of the abstract conditions that guard it).
compare() decides, per partition, whether the resulting value numbers equal
those of the reference: by normal form first ("proved"); otherwise the two
formulas are compared as functions on sample valuations that satisfy the
partition's conditions (polynomial/function identity testing) and a difference
is confirmed with 50 digits before it is reported.
"""
import hashlib
import os
import time
from fractions import Fraction

import numpy as np
from mpmath import mp

from . import terms
from .interp import Interp, Project
from .model import Model, FLOAT, MP, MP_DPS, EvalError, close
from .terms import T, Undecidable
from .values import *

REPO = os.environ.get("ORMA_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")


class AnchorMissing(Exception):
    """A public entry point the property is stated about no longer exists."""


class Raised:
    """Outcome of a partition: the analysed code raises."""

    def __init__(self, exc, where, trace):
        self.exc, self.where, self.trace = exc, where, trace

    def __repr__(self):
        return "raises %s(%s) at %s" % (self.exc.name, ", ".join(str(a)[:120] for a in self.exc.args), self.where)


class Part:
    def __init__(self, decisions, out, interp):
        self.decisions, self.out, self.I = decisions, out, interp
        self.cuts = interp.cuts
        self.undecided = None


INTERP = [Interp]              # interpreter class (instrumented by the purity analysis)


GAP = ("AttributeError", "NameError", "TypeError", "KeyError", "UnboundLocalError", "NotImplementedError")


def rust_gap(e):
    """rustc has already excluded these: the model of the library lacks something"""
    w = str(e.where)
    return (".rs:" in w or "<model of faer>" in w) and bool(getattr(e.exc, "names", None)) and e.exc.names[0] in GAP


def explore(entry, project, contracts=None, stubs=None, lazy_threads=False, limit=96, unroll=12, setup=None, budget=120):
    """entry(I) -> value; returns (parts, undecided reasons)."""
    work, parts, und = [{}], [], []
    t0 = time.time()
    while work:
        if len(parts) + len(und) > limit or time.time() - t0 > budget:
            und.append("partition limit reached with %d pending" % len(work))
            break
        dec = work.pop()
        I = INTERP[0](project, dec, contracts, stubs, lazy_threads)
        I.unroll = unroll
        if setup:
            setup(I)
        try:
            out = entry(I)
        except Fork as f:
            work.append({**dec, f.cond: False})
            work.append({**dec, f.cond: True})
            continue
        except PyRaise as e:
            if rust_gap(e):
                und.append("outside the modelled part of Rust: %s at %s" % (e.exc, e.where))
                continue
            out = Raised(e.exc, e.where, list(I.stack))
        except Bounded as e:
            parts.append(Part(dec, BOUND, I))
            continue
        except AnchorMissing:
            raise
        except terms.DivByZero as e:
            und.append("division by a literal zero: %s" % e)
            continue
        except Undecidable as e:
            und.append("%s" % e)
            continue
        except RecursionError:
            und.append("recursion limit")
            continue
        parts.append(Part(dec, out, I))
    return parts, und


def guided(entry, project, name, contracts=None, stubs=None, lazy_threads=False, unroll=12, setup=None, budget=60,
           hints=(), nmodels=None, pre=None, salt="", seen=()):
    """The partitions that contain the sample valuations of compare(): every abstract condition is decided by the
    valuation.  Used where the partitions are too many to enumerate; what it finds is reported, what it does not
    reach stays undecided."""
    parts, t0 = [], time.time()
    seen = set(seen)
    nm = nmodels or (6 if TIER == "quick" else 24)
    for i, asg in enumerate([dict(h) for h in hints] + [None] * nm):
        if time.time() - t0 > budget:
            break
        M = Model("%s|%s|%s|%d" % (SEED, name, salt, i + 1), asg)
        dec, out = {}, None
        try:
            if pre is not None and not bool(M.ev(pre)):
                continue
            while True:
                I = INTERP[0](project, dec, contracts, stubs, lazy_threads)
                I.unroll = unroll
                if setup:
                    setup(I)
                try:
                    out = entry(I)
                    break
                except Fork as f:
                    dec = {**dec, f.cond: bool(M.ev(f.cond))}
                    if time.time() - t0 > budget:
                        raise Undecidable("time")
                except PyRaise as e:
                    if rust_gap(e):
                        raise Undecidable("rust")
                    out = Raised(e.exc, e.where, list(I.stack))
                    break
        except (EvalError, Bounded, terms.DivByZero, Undecidable, RecursionError):
            continue
        k = frozenset(dec.items())
        if k not in seen:
            seen.add(k)
            parts.append(Part(dec, out, I))
    return parts


# ---------------------------------------------------------------- flatten
def flatten(v, path=""):
    """[(path, scalar or python value)] of a structure."""
    if isinstance(v, Arr):
        out = [(path + ".shape", tuple(v.a.shape))]
        for i, x in enumerate(v.a.reshape(-1)):
            out.append(("%s[%d]" % (path, i), x))
        return out
    if isinstance(v, np.ndarray):
        out = [(path + ".shape", tuple(v.shape))]
        for i, x in enumerate(v.reshape(-1)):
            out.append(("%s[%d]" % (path, i), x))
        return out
    if isinstance(v, dict):
        out = [(path + ".keys", tuple(sorted(map(str, v))))]
        for k in sorted(v, key=str):
            out += flatten(v[k], "%s.%s" % (path, k))
        return out
    if isinstance(v, (list, tuple, deque)) and not isinstance(v, str):
        out = [(path + ".len", len(v))]
        for i, x in enumerate(v):
            out += flatten(x, "%s[%d]" % (path, i))
        return out
    if isinstance(v, Inst):
        return [(path, "instance of %s" % v.cls.name)]
    return [(path, v)]


from collections import deque  # noqa: E402


def simplify(t, decisions):
    if not isinstance(t, T) or not decisions:
        return t
    m = {}
    for c, v in decisions.items():
        m[c] = v
    try:
        return terms.substitute(t, m)
    except (Undecidable, terms.DivByZero):
        return t


def same_scalar(a, b, decisions):
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        if not (is_scalar(a) and is_scalar(b)):
            return False
        a, b = simplify(a, decisions), simplify(b, decisions)
        if a is b:
            return True
        try:
            d = terms.sub(a, b)
        except (Undecidable, TypeError):
            return False
        if isinstance(d, T):
            d = terms.normal(d)
        return not isinstance(d, T) and d == 0
    if is_scalar(a) and is_scalar(b):
        if isinstance(a, float) or isinstance(b, float):
            return a == b or (a != a and b != b)
        return a == b
    return type(a) == type(b) and a == b


class Diff:
    def __init__(self, path, got, want, model, part, note=""):
        self.path, self.got, self.want, self.model, self.part, self.note = path, got, want, model, part, note


def exact(M, t):
    """Value of a formula of rational operations, or None."""
    memo = M.__dict__.setdefault("_exact", {})
    stack = [t]
    while stack:
        u = stack[-1]
        if u in memo:
            stack.pop()
            continue
        if u.op not in ("sym", "add", "mul", "min", "max"):
            memo[u] = None
            continue
        kids = terms.children(u)
        todo = [k for k in kids if k not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        r = lambda x: memo[x] if isinstance(x, T) else Fraction(x) if is_scalar(x) and not isinstance(x, (bool, complex)) else None
        try:
            if any(memo[k] is None for k in kids):
                v = None
            elif u.op == "sym":
                v = Fraction(M.symval(u.args[0]))
            elif u.op == "add":
                v = Fraction(u.args[0]) + sum(Fraction(k) * memo[x] for x, k in u.args[1])
            elif u.op == "mul":
                v = Fraction(1)
                for x, e in u.args:
                    v = v * r(x) ** e if isinstance(e, int) else None
                    if v is None:
                        break
            else:
                v = (min if u.op == "min" else max)(r(u.args[0]), r(u.args[1]))
        except (TypeError, ValueError, ZeroDivisionError, OverflowError):
            v = None
        memo[u] = v
    return memo[t]


def model_ok(M, part):
    """Does the valuation satisfy the partition's conditions and bounds?"""
    for c, v in part.decisions.items():
        try:
            if c.op == "lt":
                # too close to the boundary to be decided by rounded arithmetic
                d = M.ev(c.args[0])
                if d != 0 and abs(d) < (1e-12 if M.B is FLOAT else mp.mpf(10) ** -32):
                    x = exact(M, c.args[0])
                    if x is not None:
                        if (x < 0 if c.args[1] > 0 else x > 0) != v:
                            return False
                        continue
                    if M.B is not FLOAT:
                        return False
                    with mp.workdps(MP_DPS):
                        MM = M.with_backend(MP)
                        d = MM.ev(c.args[0])
                        if d != 0 and abs(d) < mp.mpf(10) ** -32 or bool(MM.ev(c)) != v:
                            return False
                    continue
            if bool(M.ev(c)) != v:
                return False
        except EvalError:
            return False
    return True


def evscalar(M, v):
    if isinstance(v, T):
        return M.ev(v)
    return M.B.num(v) if is_scalar(v) and not isinstance(v, (bool, float)) else v


def _num_eq(x, y, tol):
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    return close(x, y, tol)


def mp_close(x, y, mtol=None):
    try:
        x, y = mp.mpc(x), mp.mpc(y)
    except (TypeError, ValueError):
        return x == y
    if mp.isnan(x) or mp.isnan(y):
        return bool(mp.isnan(x)) and bool(mp.isnan(y))
    return abs(x - y) <= (mp.mpf(10) ** (-20) if mtol is None else mp.mpf(mtol)) * max(1, abs(x), abs(y))


BOUND = object()


class Report:
    """Result of one obligation."""

    def __init__(self, name):
        self.name = name
        self.partitions = self.proved = self.tested = self.unwitnessed = self.bounded = 0
        self.scalars = 0
        self.models = 0
        self.undecided = []
        self.violations = []       # (key, text)
        self.funcs = {}
        self.calls = 0
        self.contract_uses = {}
        self.notes = []

    def status(self):
        if self.violations:
            return "violation"
        if self.undecided or (self.partitions and self.proved + self.tested == 0):
            return "undecided"
        return "holds"


def describe_model(M, syms):
    return ", ".join("%s=%s" % (s.args[0], float(M.symval(s.args[0]))) for s in syms[:14] if s.op == "sym")


WITNESS = True


def inner_conditions(vs, limit=24):
    """conditions of joins, minima and maxima inside a formula"""
    out, seen, stack = {}, set(), [v for v in vs if isinstance(v, T)]
    while stack and len(out) < limit and len(seen) < 20000:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        try:
            if t.op == "ite" and isinstance(t.args[0], T):
                out[t.args[0]] = True
            elif t.op in ("max", "min"):
                c = terms.lt(t.args[0], t.args[1])
                if isinstance(c, T):
                    out[c] = True
        except Undecidable:
            pass
        stack.extend(terms.children(t))
    return out


def seen_values(p, c):
    return p.I.__dict__.setdefault("_seen_inner", {}).setdefault(c, set())
WITNESS_BUDGET = 20


def judge(rep, M, ent, hits, tol, mtol, rel=False):
    """One partition under one valuation; a confirmed difference becomes a violation."""
    p, da, db, bad = ent
    if hits[id(p)] < 0 or not model_ok(M, p):
        return
    skip = False
    fail_assert = None
    for kind, c, where in p.cuts:
        try:
            if bool(M.ev(c)):
                if kind == "assert":
                    fail_assert = where
                else:
                    skip = True
        except EvalError:
            skip = True
    if skip:
        return
    hits[id(p)] += 1
    if WITNESS and bad and da is not None:
        cs = p.I.__dict__.get("_inner")
        if cs is None:
            cs = p.I._inner = list(inner_conditions([da[k] for k in bad if k in da]))
        for c in cs:
            try:
                seen_values(p, c).add(bool(M.ev(c)))
            except EvalError:
                pass
    d = None
    if fail_assert:
        if db is not None:
            d = Diff("outcome", "assertion fails at %s" % fail_assert, "a value", M, p)
    elif da is None or db is None:
        d = Diff("outcome", repr(p.out) if da is None else "returns normally", "a value" if db is not None else "an exception", M, p)
    else:
        d = first_diff(M, p, da, db, bad, tol, mtol, rel)
    if d is not None:
        try:
            with mp.workdps(MP_DPS):
                if not model_ok(M.with_backend(MP), p):
                    hits[id(p)] -= 1
                    return
        except (EvalError, OverflowError, ZeroDivisionError):
            pass
        hits[id(p)] = -1
        where = p.out.where if isinstance(p.out, Raised) else (fail_assert or "")
        fs = []
        try:
            fs = terms.free_syms([x for x in (da or {}).values() if isinstance(x, T)] + list(p.decisions))
        except Exception:
            pass
        rep.violations.append((d.path, "%s: %s is %s, reference %s%s%s [%s]" % (
            rep.name, d.path.lstrip("."), d.got, d.want,
            " at " + where if where and isinstance(p.out, Raised) else "",
            " under " + ", ".join("%s=%s" % (terms.show(c, 3), v) for c, v in list(p.decisions.items())[:4]) if p.decisions else "",
            describe_model(M, fs)), d))


def force(M, p):
    """uninterpreted predicates take the truth values of the partition"""
    M.part = p
    for c, v in sorted(p.decisions.items(), key=lambda cv: cv[0].id):
        while c.op == "not":
            c, v = c.args[0], not v
        try:
            if c.op == "bsym":
                M.preds.setdefault((("bsym", c.args[0]), ()), v)
            elif c.op == "bapp":
                for x in c.args[1]:
                    if isinstance(x, T):
                        M.ev(x)
                M.preds.setdefault((c.args[0], tuple(M._key(M.g(x)) for x in c.args[1])), v)
        except EvalError:
            pass
    return M


AMPS = (1, 1, Fraction(10 ** 6), 1, Fraction(1, 10 ** 4))


def witnesses(p, seed, hints, narrow=False, tries=14):
    """Valuations for a partition, by repairing the violated conditions one symbol at a time (the root of the condition
    in that symbol by a secant, then a step to the right side of it)."""
    import random
    r = random.Random(seed)
    conds = list(p.decisions.items())
    bases = [dict(h) for h in hints][:3]
    steps_ = [x.args[0] for x in terms.free_syms([c for c, _ in conds]) if x.op == "sym" and 0 < terms.SYM_ATTRS.get(x.args[0], {}).get("range", (0, 2))[0]
              and terms.SYM_ATTRS[x.args[0]]["range"][1] <= 1]
    for k in range(tries):
        asg = dict(bases[k]) if k < len(bases) else {}
        amp = 1 if narrow else AMPS[k % len(AMPS)]
        if amp != 1:
            # strong or weak right-hand sides, with step sizes to match
            asg = {}
            M = Model("%s|b%d" % (seed, k))
            asg = {s: M.symval(s) / amp for s in steps_}

        def model(a):
            m = Model("%s|b%d" % (seed, k), a)
            m.amp = amp
            return force(m, p)
        M = model(asg)
        for c, _ in conds:
            try:
                M.ev(c)
            except EvalError:
                pass
        asg = dict(M.assign)
        for step in range(3 * len(conds) + 3):
            M = model(dict(asg))
            wrong = []
            for c, v in conds:
                try:
                    if bool(M.ev(c)) != v:
                        wrong.append((c, v))
                except EvalError:
                    wrong.append((c, v))
            if not wrong:
                yield M
                break
            new = repair(M, asg, r.choice(wrong), r, seed + "|b%d" % k, narrow)
            if new is None:
                break
            asg = new


def atoms(c, v, r):
    """an elementary condition that has to change for c to become v"""
    while c.op in ("not", "and", "or"):
        if c.op == "not":
            c, v = c.args[0], not v
        else:
            c = r.choice([x for x in c.args if isinstance(x, T)])
    return c, v


def repair(M, asg, cv, r, seed, narrow):
    c, v = atoms(cv[0], cv[1], r)
    if c.op not in ("lt", "eq"):
        return None
    syms = [x for x in terms.free_syms([c]) if x.op == "sym"]
    if narrow:
        syms = [x for x in syms if "range" not in terms.SYM_ATTRS.get(x.args[0], {})] or syms
    if not syms:
        return None
    def at_(change):
        m = Model(seed, {**asg, **change})
        m.amp = M.amp
        return m
    if r.random() < 0.25:
        # norms vanish on no coordinate hyperplane: all free coordinates at once
        zero = {x.args[0]: Fraction(0) for x in syms
                if not (lambda a_: a_.get("positive") or a_.get("integer") or a_.get("range", (0, 0))[0] > 0 or a_.get("range", (0, 0))[1] < 0)(terms.SYM_ATTRS.get(x.args[0], {}))}
        try:
            if zero and bool(force(at_(zero), M.part).ev(c)) == v:
                return {**asg, **zero}
        except (EvalError, OverflowError):
            pass
    s = r.choice(syms).args[0]
    at = terms.SYM_ATTRS.get(s, {})
    x0 = Fraction(M.symval(s))

    def f(x):
        y = at_({s: x}).ev(c.args[0])
        if isinstance(y, complex):
            if abs(y.imag) > 1e-9:
                raise EvalError("complex")
            y = y.real
        return Fraction(y)
    try:
        x, y = x0, f(x0)
        root = None
        for k in range(14):
            x1 = x + (Fraction(1, 64) if k < 4 else Fraction(1, 1 << 20))
            y1 = f(x1)
            if y1 == y:
                break
            nx = (x - y * (x1 - x) / (y1 - y)).limit_denominator(10 ** 9)
            if nx == x:
                root = x
                break
            x, y = nx, f(nx)
            if abs(y) < 1e-13 * max(1, abs(x)):
                root = x
                break
    except (EvalError, OverflowError, ValueError, ZeroDivisionError):
        root = None
    if root is not None and abs(root - root.limit_denominator(4096)) < 1e-9:
        root = root.limit_denominator(4096)
    if c.op == "eq" and v:
        cand = [root] if root is not None else []
    else:
        cand = [x0 * k for k in (Fraction(1, 1000), 30, 1000, 10 ** 6)] + [-x0]
        if root is not None:
            cand = [root + d for d in (Fraction(1, 4), -Fraction(1, 4), Fraction(1, 1000), -Fraction(1, 1000), 1, -1,
                                         Fraction(1, 10 ** 5), -Fraction(1, 10 ** 5), Fraction(1, 10 ** 7), -Fraction(1, 10 ** 7))] + [root * 2, root * Fraction(1, 2)]
        # next to another input
        for o in syms:
            if o.args[0] != s:
                y = Fraction(M.symval(o.args[0]))
                cand += [y + d * max(abs(y), Fraction(1, 8)) for d in (Fraction(1, 10 ** 6), -Fraction(1, 10 ** 6), Fraction(1, 10 ** 3), -Fraction(1, 10 ** 3))]
        r.shuffle(cand)
    for x in cand:
        lo, hi = at.get("range", (0, 0))
        if (at.get("positive") or lo > 0) and x <= Fraction(lo) / 1000 or hi < 0 and x >= Fraction(hi) / 1000:
            continue
        if narrow and "range" in at and not at["range"][0] <= x <= at["range"][1]:
            continue
        try:
            if bool(at_({s: x}).ev(c)) == v:
                return {**asg, s: x}
        except (EvalError, OverflowError):
            continue
    return None


def compare(rep, parts, ref, hints=(), nmodels=None, pre=None, tol=1e-10, salt="", mtol=None):
    """Decide out == ref for each partition.

    ref(part) -> reference structure (value numbers) or Raised-expected marker;
    hints: assignments tried in addition to random ones;
    pre: condition restricting valuations (term) or None.
    """
    nmodels = nmodels or (6 if TIER == "quick" else 24)
    need_models = []
    for p in parts:
        rep.partitions += 1
        if p.out is BOUND:
            rep.bounded += 1
            continue
        for q, loc in p.I.funcs.items():
            rep.funcs.setdefault(q, loc)
        rep.calls += p.I.calls
        for q, n in p.I.contract_uses.items():
            rep.contract_uses[q] = rep.contract_uses.get(q, 0) + n
        want = ref(p)
        if isinstance(want, Undecidable):
            rep.undecided.append(str(want))
            continue
        if want is SKIP:
            rep.proved += 1
            continue
        a = flatten(p.out) if not isinstance(p.out, Raised) else None
        b = flatten(want) if want is not RAISES else None
        if a is None or b is None:
            if a is None and b is None:
                rep.proved += 1
                continue
            need_models.append((p, a, b, None))
            continue
        da, db = dict(a), dict(b)
        bad = []
        for k in db:
            if k not in da:
                bad.append(k)
            elif not same_scalar(da[k], db[k], p.decisions):
                bad.append(k)
            rep.scalars += 1
        asserts = [c for c in p.cuts if c[0] == "assert"]
        bounds = [c for c in p.cuts if c[0] == "bound"]
        if not bad and not asserts and not bounds and pre is None or not bad and not asserts and not bounds:
            rep.proved += 1
            continue
        need_models.append((p, da, db, bad))
    if not need_models:
        return rep
    # identity testing
    assigns = [dict(h) for h in hints] + [None] * nmodels
    extra = nmodels * 6
    hits = {id(x[0]): 0 for x in need_models}
    i = 0
    while i < len(assigns) + extra:
        asg = assigns[i] if i < len(assigns) else None
        i += 1
        if i > len(assigns) and all(h >= 2 for h in hits.values()):
            break
        M = Model("%s|%s|%s|%d" % (SEED, rep.name, salt, i), asg)
        if pre is not None:
            try:
                if not bool(M.ev(pre)):
                    continue
            except EvalError:
                continue
        rep.models += 1
        for ent in need_models:
            judge(rep, M, ent, hits, tol, mtol)
    # sizes far from one: small differences are settled with 50 digits
    wtol = tol if mtol is not None else min(tol, 1e-13)
    # branches inside the formulas (joins, minima, maxima) that no sample took
    if WITNESS:
        t0 = time.time()
        for ent in need_models:
            p, da, db, bad = ent
            if hits[id(p)] <= 0 or not bad or da is None or db is None:
                continue
            ref_nodes = inner_conditions([db[k] for k in bad if k in db])
            for c in inner_conditions([da[k] for k in bad if k in da]):
                if c in ref_nodes or c in p.decisions or hits[id(p)] < 0 or time.time() - t0 > WITNESS_BUDGET:
                    continue
                for v in {True, False} - seen_values(p, c):
                    q = Part({**p.decisions, c: v}, p.out, p.I)
                    for M in witnesses(q, "%s|%s|%s" % (SEED, rep.name, salt), hints, narrow=mtol is not None, tries=6):
                        try:
                            if pre is not None and not bool(M.ev(pre)):
                                continue
                        except EvalError:
                            continue
                        rep.models += 1
                        judge(rep, M, ent, hits, wtol, mtol, True)
                        break
    # partitions that no sample reached: look for a valuation that satisfies their conditions
    if WITNESS:
        t0 = time.time()
        for ent in need_models:
            p, da, db, bad = ent
            if hits[id(p)] or not (bad or da is None or db is None or any(c[0] == "assert" for c in p.cuts)):
                continue
            for M in witnesses(p, "%s|%s|%s" % (SEED, rep.name, salt), hints, narrow=mtol is not None):
                if time.time() - t0 > WITNESS_BUDGET:
                    break
                try:
                    if pre is not None and not bool(M.ev(pre)):
                        continue
                except EvalError:
                    continue
                rep.models += 1
                judge(rep, M, ent, hits, wtol, mtol, True)
                if hits[id(p)]:
                    rep.searched = getattr(rep, "searched", 0) + 1
                    break
    for p, da, db, bad in need_models:
        h = hits[id(p)]
        if h > 0:
            rep.tested += 1
        elif h == 0:
            rep.unwitnessed += 1
    return rep


def magnitude(MM, db):
    m = mp.mpf(1)
    for y in db.values():
        if isinstance(y, T) or is_scalar(y) and not isinstance(y, bool):
            try:
                v = abs(evscalar(MM, y))
                m = max(m, v) if v == v else m
            except (EvalError, TypeError):
                pass
    return m


def first_diff(M, p, da, db, bad, tol, mtol=None, rel=False):
    for k in bad:
        if k not in da:
            return Diff(k, "absent", "present", M, p)
        x, y = da[k], db[k]
        if not (is_scalar(x) and is_scalar(y)):
            if isinstance(x, ExtVal) or isinstance(y, ExtVal) or type(x) != type(y) or x != y:
                return Diff(k, "%r" % (x,), "%r" % (y,), M, p)
            continue
        try:
            y_ = evscalar(M, y)
        except EvalError:
            continue
        try:
            x_ = evscalar(M, x)
        except EvalError as e:
            # the reference is defined here and the code's formula is not
            try:
                with mp.workdps(MP_DPS):
                    evscalar(M.with_backend(MP), x)
                continue
            except EvalError as e2:
                if "nan" in str(e2) or "Division" in str(e2) or "division" in str(e2) or "ZeroDivision" in str(e2):
                    return Diff(k, "undefined (%s)" % e2, "%s" % (y_,), M, p)
                continue
        if _num_eq(x_, y_, tol):
            continue
        with mp.workdps(MP_DPS):
            MM = M.with_backend(MP)
            try:
                if not model_ok(MM, p):
                    continue
                xx, yy = evscalar(MM, x), evscalar(MM, y)
            except EvalError:
                continue
            if isinstance(xx, bool) or isinstance(yy, bool):
                if bool(xx) == bool(yy):
                    continue
            elif mp_close(xx, yy, mtol) or rel and abs(xx - yy) <= mp.mpf(10) ** -11 * magnitude(MM, db):
                continue
            fx = (lambda v: v if isinstance(v, bool) else mp.nstr(v, 8))
            return Diff(k, fx(xx), fx(yy), M, p)
    return None


SKIP, RAISES = object(), object()


# ---------------------------------------------------------------- builders
_UNIQ = [0]


def S(name, **kw):
    return terms.sym(name, **kw)


DEFLIB = ["jnp"]               # array library of built inputs unless stated


def vec(name, n, lib=None, tag=None, **kw):
    return Arr(oarr([S("%s%d" % (name, i), **kw) for i in range(n)], (n,)), F64, lib or DEFLIB[0], tag)


def mat(name, n, m=None, lib=None, tag=None, **kw):
    m = n if m is None else m
    return Arr(oarr([S("%s%d%d" % (name, i, j), **kw) for i in range(n) for j in range(m)], (n, m)), F64, lib or DEFLIB[0], tag)


def arr(a, lib=None, dt=F64):
    return Arr(np.asarray(a, dtype=object), dt, lib or DEFLIB[0])


def obj(a):
    return a.a if isinstance(a, Arr) else np.asarray(a, dtype=object)


def mm(a, b):
    """object-matrix product (keeps exact zeros)."""
    a, b = obj(a), obj(b)
    return np.dot(a, b)


def need(I, modname, attr):
    m = I.module(modname)
    if m is None or attr not in m.ns:
        raise AnchorMissing("%s.%s" % (modname, attr))
    v = m.ns[attr]
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    return v
