"""Abstract interpreter: Python source of /repo -> value numbers.

The source is parsed and interpreted over abstract scalars (terms.T), arrays of
abstract scalars with concrete shape, and abstract objects.  The analysed code
is never imported or executed.  A branch whose condition is an abstract value
partitions the analysis (`Fork`); JAX structured control flow (lax.cond,
while_loop, where, ...) is represented by gated values.
"""
import ast
import builtins
import math
import os
from collections import deque
from fractions import Fraction

import numpy as np

from . import terms
from .terms import T, Undecidable
from .values import *

MAX_STEPS = 4_000_000


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


BRK, CNT = object(), object()


class Project:
    """Parsed source files (shared by all partitions)."""

    def __init__(self, root):
        self.root = root
        self.files = {}
        self.consulted = set()
        self.stubs = {}

    def path_of(self, modname):
        p = os.path.join(self.root, *modname.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isdir(p):
            q = os.path.join(p, "__init__.py")
            return q if os.path.isfile(q) else None
        return None

    def stub_tree(self, name, path, src, lmap):
        k = (name, path, src)
        if k not in self.stubs:
            tree = ast.parse(src, path)
            if lmap:              # lowered code: report lines of the original file
                for n in ast.walk(tree):
                    if hasattr(n, "lineno"):
                        n.lineno = n.end_lineno = lmap[0][min(n.lineno, len(lmap[0])) - 1] or 1
                self.consulted.add(path)
            self.stubs[k] = tree
        return self.stubs[k]

    def tree(self, modname):
        if modname not in self.files:
            p = self.path_of(modname)
            if p is None:
                return None, None
            with open(p, encoding="utf-8") as f:
                src = f.read()
            self.files[modname] = (p, ast.parse(src, p))
        self.consulted.add(modname)
        return self.files[modname]


class Interp:
    def __init__(self, project, decisions=None, contracts=None, stub_sources=None, lazy_threads=False):
        self.project = project
        self.decisions = dict(decisions or {})
        self.order = []            # conditions consulted, in order
        self.contracts = dict(contracts or {})
        self.modules = {}
        self.stub_sources = stub_sources or {}
        self.lazy_threads = lazy_threads
        self.steps = 0
        self.calls = 0
        self.funcs = {}            # qualname -> (path, lineno)
        self.stack = []
        self.events = []
        self.cuts = []             # conditions that must be False for the analysis to be exact
        self.unroll = 12
        self.depth = 0
        self.contract_uses = {}
        self.assumed_exact = True
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.stub_sources:
            path, src, *lmap = self.stub_sources[name]
            tree = self.project.stub_tree(name, path, src, lmap)
        else:
            path, tree = self.project.tree(name)
            if tree is None:
                return None
        m = ModuleVal(name, path, tree)
        self.modules[name] = m
        env = Env(None)
        env.vars = m.ns
        m.env = env
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        for st in tree.body:
            self.exec_top(st, env, m)
        m.loaded = True
        return m

    def exec_top(self, st, env, m):
        try:
            self.exec_stmt(st, env, m)
        except (Undecidable, PyRaise, terms.DivByZero, Fork) as e:
            if isinstance(st, ast.Assign):
                for tgt in st.targets:
                    for n in ast.walk(tgt):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            env.vars[n.id] = Poison("%s" % e)
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                env.vars[st.name] = Poison("%s" % e)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                raise
            else:
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        env.vars.setdefault(n.id, Poison("%s" % e))

    # ------------------------------------------------------------------ decisions
    def decide(self, c):
        c = terms.truthy(c) if isinstance(c, T) else c
        if isinstance(c, bool):
            return c
        if not isinstance(c, T):
            return bool(c)
        neg = False
        if c.op == "not":
            c, neg = c.args[0], True
        if c in self.decisions:
            v = self.decisions[c]
        else:
            # an 'and' is decided componentwise
            if c.op == "and":
                v = True
                for x in c.args:
                    if not self.decide(x):
                        v = False
                        break
                return v != neg
            raise Fork(c)
        return v != neg

    def truth(self, v):
        if isinstance(v, (bool, int, Fraction, float, str, type(None), tuple, list, dict, set, frozenset, deque, range)):
            return bool(v)
        if isinstance(v, T):
            return self.decide(v)
        if isinstance(v, Arr):
            if v.a.size == 1:
                return self.truth(v.a.reshape(-1)[0])
            raise PyRaise(ExcVal(("ValueError", "Exception"), ("truth value of an array",)))
        if isinstance(v, Inst):
            f, _ = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth(self.call(BoundMethod(f, v), [], {}))
            f, _ = v.cls.lookup("__len__")
            if f is not None:
                return self.truth(self.call(BoundMethod(f, v), [], {}))
            return True
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return True

    int_bound = 5

    def concretize(self, v):
        """A concrete int for an abstract integer (partitions on gated values)."""
        while isinstance(v, T):
            if v.op == "ite":
                v = v.args[1] if self.decide(v.args[0]) else v.args[2]
            elif v.op in ("max", "min"):
                a, b = v.args
                if v.op == "max":
                    v = b if self.decide(terms.lt(a, b)) else a
                else:
                    v = a if self.decide(terms.lt(a, b)) else b
            elif v.op == "add" and len(v.args[1]) == 1 and v.args[1][0][0].op in ("ite", "max", "min"):
                t, k = v.args[1][0]
                v = terms.add(v.args[0], terms.mul(k, self.concretize(t)))
            elif v.closed:
                x = terms.closed_value(v)
                if x is None:
                    raise Unsupported("concrete integer needed")
                n = int(round(float(x.real)))
                if abs(float(x.real) - n) > 1e-9:
                    raise Unsupported("integer needed")
                return n
            elif v.op in ("ceil", "floor"):
                # partition on the value, within the unrolling bound
                for n in range(0, self.int_bound + 1):
                    if self.decide(terms.eq(v, n)):
                        return n
                raise Bounded("integer outside 0..%d" % self.int_bound)
            elif v.op == "add" and len(v.args[1]) == 1 and v.args[1][0][0].op in ("ceil", "floor"):
                t, k = v.args[1][0]
                v = terms.add(v.args[0], terms.mul(k, self.concretize(t)))
            else:
                raise Unsupported("a symbolic integer is needed concretely here: %s" % terms.show(v, 2))
        if isinstance(v, Arr) and v.a.size == 1:
            return self.concretize(v.a.reshape(-1)[0])
        if isinstance(v, Fraction) and v.denominator == 1:
            return int(v)
        return v

    # ------------------------------------------------------------------ errors
    def err(self, name, *args):
        chain = (name,)
        c = getattr(builtins, name, None)
        if isinstance(c, type):
            chain = tuple(k.__name__ for k in c.__mro__ if k is not object)
        return PyRaise(ExcVal(chain, args))

    def unsupported(self, msg, node=None):
        loc = ""
        if self.stack:
            loc = " in %s" % self.stack[-1]
        if node is not None and hasattr(node, "lineno"):
            loc += ":%d" % node.lineno
        return Unsupported(msg + loc)

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, env, m):
        for st in body:
            r = self.exec_stmt(st, env, m)
            if r is not None:
                return r
        return None

    def exec_stmt(self, st, env, m):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Unsupported("analysis budget exceeded")
        k = type(st).__name__
        f = getattr(self, "s_" + k, None)
        if f is None:
            raise self.unsupported("statement " + k, st)
        try:
            return f(st, env, m)
        except PyRaise as e:
            if e.where is None:
                e.where = "%s:%d" % (os.path.relpath(m.path, self.project.root) if m.path else m.name, st.lineno)
            raise

    def s_Expr(self, st, env, m):
        if isinstance(st.value, ast.Constant):
            return None
        self.ev(st.value, env, m)

    def s_Pass(self, st, env, m):
        return None

    def s_Return(self, st, env, m):
        return ("ret", self.ev(st.value, env, m) if st.value is not None else None)

    def s_Assign(self, st, env, m):
        v = self.ev(st.value, env, m)
        for t in st.targets:
            self.assign(t, v, env, m)

    def s_AnnAssign(self, st, env, m):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env, m), env, m)
        return None

    def s_AugAssign(self, st, env, m):
        t = st.target
        rhs = None
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env, m, t)
            rhs = self.ev(st.value, env, m)
            self.setname(t.id, self.inplace(st.op, cur, rhs, st), env, m)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, env, m)
            cur = self.getattr(obj, t.attr, t)
            rhs = self.ev(st.value, env, m)
            self.setattr(obj, t.attr, self.inplace(st.op, cur, rhs, st))
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, env, m)
            idx = self.ev_index(t.slice, env, m)
            cur = self.getitem(obj, idx, t)
            rhs = self.ev(st.value, env, m)
            self.setitem(obj, idx, self.inplace(st.op, cur, rhs, st), t)
        else:
            raise self.unsupported("augmented assignment", st)

    def inplace(self, op, cur, rhs, node):
        if isinstance(cur, Arr) and cur.lib == "np":
            r = self.binop(op, cur, rhs, node)
            if isinstance(r, Arr) and r.shape == cur.shape:
                self.note_write(cur)
                self.lib.store(self, cur, (Ellipsis,), r)
                return cur
            return r
        if isinstance(cur, list) and isinstance(op, ast.Add):
            cur.extend(self.iterate(rhs, node))
            return cur
        return self.binop(op, cur, rhs, node)

    def note_write(self, arr):
        if arr.tag:
            self.events.append(("write", arr.tag, self.stack[-1] if self.stack else "?"))

    def s_If(self, st, env, m):
        c = self.truth(self.ev(st.test, env, m))
        return self.exec_block(st.body if c else st.orelse, env, m)

    def s_For(self, st, env, m):
        it = self.iterate(self.ev(st.iter, env, m), st)
        broke = False
        for v in it:
            self.steps += 1
            self.assign(st.target, v, env, m)
            r = self.exec_block(st.body, env, m)
            if r is BRK:
                broke = True
                break
            if r is CNT or r is None:
                continue
            return r
        if not broke and st.orelse:
            return self.exec_block(st.orelse, env, m)

    def s_While(self, st, env, m):
        n = 0
        while self.truth(self.ev(st.test, env, m)):
            n += 1
            if n > 5000:
                raise self.unsupported("unbounded while loop", st)
            r = self.exec_block(st.body, env, m)
            if r is BRK:
                return None
            if r is CNT or r is None:
                continue
            return r
        if st.orelse:
            return self.exec_block(st.orelse, env, m)

    def s_Break(self, st, env, m):
        return BRK

    def s_Continue(self, st, env, m):
        return CNT

    def s_Global(self, st, env, m):
        env.globals_ = tuple(env.globals_) + tuple(st.names)

    def s_Nonlocal(self, st, env, m):
        env.nonlocals = tuple(env.nonlocals) + tuple(st.names)

    def s_Assert(self, st, env, m):
        try:
            c = self.ev(st.test, env, m)
        except Undecidable:
            return None
        if isinstance(c, T) and not isinstance(c, bool):
            # an assertion on abstract values is assumed (it raises otherwise)
            cc = terms.truthy(c)
            if isinstance(cc, bool):
                ok = cc
            elif cc in self.decisions:
                ok = self.decisions[cc]
            else:
                self.cuts.append(("assert", terms.lnot(cc), "%s:%d" % (os.path.relpath(m.path, self.project.root) if m.path else m.name, st.lineno)))
                return None
        else:
            ok = self.truth(c)
        if not ok:
            raise self.err("AssertionError")

    def s_Raise(self, st, env, m):
        if st.exc is None:
            cur = getattr(self, "cur_exc", None)
            if cur is None:
                raise self.err("RuntimeError", "no active exception")
            raise PyRaise(cur)
        v = self.ev(st.exc, env, m)
        raise PyRaise(self.to_exc(v))

    def to_exc(self, v):
        if isinstance(v, ExcVal):
            return v
        if isinstance(v, ExtVal) and v.name.startswith("builtins."):
            return self.err(v.name[9:]).exc
        if isinstance(v, ClassVal):
            v = self.call(v, [], {})
        if isinstance(v, Inst):
            names = tuple(c.name for c in v.cls.mro())
            for b in v.cls.ext_bases():
                if b.startswith("builtins."):
                    names += self.err(b[9:]).exc.names
            return ExcVal(names, (), v)
        if isinstance(v, ExtVal):
            return ExcVal((v.name.split(".")[-1], "Exception"), ())
        raise self.unsupported("raise of %r" % (v,))

    def s_Try(self, st, env, m):
        def fin(r):
            if st.finalbody:
                rr = self.exec_block(st.finalbody, env, m)
                if rr is not None:
                    return rr
            return r
        try:
            r = self.exec_block(st.body, env, m)
        except PyRaise as e:
            for h in st.handlers:
                if self.exc_match(h, e.exc, env, m):
                    if h.name:
                        self.setname(h.name, e.exc, env, m)
                    old = getattr(self, "cur_exc", None)
                    self.cur_exc = e.exc
                    try:
                        r = self.exec_block(h.body, env, m)
                    finally:
                        self.cur_exc = old
                    return fin(r)
            if st.finalbody:
                rr = self.exec_block(st.finalbody, env, m)
                if rr is not None:
                    return rr
            raise
        if r is None and st.orelse:
            r = self.exec_block(st.orelse, env, m)
        return fin(r)

    def exc_match(self, h, exc, env, m):
        if h.type is None:
            return True
        t = self.ev(h.type, env, m)
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            n = x.name.split(".")[-1] if isinstance(x, ExtVal) else getattr(x, "name", None)
            if n in exc.names or n in ("Exception", "BaseException"):
                return True
        return False

    def s_With(self, st, env, m):
        exits = []
        for it in st.items:
            v = self.ev(it.context_expr, env, m)
            e = v
            if isinstance(v, Inst):
                f, _ = v.cls.lookup("__enter__")
                if f is not None:
                    e = self.call(BoundMethod(f, v), [], {})
                x, _ = v.cls.lookup("__exit__")
                if x is not None:
                    exits.append(BoundMethod(x, v))
            elif isinstance(v, (ExecutorVal, ExtVal, FutureVal)) or v is None:
                pass
            else:
                raise self.unsupported("with %r" % (v,), st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, e, env, m)
        r = self.exec_block(st.body, env, m)
        for x in reversed(exits):
            self.call(x, [None, None, None], {})
        return r

    def s_Delete(self, st, env, m):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj = self.ev(t.value, env, m)
                idx = self.ev_index(t.slice, env, m)
                del obj[idx]
            elif isinstance(t, ast.Attribute):
                obj = self.ev(t.value, env, m)
                if isinstance(obj, Inst):
                    if t.attr not in obj.attrs:
                        raise self.err("AttributeError", t.attr)
                    del obj.attrs[t.attr]
                else:
                    raise self.unsupported("del attribute", st)
            else:
                raise self.unsupported("del", st)

    def s_Import(self, st, env, m):
        for a in st.names:
            top = a.name.split(".")[0]
            if self.project.path_of(top) is not None or top in self.stub_sources or top in self.modules:
                mod = self.module(a.name)
                if mod is None:
                    raise self.err("ModuleNotFoundError", a.name)
                env.vars[a.asname or top] = mod if a.asname else self.module(top)
            else:
                env.vars[a.asname or top] = ExtVal(a.name if a.asname else top)

    def s_ImportFrom(self, st, env, m):
        name = st.module or ""
        if st.level:
            base = m.name.split(".")
            if not (m.path or "").endswith("__init__.py"):
                base = base[:-1]
            base = base[:len(base) - (st.level - 1)]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        in_repo = self.project.path_of(top) is not None or top in self.stub_sources or top in self.modules
        if in_repo:
            mod = self.module(name)
            if mod is None:
                raise self.err("ModuleNotFoundError", name)
            for a in st.names:
                if a.name == "*":
                    for k, v in mod.ns.items():
                        if not k.startswith("_"):
                            env.vars[k] = v
                    continue
                if a.name in mod.ns:
                    env.vars[a.asname or a.name] = mod.ns[a.name]
                else:
                    sub = self.module(name + "." + a.name)
                    if sub is None:
                        raise self.err("ImportError", "%s.%s" % (name, a.name))
                    env.vars[a.asname or a.name] = sub
        else:
            for a in st.names:
                env.vars[a.asname or a.name] = ExtVal(name + "." + a.name)

    def s_FunctionDef(self, st, env, m):
        f = self.make_func(st, env, m)
        v = f
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, env, m)
        self.setname(st.name, v, env, m)

    def make_func(self, node, env, m, owner=None):
        a = node.args
        defaults = [self.ev(d, env, m) for d in a.defaults]
        kwd = [None if d is None else self.ev(d, env, m) for d in a.kw_defaults]
        prefix = ""
        if env.func is not None:
            prefix = env.func + "."
        name = getattr(node, "name", "<lambda>")
        # a method does not see its class namespace
        f = FuncVal(node, env.parent if owner is not None else env, m, m.name + "." + prefix + name, defaults, kwd, owner)
        return f

    def decorate(self, d, v, env, m):
        try:
            dv = self.ev(d, env, m)
        except Undecidable:
            return v
        name = dv.name if isinstance(dv, ExtVal) else None
        if name in ("jax.jit", "equinox.filter_jit", "abc.abstractmethod", "functools.wraps", "functools.lru_cache", "functools.cache"):
            if name in ("jax.jit", "equinox.filter_jit") and isinstance(v, FuncVal):
                v.jit = name
            return v
        if isinstance(dv, PartialVal) and isinstance(dv.func, ExtVal) and dv.func.name in ("jax.jit", "equinox.filter_jit"):
            if isinstance(v, FuncVal):
                v.jit = dv.func.name
            return v
        if name in ("builtins.property", "abc.abstractproperty", "functools.cached_property"):
            return PropertyVal(v)
        if name == "builtins.staticmethod":
            return StaticVal(v)
        if name == "builtins.classmethod":
            return ClassMethodVal(v)
        if isinstance(dv, BoundMethod) and isinstance(dv.self_, PropertyVal):
            return PropertyVal(dv.self_.fget, v)
        if name == "dataclasses.dataclass" or (isinstance(dv, PartialVal) and getattr(dv.func, "name", "") == "dataclasses.dataclass"):
            if isinstance(v, ClassVal):
                v.dataclass = True
            return v
        return self.call(dv, [v], {})

    def s_AsyncFunctionDef(self, st, env, m):
        raise self.unsupported("async", st)

    def s_ClassDef(self, st, env, m):
        bases = []
        for b in st.bases:
            bv = self.ev(b, env, m)
            bases.append(bv)
        cls = ClassVal(st.name, bases, {}, m, st)
        cenv = Env(env, (env.func + "." if env.func else "") + st.name)
        cenv.vars = cls.ns
        for b in st.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                cls.annots.append(b.target.id)
                if b.value is not None:
                    cls.ns[b.target.id] = self.ev(b.value, cenv, m)
                continue
            if isinstance(b, ast.FunctionDef):
                f = self.make_func(b, cenv, m, owner=cls)
                v = f
                for d in reversed(b.decorator_list):
                    v = self.decorate(d, v, cenv, m)
                cls.ns[b.name] = v
                continue
            self.exec_stmt(b, cenv, m)
        v = cls
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, env, m)
        self.setname(st.name, v, env, m)

    def s_Match(self, st, env, m):
        subj = self.ev(st.subject, env, m)
        for case in st.cases:
            b = {}
            if self.match_pat(case.pattern, subj, b, env, m):
                for k, v in b.items():
                    self.setname(k, v, env, m)
                if case.guard is None or self.truth(self.ev(case.guard, env, m)):
                    return self.exec_block(case.body, env, m)

    def match_pat(self, p, v, b, env, m):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.ev(p.value, env, m), p))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, b, env, m) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, b, env, m):
                return False
            if p.name:
                b[p.name] = v
            return True
        raise self.unsupported("match pattern", p)

    # ------------------------------------------------------------------ names
    def lookup(self, name, env, m, node=None):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison):
                    raise self.unsupported("use of %s: %s" % (name, v.why), node)
                return v
            e = e.parent
        if name in m.ns:
            v = m.ns[name]
            if isinstance(v, Poison):
                raise self.unsupported("use of %s: %s" % (name, v.why), node)
            return v
        if hasattr(builtins, name):
            if name in ("True", "False", "None"):
                return getattr(builtins, name)
            return ExtVal("builtins." + name)
        if name == "__debug__":
            return True
        raise self.err("NameError", name)

    def setname(self, name, v, env, m):
        if name in env.globals_:
            m.ns[name] = v
            self.events.append(("global", name, self.stack[-1] if self.stack else "<module>"))
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    def assign(self, t, v, env, m):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, env, m)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.iterate(v, t))
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise self.err("ValueError", "not enough values to unpack")
                for x, y in zip(t.elts[:i], vals[:i]):
                    self.assign(x, y, env, m)
                self.assign(t.elts[i].value, vals[i:len(vals) - after], env, m)
                for x, y in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(x, y, env, m)
                return
            if len(vals) != len(t.elts):
                raise self.err("ValueError", "unpack %d values into %d" % (len(vals), len(t.elts)))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env, m)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, m), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, env, m)
            self.setitem(obj, self.ev_index(t.slice, env, m), v, t)
        else:
            raise self.unsupported("assignment target", t)

    # ------------------------------------------------------------------ expressions
    def ev(self, n, env, m):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Unsupported("analysis budget exceeded")
        f = getattr(self, "e_" + type(n).__name__, None)
        if f is None:
            raise self.unsupported("expression " + type(n).__name__, n)
        return f(n, env, m)

    def e_Constant(self, n, env, m):
        v = n.value
        if isinstance(v, float):
            return terms.num(v)
        if isinstance(v, complex):
            return terms.num(v)
        return v

    def e_Name(self, n, env, m):
        return self.lookup(n.id, env, m, n)

    def e_Tuple(self, n, env, m):
        return tuple(self._elts(n.elts, env, m))

    def e_List(self, n, env, m):
        return self._elts(n.elts, env, m)

    def e_Set(self, n, env, m):
        return set(self._elts(n.elts, env, m))

    def _elts(self, elts, env, m):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, env, m), e))
            else:
                out.append(self.ev(e, env, m))
        return out

    def e_Dict(self, n, env, m):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, env, m))
            else:
                d[self.hashkey(self.ev(k, env, m))] = self.ev(v, env, m)
        return d

    def hashkey(self, k):
        if isinstance(k, Fraction) and k.denominator == 1:
            return int(k)
        if isinstance(k, tuple):
            return tuple(self.hashkey(x) for x in k)
        return k

    def e_JoinedStr(self, n, env, m):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                try:
                    x = self.ev(v.value, env, m)
                except Undecidable:
                    x = "?"
                if isinstance(x, Fraction):
                    x = float(x)
                out.append(str(x) if isinstance(x, (str, int, float, bool)) or x is None else "<?>")
        return "".join(out)

    def e_FormattedValue(self, n, env, m):
        return "<?>"

    def e_Lambda(self, n, env, m):
        return self.make_func(n, env, m)

    def e_IfExp(self, n, env, m):
        return self.ev(n.body if self.truth(self.ev(n.test, env, m)) else n.orelse, env, m)

    def e_NamedExpr(self, n, env, m):
        v = self.ev(n.value, env, m)
        self.assign(n.target, v, env, m)
        return v

    def e_BoolOp(self, n, env, m):
        is_and = isinstance(n.op, ast.And)
        v = None
        for x in n.values:
            v = self.ev(x, env, m)
            t = self.truth(v)
            if t != is_and:
                return v if not isinstance(v, T) else t
        return v if not isinstance(v, T) else self.truth(v)

    def e_UnaryOp(self, n, env, m):
        v = self.ev(n.operand, env, m)
        if isinstance(v, BcsrArr):
            raise self.err("NotImplementedError", "BCSR unary operator")
        if isinstance(n.op, ast.Not):
            if isinstance(v, T):
                return terms.lnot(terms.truthy(v))
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, ExtVal) and v.name.endswith(".inf"):
                return -math.inf
            if isinstance(v, SpArr):
                return SpArr(self.lib.elementwise1(self, lambda x: terms.mul(-1, x), v).a, v.dt, "jnp")
            return self.lib.elementwise1(self, lambda x: terms.mul(-1, x) if not isinstance(x, float) else -x, v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, int) and not isinstance(v, bool):
                return ~v
            return self.lib.elementwise1(self, terms.lnot, v, BOOL)
        raise self.unsupported("unary", n)

    def e_BinOp(self, n, env, m):
        a = self.ev(n.left, env, m)
        b = self.ev(n.right, env, m)
        return self.binop(n.op, a, b, n)

    def binop(self, op, a, b, n):
        return self.lib.binop(self, type(op).__name__, a, b, n)

    def e_Compare(self, n, env, m):
        left = self.ev(n.left, env, m)
        res = True
        first = True
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, env, m)
            r = self.compare(op, left, right, n)
            if first:
                res, first = r, False
            elif isinstance(res, (bool, T)) and isinstance(r, (bool, T)):
                res = terms.land(res, r)
            else:
                raise self.unsupported("chained array comparison", n)
            if res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b, n):
        return self.lib.compare(self, type(op).__name__, a, b, n)

    def e_Call(self, n, env, m):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            fn = self.cur_func(env)
            if n.args:
                owner = self.ev(n.args[0], env, m)
                return SuperVal(owner, self.ev(n.args[1], env, m))
            if fn is None or fn.owner is None:
                raise self.unsupported("super() outside a method", n)
            first = fn.node.args.args[0].arg
            return SuperVal(fn.owner, self.lookup(first, env, m))
        f = self.ev(n.func, env, m)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env, m), a))
            else:
                args.append(self.ev(a, env, m))
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env, m)
                if not isinstance(d, dict):
                    raise self.unsupported("** of a non-dict", n)
                for kk, vv in d.items():
                    if kk in kwargs:
                        raise self.err("TypeError", "multiple values for keyword argument %s" % kk)
                    kwargs[kk] = vv
            else:
                if k.arg in kwargs:
                    raise self.err("TypeError", "multiple values for keyword argument %s" % k.arg)
                kwargs[k.arg] = self.ev(k.value, env, m)
        if isinstance(f, ExtVal) and f.name in ("builtins.locals", "builtins.globals", "builtins.vars"):
            if f.name == "builtins.globals":
                return m.ns
            if f.name == "builtins.locals":
                return dict(env.vars)
        self.calls += 1
        return self.call(f, args, kwargs, n)

    def cur_func(self, env):
        e = env
        while e is not None:
            fv = e.vars.get("__func__")
            if fv is not None and fv.owner is not None:
                return fv
            e = e.parent
        return None

    def e_Attribute(self, n, env, m):
        return self.getattr(self.ev(n.value, env, m), n.attr, n)

    def e_Subscript(self, n, env, m):
        obj = self.ev(n.value, env, m)
        return self.getitem(obj, self.ev_index(n.slice, env, m), n)

    def ev_index(self, s, env, m):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.concretize(self.ev(x, env, m))
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, env, m) for x in s.elts)
        return self.ev(s, env, m)

    def e_Slice(self, n, env, m):
        return self.ev_index(n, env, m)

    def e_Starred(self, n, env, m):
        raise self.unsupported("starred", n)

    def _comp(self, gens, env, m, emit):
        def go(i, e):
            if i == len(gens):
                emit(e)
                return
            g = gens[i]
            for v in self.iterate(self.ev(g.iter, e, m), g.iter):
                self.assign(g.target, v, e, m)
                if all(self.truth(self.ev(c, e, m)) for c in g.ifs):
                    go(i + 1, e)
        e = Env(env, env.func)
        go(0, e)

    def e_ListComp(self, n, env, m):
        out = []
        self._comp(n.generators, env, m, lambda e: out.append(self.ev(n.elt, e, m)))
        return out

    def e_GeneratorExp(self, n, env, m):
        return self.e_ListComp(n, env, m)

    def e_SetComp(self, n, env, m):
        return set(self.e_ListComp(n, env, m))

    def e_DictComp(self, n, env, m):
        out = {}

        def emit(e):
            out[self.hashkey(self.ev(n.key, e, m))] = self.ev(n.value, e, m)
        self._comp(n.generators, env, m, emit)
        return out

    def e_Yield(self, n, env, m):
        acc = env
        while acc is not None and "__yield__" not in acc.vars:
            acc = acc.parent
        if acc is None:
            raise self.unsupported("yield", n)
        acc.vars["__yield__"].append(None if n.value is None else self.ev(n.value, env, m))
        return None

    # ------------------------------------------------------------------ iteration
    def iterate(self, v, node=None):
        if isinstance(v, (list, tuple, range, set, frozenset, deque, str)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))):
            return list(v)
        if isinstance(v, Arr):
            if v.a.ndim == 0:
                raise self.err("TypeError", "iteration over a 0-d array")
            return [self.lib.wrap(v.a[i], v.dt, v.lib) for i in range(v.a.shape[0])]
        if isinstance(v, Inst):
            f, _ = v.cls.lookup("__iter__")
            if f is not None:
                return self.iterate(self.call(BoundMethod(f, v), [], {}), node)
        if isinstance(v, (zip, map, enumerate, reversed)) or hasattr(v, "__next__"):
            return list(v)
        if v is None or isinstance(v, (bool, int, Fraction)):
            raise self.err("TypeError", "object is not iterable")
        raise self.unsupported("iteration over %r" % (v,), node)

    # ------------------------------------------------------------------ attributes
    def getattr(self, obj, name, node=None, default=None, has_default=False):
        try:
            return self.lib.getattr_(self, obj, name, node)
        except PyRaise as e:
            if has_default and "AttributeError" in e.exc.names:
                return default
            raise

    def inst_attr(self, obj, name, node=None):
        v, owner = obj.cls.lookup(name)
        if isinstance(v, PropertyVal):
            return self.call(v.fget, [obj], {})
        if name in obj.attrs:
            r = obj.attrs[name]
            if isinstance(r, Poison):
                raise self.unsupported(r.why, node)
            return r
        if owner is not None:
            return self.bind(v, obj)
        if name == "__class__":
            return obj.cls
        if name == "__dict__":
            return obj.attrs
        ga, _ = obj.cls.lookup("__getattr__")
        if ga is not None:
            return self.call(BoundMethod(ga, obj), [name], {})
        ext = [b for b in obj.cls.ext_bases() if b not in NEUTRAL_BASES]
        if ext:
            raise self.unsupported("attribute %s may come from external base %s" % (name, ext[0]), node)
        raise self.err("AttributeError", "%s has no attribute %s" % (obj.cls.name, name))

    def bind(self, v, obj):
        if isinstance(v, (FuncVal, HostFn)):
            return BoundMethod(v, obj)
        if isinstance(v, StaticVal):
            return v.func
        if isinstance(v, ClassMethodVal):
            return BoundMethod(v.func, obj.cls if isinstance(obj, Inst) else obj)
        if isinstance(v, Poison):
            raise self.unsupported(v.why)
        return v

    def setattr(self, obj, name, v):
        if isinstance(obj, Inst):
            p, _ = obj.cls.lookup(name)
            if isinstance(p, PropertyVal):
                if p.fset is None:
                    raise self.err("AttributeError", "can't set %s" % name)
                self.call(p.fset, [obj, v], {})
                return
            if obj.frozen:
                raise self.err("AttributeError", "cannot assign to field %s of a frozen module" % name)
            obj.attrs[name] = v
            return
        if isinstance(obj, ClassVal):
            obj.ns[name] = v
            return
        if isinstance(obj, ModuleVal):
            obj.ns[name] = v
            return
        if isinstance(obj, FuncVal):
            obj.attrs[name] = v
            return
        if isinstance(obj, Arr) and name == "shape":
            obj.a = obj.a.reshape(v)
            return
        if isinstance(obj, ExtVal):
            return
        raise self.unsupported("attribute store on %r" % (obj,))

    # ------------------------------------------------------------------ items
    def getitem(self, obj, idx, node=None):
        return self.lib.getitem(self, obj, idx, node)

    def setitem(self, obj, idx, v, node=None):
        return self.lib.setitem(self, obj, idx, v, node)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs, node=None):
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, HostFn):
            return f.fn(self, args, kwargs)
        if isinstance(f, PartialVal):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw, node)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, ExtVal):
            return self.lib.call_ext(self, f.name, args, kwargs, node)
        if isinstance(f, Inst):
            c, _ = f.cls.lookup("__call__")
            if c is None:
                raise self.err("TypeError", "%s is not callable" % f.cls.name)
            return self.call(BoundMethod(c, f), args, kwargs, node)
        if isinstance(f, StaticVal):
            return self.call(f.func, args, kwargs, node)
        if isinstance(f, Poison):
            raise self.unsupported(f.why, node)
        if callable(f) and not isinstance(f, (T, Arr)):
            return f(*args, **kwargs)
        raise self.err("TypeError", "%r is not callable" % (f,))

    def instantiate(self, cls, args, kwargs, node=None):
        con = self.contracts.get(cls.qualname)
        if con is not None:
            return con(self, args, kwargs)
        new, _ = cls.lookup("__new__")
        if new is not None:
            raise self.unsupported("__new__", node)
        obj = Inst(cls)
        exc = [b for b in cls.ext_bases() if b.startswith("builtins.")]
        init, _ = cls.lookup("__init__")
        auto = self.auto_fields(cls)
        if init is not None and not (cls.dataclass and "__init__" not in cls.ns):
            # class-level defaults of annotated fields are visible through the class
            self.call(BoundMethod(init, obj), args, kwargs, node)
        elif auto is not None:
            self.auto_init(obj, auto, args, kwargs)
        elif exc:
            obj.attrs["args"] = tuple(args)
        elif args or kwargs:
            ext = [b for b in cls.ext_bases() if b not in NEUTRAL_BASES]
            if ext:
                raise self.unsupported("constructor of external base %s" % ext[0], node)
            raise self.err("TypeError", "%s() takes no arguments" % cls.name)
        pi, _ = cls.lookup("__post_init__")
        if pi is not None and auto is not None:
            self.call(BoundMethod(pi, obj), [], {})
        chk, _ = cls.lookup("__check_init__")
        if chk is not None:
            self.call(BoundMethod(chk, obj), [], {})
        if "equinox.Module" in cls.ext_bases():
            obj.frozen = True
        return obj

    def auto_fields(self, cls):
        if cls.dataclass or "equinox.Module" in cls.ext_bases() or any(c.dataclass for c in cls.mro()):
            out = []
            for c in reversed(cls.mro()):
                for a in c.annots:
                    if a not in out:
                        out.append(a)
            return out
        return None

    def auto_init(self, obj, fields, args, kwargs):
        kwargs = dict(kwargs)
        if len(args) > len(fields):
            raise self.err("TypeError", "too many arguments for %s" % obj.cls.name)
        for f, v in zip(fields, args):
            obj.attrs[f] = v
        for f in fields[len(args):]:
            if f in kwargs:
                obj.attrs[f] = kwargs.pop(f)
            else:
                d, owner = obj.cls.lookup(f)
                if owner is None:
                    raise self.err("TypeError", "missing argument %s of %s" % (f, obj.cls.name))
                if isinstance(d, FieldDefault):
                    d = self.call(d.factory, [], {}) if d.factory is not None else d.value
                obj.attrs[f] = d
        if kwargs:
            raise self.err("TypeError", "unexpected arguments %s" % sorted(kwargs))

    def call_func(self, f, args, kwargs, node=None):
        con = self.contracts.get(f.qualname)
        if con is not None:
            self.contract_uses[f.qualname] = self.contract_uses.get(f.qualname, 0) + 1
            bound = self.bind_args(f, args, kwargs)
            return con(self, bound)
        self.depth += 1
        if self.depth > 150:
            self.depth = 0
            raise Unsupported("call depth")
        env = Env(f.env, f.qualname[len(f.module.name) + 1:])
        b = self.bind_args(f, args, kwargs)
        env.vars.update(b)
        env.vars["__func__"] = f
        self.funcs.setdefault(f.qualname, (f.module.path, getattr(f.node, "lineno", 0)))
        self.stack.append(f.qualname)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env, f.module)
            if self.is_generator(f):
                env.vars["__yield__"] = []
                self.exec_block(f.node.body, env, f.module)
                return env.vars["__yield__"]
            r = self.exec_block(f.node.body, env, f.module)
            if isinstance(r, tuple) and r[0] == "ret":
                return r[1]
            return None
        finally:
            self.stack.pop()
            self.depth -= 1

    def is_generator(self, f):
        g = f.attrs.get("__isgen__")
        if g is None:
            g = False
            todo = list(f.node.body) if isinstance(f.node.body, list) else []
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    g = True
                    break
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                todo.extend(ast.iter_child_nodes(x))
            f.attrs["__isgen__"] = g
        return g

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        out = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        for i, p in enumerate(pos):
            if i < len(args):
                out[p] = args[i]
        if len(args) > len(pos):
            if a.vararg is None:
                raise self.err("TypeError", "%s() takes %d positional arguments but %d were given" % (f.qualname, len(pos), len(args)))
            out[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for k in list(kwargs):
            if k in pos and k not in [p.arg for p in a.posonlyargs]:
                if k in out:
                    raise self.err("TypeError", "%s() got multiple values for argument %s" % (f.qualname, k))
                out[k] = kwargs.pop(k)
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in out:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise self.err("TypeError", "%s() missing argument %s" % (f.qualname, p))
                out[p] = f.defaults[j]
        for p, d, dn in zip(a.kwonlyargs, f.kw_defaults, a.kw_defaults):
            if p.arg in kwargs:
                out[p.arg] = kwargs.pop(p.arg)
            elif dn is not None:
                out[p.arg] = d
            else:
                raise self.err("TypeError", "%s() missing keyword argument %s" % (f.qualname, p.arg))
        if a.kwarg is not None:
            out[a.kwarg.arg] = kwargs
        elif kwargs:
            raise self.err("TypeError", "%s() got an unexpected keyword argument %s" % (f.qualname, sorted(map(str, kwargs))))
        return out


class FieldDefault:
    def __init__(self, value=None, factory=None):
        self.value, self.factory = value, factory


NEUTRAL_BASES = {"equinox.Module", "abc.ABC", "builtins.object", "typing.Protocol", "builtins.Exception",
                 "builtins.RuntimeError", "builtins.ValueError"}
