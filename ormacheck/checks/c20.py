"""Code paths are complete: names and imports resolve, calls fit their callees, every path returns what the other paths promise, and results of pure updates are used."""
import ast
import builtins
import importlib.util
import json
import os
import shutil
import subprocess
import symtable
import tempfile

from ..driver import AnchorMissing
from .. import effects

SERIAL = True
RULE = "scope, signature, reachability and liveness rules over every function of the package (syntax tree), library names and imports resolved by a type checker against the installed library sources"
PURE_AT = {"set", "add", "multiply", "mul", "divide", "div", "power", "min", "max", "apply", "get"}
PURE_M = {"reshape", "astype", "copy", "ravel", "flatten", "transpose", "dot", "squeeze", "sum", "conj", "conjugate", "tolist", "clip", "cumsum", "mean", "prod", "swapaxes", "todense", "tocsr"}
NP_EFFECT = {"seterr", "set_printoptions", "seed", "savetxt", "save", "savez", "fill_diagonal", "put", "copyto", "place", "putmask", "shuffle", "errstate", "put_along_axis", "printoptions", "warn"}
PURE_LIBS = {"jnp", "np", "numpy", "math", "lax"}


# ------------------------------------------------------------------ reachability
def outcomes(body):
    """ways a statement list can end: subset of {'fall','ret','raise','break','cont'}"""
    out = set()
    for st in body:
        o = outcome(st)
        out |= o - {"fall"}
        if "fall" not in o:
            return out
    return out | {"fall"}


def const(e):
    if isinstance(e, ast.Constant):
        return bool(e.value)
    return None


def noreturn(e):
    if isinstance(e, ast.Call):
        f = ast.unparse(e.func)
        return f in ("sys.exit", "exit", "quit", "os._exit", "os.abort", "parser.error", "self.fail", "pytest.fail")
    return False


def outcome(st):
    if isinstance(st, ast.Return):
        return {"ret"}
    if isinstance(st, ast.Raise):
        return {"raise"}
    if isinstance(st, ast.Break):
        return {"break"}
    if isinstance(st, ast.Continue):
        return {"cont"}
    if isinstance(st, ast.Assert):
        return {"raise"} if const(st.test) is False else {"fall"}
    if isinstance(st, ast.Expr):
        return {"raise"} if noreturn(st.value) else {"fall"}
    if isinstance(st, ast.If):
        c = const(st.test)
        a = outcomes(st.body) if c is not False else set()
        b = (outcomes(st.orelse) if st.orelse else {"fall"}) if c is not True else set()
        return a | b
    if isinstance(st, (ast.While, ast.For, ast.AsyncFor)):
        b = outcomes(st.body)
        out = b & {"ret", "raise"}
        infinite = isinstance(st, ast.While) and const(st.test) is True
        if not infinite:
            out |= outcomes(st.orelse) if st.orelse else {"fall"}
        if "break" in b:
            out |= {"fall"}
        return out
    if isinstance(st, (ast.With, ast.AsyncWith)):
        return outcomes(st.body)
    if isinstance(st, ast.Try) or st.__class__.__name__ == "TryStar":
        fin = outcomes(st.finalbody) if st.finalbody else {"fall"}
        if "fall" not in fin:
            return fin
        b = outcomes(st.body)
        if "fall" in b and st.orelse:
            b = (b - {"fall"}) | outcomes(st.orelse)
        for h in st.handlers:
            b |= outcomes(h.body)
        return b | (fin - {"fall"})
    if isinstance(st, ast.Match):
        out, irrefutable = set(), False
        for c in st.cases:
            out |= outcomes(c.body)
            if c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                irrefutable = True
        return out if irrefutable else out | {"fall"}
    return {"fall"}


def own(node):
    """statements and expressions of a function without those of nested functions and classes"""
    todo = list(node.body)
    while todo:
        x = todo.pop(0)
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo[:0] = list(ast.iter_child_nodes(x))


def functions(tree):
    out = []

    def go(n, qual, cls):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((qual + c.name, c, cls))
                go(c, qual + c.name + ".", None)
            elif isinstance(c, ast.ClassDef):
                go(c, qual + c.name + ".", c.name)
            else:
                go(c, qual, cls)
    go(tree, "", None)
    return out


def abstract(fn):
    if any("abstract" in ast.unparse(d) for d in fn.decorator_list):
        return True
    body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return not body or len(body) == 1 and isinstance(body[0], (ast.Pass, ast.Raise))


# ------------------------------------------------------------------ the rules
def run(ctx):
    files = {}
    root = os.path.join(ctx.root, "ormatex_py")
    if not os.path.isdir(root):
        raise AnchorMissing("ormatex_py")
    for dp, dn, fn in sorted(os.walk(root)):
        for f in sorted(fn):
            if f.endswith(".py"):
                p = os.path.join(dp, f)
                src = open(p, encoding="utf-8").read()
                rel = os.path.relpath(p, ctx.root)
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    ctx.violate("syntax:" + rel, "%s:%s does not parse: %s" % (rel, e.lineno, e.msg))
                    continue
                files[rel] = (src, tree)
    pkg = effects.Package(ctx.project)
    for _ in range(4):
        for f in pkg.fns.values():
            effects.Flow(pkg, f).run()
    names(ctx, files)
    returns(ctx, files, pkg)
    discarded(ctx, files, pkg)
    calls(ctx, files, pkg)
    attributes(ctx, files, pkg)
    duplicates(ctx, files)
    jitnames(ctx, files)
    imports(ctx, files)
    library(ctx, files)


def names(ctx, files):
    inst, bad = [], []
    for rel, (src, tree) in files.items():
        star = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(tree))
        top = symtable.symtable(src, rel, "exec")
        defined = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                defined |= set(n.names)
        lines = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                lines.setdefault(n.id, n.lineno)

        def go(t, qual):
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                nm = s.get_name()
                inst.append("%s %s" % (rel, nm))
                if (s.is_global() or t.get_type() == "module") and nm not in defined and not hasattr(builtins, nm) and nm not in ("__file__", "__name__", "__doc__", "__class__", "__annotations__", "__path__") and not star:
                    ln = lines.get(nm, t.get_lineno())
                    bad.append(("name:%s:%s" % (rel, nm), "%s:%s %s refers to the undefined name %s" % (rel, ln, qual or "module", nm)))
            for c in t.get_children():
                go(c, (qual + "." if qual else "") + c.get_name())
        go(top, "")
        # locals read although no path assigns them first
        for q, fn, cls in functions(tree):
            for nm, ln in unassigned(fn):
                bad.append(("unassigned:%s:%s:%s" % (rel, q, nm), "%s:%d %s reads %s before any assignment reaches it" % (rel, ln, q, nm)))
    ctx.rule("every name resolves", sorted(set(inst)), bad, floor=300)


def unassigned(fn):
    """local names read where no path has assigned them (a must analysis: reported only when every path is without)"""
    loc = set()
    for x in own(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            loc.add(x.id)
    decl = {n for x in own(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
    args = {a.arg for a in fn.args.args + fn.args.posonlyargs + fn.args.kwonlyargs} | {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
    comp = set()
    for x in own(fn):
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in x.generators:
                comp |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
    loc -= decl | args
    out = []

    def reads(e, may):
        for n in ast.walk(e):
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                pass
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc and n.id not in may and n.id not in comp:
                if not in_lambda(e, n):
                    out.append((n.id, n.lineno))

    def in_lambda(e, n):
        return any(isinstance(l, ast.Lambda) and any(m is n for m in ast.walk(l)) for l in ast.walk(e))

    def stores(t, may):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                may.add(n.id)

    def everything(st, may):
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                may.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                may.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    may.add((a.asname or a.name).split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                may.add(n.name)

    def block(body, may):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                may.add(st.name)
            elif isinstance(st, ast.If):
                reads(st.test, may)
                stores(st.test, may)
                a, b = set(may), set(may)
                block(st.body, a)
                block(st.orelse, b)
                may |= a | b
            elif isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
                reads(st.iter if not isinstance(st, ast.While) else st.test, may)
                everything(st, may)      # a later round may have assigned it
                block(st.body, may)
                block(st.orelse, may)
            elif isinstance(st, (ast.Try, ast.With, ast.AsyncWith, ast.Match)):
                if isinstance(st, ast.With):
                    for i in st.items:
                        reads(i.context_expr, may)
                everything(st, may)
            else:
                for c in ast.iter_child_nodes(st):
                    if isinstance(c, ast.expr) and not (isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store)):
                        reads(c, may | {n.id for n in ast.walk(c) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
                if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id in loc and st.target.id not in may:
                    out.append((st.target.id, st.lineno))
                everything(st, may)
    block(fn.body, set())
    return out


def returns(ctx, files, pkg):
    inst, bad = [], []
    for rel, (src, tree) in files.items():
        for q, fn, cls in functions(tree):
            if abstract(fn):
                continue
            rets = [x for x in own(fn) if isinstance(x, ast.Return)]
            val = [r for r in rets if r.value is not None and not (isinstance(r.value, ast.Constant) and r.value.value is None)]
            gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(fn))
            ann = ast.unparse(fn.returns) if fn.returns is not None else ""
            ends = outcomes(fn.body)
            inst.append("%s:%d %s" % (rel, fn.lineno, q))
            if gen or "None" in ann or "Optional" in ann:
                continue
            if val and "fall" in ends and not any(r.value is None or isinstance(r.value, ast.Constant) and r.value.value is None for r in rets):
                bad.append(("return:%s:%s" % (rel, q), "%s:%d %s returns a value on some paths and ends without one on another" % (rel, fn.lineno, q)))
            elif val and any(r.value is None for r in rets):
                r = [r for r in rets if r.value is None][0]
                bad.append(("return:%s:%s" % (rel, q), "%s:%d %s returns nothing here and a value elsewhere" % (rel, r.lineno, q)))
            elif not val and ann and ann not in ("None", "NoReturn", "typing.NoReturn") and "fall" in ends:
                bad.append(("return:%s:%s" % (rel, q), "%s:%d %s promises %s and never returns a value" % (rel, fn.lineno, q, ann)))
            # tuples of different lengths where the other paths agree
            lens = {len(r.value.elts) for r in val if isinstance(r.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in r.value.elts)}
            if len(lens) > 1:
                bad.append(("arity:%s:%s" % (rel, q), "%s:%d %s returns tuples of %s values" % (rel, fn.lineno, q, " and ".join(map(str, sorted(lens))))))
    for q, f in pkg.fns.items():
        if not abstract(f.node) and not gives(f.node) and f.node.name not in ("__init__", "__post_init__", "__check_init__") and pure(pkg, f, None, False):
            bad.append(("vacuous:%s" % q, "%s:%d %s has neither a result nor an effect" % (f.path, f.node.lineno, q)))
    ctx.rule("every path returns what the others promise", inst, bad, floor=150)


def is_at(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in PURE_AT and isinstance(e.func.value, ast.Subscript) \
        and isinstance(e.func.value.value, ast.Attribute) and e.func.value.value.attr == "at"


def discarded(ctx, files, pkg):
    inst, bad = [], []
    bymod = {}
    for f in pkg.fns.values():
        bymod.setdefault(f.path, []).append(f)
    for rel, (src, tree) in files.items():
        imported = {a.asname or a.name for n in ast.walk(tree) if isinstance(n, ast.Import) for a in n.names}
        pkgfns = {id(f.node): f for f in bymod.get(rel, [])}
        scopes = functions(tree) + [("module", tree, None)]
        for q, fn, cls in scopes:
            holder = next((f for f in bymod.get(rel, []) if any(x is fn for x in ast.walk(f.node))), None)
            for x in own(fn):
                if isinstance(x, ast.Expr):
                    e = x.value
                    inst.append("%s:%d" % (rel, x.lineno))
                    why = None
                    if is_at(e):
                        why = "the result of the update %s is discarded" % ast.unparse(e)[:60]
                    elif isinstance(e, (ast.Compare, ast.BinOp)) and any(isinstance(y, (ast.Name, ast.Call)) for y in ast.walk(e)):
                        why = "the value of %s is discarded" % ast.unparse(e)[:60]
                    elif isinstance(e, ast.Call):
                        f = e.func
                        if isinstance(f, ast.Attribute):
                            base = ast.unparse(f.value)
                            lib = base.split(".")[0]
                            if lib in PURE_LIBS and f.attr not in NP_EFFECT and not any(k.arg == "out" for k in e.keywords) and base not in ("np.random",) and f.attr != "at" and "testing" not in base:
                                why = "the result of %s is discarded" % ast.unparse(f)
                            elif f.attr in PURE_M and not lib.startswith("plt") and base != "ax":
                                why = "the result of .%s() is discarded" % f.attr
                        if why is None and holder is not None:
                            got = pkg.resolve(holder, f)
                            if got and pure(pkg, got[0]):
                                why = "the result of %s, which has no other effect, is discarded" % ast.unparse(f)
                    if why:
                        bad.append(("discard:%s:%s" % (rel, q), "%s:%d %s: %s" % (rel, x.lineno, q, why)))
            if fn is not tree:
                for nm, ln, what in dead_updates(fn):
                    inst.append("%s:%d" % (rel, ln))
                    bad.append(("dead:%s:%s:%s" % (rel, q, nm), "%s:%d %s: the updated array assigned to %s is never used (%s)" % (rel, ln, q, nm, what)))
    ctx.rule("results of pure operations are used", inst, bad, floor=100)


def pure(pkg, f, seen=None, result=True):
    """the function's only effect is its result"""
    seen = seen or set()
    if f.qual in seen:
        return True
    seen.add(f.qual)
    if f.writes or f.shared or f.attr_writes:
        return False
    ok = not result
    for x in own(f.node):
        if isinstance(x, ast.Return) and x.value is not None:
            ok = True
        if isinstance(x, (ast.Raise, ast.Assert, ast.Global, ast.Nonlocal, ast.Yield, ast.With, ast.Try)):
            return False               # called for the check it makes
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
            return False
        if isinstance(x, ast.Call):
            fn = x.func
            if isinstance(fn, ast.Attribute) and ast.unparse(fn).split(".")[0] in PURE_LIBS | {"jax", "sp", "scipy"}:
                continue
            if isinstance(fn, ast.Name) and fn.id in ("len", "range", "max", "min", "abs", "sum", "float", "int", "list", "tuple", "dict", "enumerate", "zip", "isinstance", "sorted", "complex", "set"):
                continue
            if isinstance(fn, ast.Attribute) and fn.attr in effects.MUT | PURE_M | PURE_AT and not result:
                continue               # of a local: a write elsewhere is in f.writes
            got = pkg.resolve(f, fn)
            if not got or not pure(pkg, got[0], seen):
                return False
    return ok


def dead_updates(fn):
    """assignments x = y.at[...].set(...) whose x no path reads before it is assigned again"""
    free = set()      # names nested functions read
    for x in ast.walk(fn):
        if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn:
            free |= {n.id for n in ast.walk(x) if isinstance(n, ast.Name)}
    decl = {n for x in own(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
    out = {}

    def uses(e):
        return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))}

    def block(body, live, brk, cnt, note):
        for st in reversed(body):
            live = stmt(st, live, brk, cnt, note)
        return live

    def stmt(st, live, brk, cnt, note):
        if isinstance(st, (ast.Return, ast.Raise)):
            return uses(st)
        if isinstance(st, ast.Break):
            return set(brk)
        if isinstance(st, ast.Continue):
            return set(cnt)
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            if st.value is None:
                return live
            tg = st.targets if isinstance(st, ast.Assign) else [st.target]
            for t in tg:
                if isinstance(t, ast.Name) and note and is_at(st.value) and st.value.func.attr != "get" and t.id not in live and t.id not in free and t.id not in decl:
                    out[(t.id, st.lineno)] = ast.unparse(st.value)[:60]
            live = set(live)
            for t in tg:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        live.discard(n.id)
            return live | uses(st)
        if isinstance(st, ast.AugAssign):
            return live | uses(st) | {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
        if isinstance(st, ast.If):
            return block(st.body, set(live), brk, cnt, note) | block(st.orelse, set(live), brk, cnt, note) | uses(st.test)
        if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            after = block(st.orelse, set(live), brk, cnt, note)
            head = uses(st.test if isinstance(st, ast.While) else st.iter)
            l = after | head | set(live)
            for i in range(3):
                l2 = block(st.body, set(l), live, l, False) | l
                if l2 == l:
                    break
                l = l2
            block(st.body, set(l), live, l, note)
            return l
        if isinstance(st, (ast.With, ast.AsyncWith)):
            l = block(st.body, live, brk, cnt, note)
            for i in st.items:
                l = l | uses(i.context_expr)
            return l
        if isinstance(st, ast.Try):
            l = block(st.finalbody, set(live), brk, cnt, note)
            h = set()
            for hd in st.handlers:
                h |= block(hd.body, set(l), brk, cnt, note)
            b = block(st.orelse, set(l), brk, cnt, note)
            return block(st.body, b | h, brk, cnt, note) | h
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return live
        return live | uses(st)
    block(fn.body, set(), set(), set(), True)
    return [(n, ln, w) for (n, ln), w in out.items()]


def calls(ctx, files, pkg):
    inst, bad = [], []
    for q, f in pkg.fns.items():
        ignored = {id(x.value) for x in ast.walk(f.node) if isinstance(x, ast.Expr)}
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call):
                continue
            got = pkg.resolve(f, x.func)
            if not got or isinstance(x.func, ast.Name) and x.func.id in Flow_locals(f):
                continue
            g, off = got
            a = g.node.args
            if id(x) not in ignored and g.node.name != "__init__" and not abstract(g.node) and not gives(g.node) and not any(isinstance(y, ast.Return) and y.value is x for y in ast.walk(f.node)):
                bad.append(("noresult:%s:%s" % (q, g.qual.split(".")[-1]), "%s:%d %s uses the result of %s, which never returns one" % (f.path, x.lineno, q, g.qual)))
            inst.append("%s:%d %s" % (f.path, x.lineno, ast.unparse(x.func)[:50]))
            if any(isinstance(y, ast.Starred) for y in x.args) or any(k.arg is None for k in x.keywords):
                loose = True
            else:
                loose = False
            pos = [p.arg for p in a.posonlyargs + a.args][off:]
            nd = len(a.defaults)
            required = pos[:len(pos) - nd] if nd else pos
            kws = {k.arg for k in x.keywords if k.arg}
            kwonly = [p.arg for p in a.kwonlyargs]
            where = "%s:%d %s calls %s" % (f.path, x.lineno, q, ast.unparse(x.func)[:50])
            key = "call:%s:%s" % (q, g.qual.split(".")[-1])
            if len([y for y in x.args if not isinstance(y, ast.Starred)]) > len(pos) and a.vararg is None:
                bad.append((key, "%s with %d positional arguments, it takes %d" % (where, len(x.args), len(pos))))
                continue
            unknown = [k for k in kws if k not in pos and k not in kwonly]
            if unknown and a.kwarg is None:
                bad.append((key, "%s with the unknown argument %s" % (where, unknown[0])))
                continue
            dup = [p for p in pos[:len(x.args)] if p in kws]
            if dup and not loose:
                bad.append((key, "%s with two values for %s" % (where, dup[0])))
            if not loose:
                miss = [p for p in required[len(x.args):] if p not in kws]
                miss += [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and p.arg not in kws]
                if miss:
                    bad.append((key, "%s without the required argument %s" % (where, miss[0])))
    ctx.rule("in-package calls fit the callee's signature", inst, bad, floor=80)


def gives(fn):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Return) and x.value is not None for x in own(fn))


def Flow_locals(f):
    got = getattr(f, "_locals", None)
    if got is None:
        got = f._locals = effects.Flow.local_names(f.node)
    return got


def attributes(ctx, files, pkg):
    inst, bad = [], []
    ext = {}

    def external(c):
        """does the hierarchy leave the package (other than the neutral bases)"""
        for k in pkg.mro(c):
            for b in pkg.classes[k][1].bases:
                n = ast.unparse(b)
                if pkg.base(k[0], b) is None and n not in ("object", "eqx.Module", "equinox.Module", "ABC", "Enum") :
                    return True
        return False

    def provided(c):
        out = {"__class__", "__dict__", "__doc__", "__module__", "__name__"}
        for k in pkg.mro(c):
            node = pkg.classes[k][1]
            for s in node.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    out.add(s.name)
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []):
                    out |= {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
            for x in ast.walk(node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    out.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr":
                    out.add("*")
                if isinstance(x, ast.Call) and ast.unparse(x.func) in ("object.__setattr__", "super().__setattr__") and len(x.args) > 1:
                    a = x.args[-2]
                    out.add(a.value if isinstance(a, ast.Constant) else "*")
            if any(isinstance(s, ast.FunctionDef) and s.name in ("__getattr__", "__getattribute__") for s in node.body):
                out.add("*")
        return out
    subs = {}
    for c in pkg.classes:
        for k in pkg.mro(c):
            subs.setdefault(k, set()).add(c)
    for q, f in pkg.fns.items():
        me = (f.mod, f.cls)
        if not f.cls or not f.self_ or external(me) or abstract(f.node):
            continue
        have = set()
        for s in subs.get(me, {me}):      # a template method may rely on its subclasses
            have |= provided(s)
        if "*" in have:
            continue
        cm = any("classmethod" in ast.unparse(d) for d in f.node.decorator_list)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == f.self_ and isinstance(x.ctx, ast.Load):
                inst.append("%s:%d self.%s" % (f.path, x.lineno, x.attr))
                if x.attr not in have and not x.attr.startswith("__"):
                    bad.append(("attribute:%s:%s" % (q, x.attr), "%s:%d %s reads self.%s, which no class of its hierarchy provides" % (f.path, x.lineno, q, x.attr)))
    # classes the package instantiates implement what their bases leave open
    for rel, (src, tree) in files.items():
        for x in ast.walk(tree):
            c = pkg.find_class(rel[:-3].replace(os.sep, "."), x.func.id) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) else None
            if c:
                done, openm = set(), {}
                for k in pkg.mro(c):
                    for s in pkg.classes[k][1].body:
                        if isinstance(s, ast.FunctionDef):
                            if any("abstractmethod" in ast.unparse(d) for d in s.decorator_list):
                                if s.name not in done:
                                    openm.setdefault(s.name, k)
                            else:
                                done.add(s.name)
                        elif isinstance(s, ast.Assign):
                            done |= {t.id for t in s.targets if isinstance(t, ast.Name)}
                inst.append("%s:%d %s()" % (rel, x.lineno, c[1]))
                for m, k in openm.items():
                    bad.append(("abstract:%s:%s" % (c[1], m), "%s:%d instantiates %s, which leaves %s of %s open" % (rel, x.lineno, c[1], m, k[1])))
    ctx.rule("attributes of self resolve, instantiated classes are complete", inst, bad, floor=150)


def duplicates(ctx, files):
    inst, bad = [], []
    for rel, (src, tree) in files.items():
        for scope in [tree] + [x for x in ast.walk(tree) if isinstance(x, ast.ClassDef)]:
            seen = {}
            for s in scope.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    inst.append("%s:%d %s" % (rel, s.lineno, s.name))
                    deco = [ast.unparse(d) for d in s.decorator_list]
                    if s.name in seen and not any(d.endswith((".setter", ".getter", ".deleter", "overload", ".register")) for d in deco) and s.name != "_":
                        bad.append(("redefined:%s:%s" % (rel, s.name), "%s:%d %s hides the definition at line %d" % (rel, s.lineno, s.name, seen[s.name])))
                    seen[s.name] = s.lineno
        for x in ast.walk(tree):
            if isinstance(x, ast.Raise) and isinstance(x.exc, ast.Name) and x.exc.id == "NotImplemented" or isinstance(x, ast.Raise) and isinstance(x.exc, ast.Call) and isinstance(x.exc.func, ast.Name) and x.exc.func.id == "NotImplemented":
                bad.append(("raise:%s" % rel, "%s:%d raises NotImplemented, which is no exception" % (rel, x.lineno)))
            if isinstance(x, ast.Raise) and isinstance(x.exc, ast.Constant):
                bad.append(("raise:%s" % rel, "%s:%d raises a constant" % (rel, x.lineno)))
            if isinstance(x, ast.Assert) and isinstance(x.test, ast.Tuple) and x.test.elts:
                bad.append(("assert:%s" % rel, "%s:%d asserts a tuple, which is always true" % (rel, x.lineno)))
            if isinstance(x, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in x.ops) and any(isinstance(c, ast.Constant) and isinstance(c.value, (str, int, float)) and not isinstance(c.value, bool) for c in [x.left] + x.comparators):
                bad.append(("identity:%s" % rel, "%s:%d compares a literal by identity" % (rel, x.lineno)))
            if isinstance(x, (ast.If, ast.While)) and isinstance(x.test, (ast.Lambda,)):
                bad.append(("test:%s" % rel, "%s:%d tests a function object" % (rel, x.lineno)))
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Constant) and isinstance(x.left.value, str) and isinstance(x.right, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in x.right.elts):
                k = fmt_count(x.left.value)
                inst.append("%s:%d format" % (rel, x.lineno))
                if k is not None and k != len(x.right.elts):
                    bad.append(("format:%s:%d" % (rel, k), "%s:%d formats %d values into %d places" % (rel, x.lineno, len(x.right.elts), k)))
    ctx.rule("no definition is hidden, no vacuous assertion or comparison", inst, bad, floor=100)


def fmt_count(s):
    import re
    t = s.replace("%%", "")
    if "%(" in t or "*" in t:
        return None
    return len(re.findall(r"%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z]", t))


def jitnames(ctx, files):
    inst, bad = [], []
    for rel, (src, tree) in files.items():
        for q, fn, cls in functions(tree):
            ps = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
            for d in fn.decorator_list:
                if not isinstance(d, ast.Call):
                    continue
                for k in d.keywords:
                    if k.arg in ("static_argnames", "donate_argnames"):
                        try:
                            v = ast.literal_eval(k.value)
                        except ValueError:
                            continue
                        v = (v,) if isinstance(v, str) else v
                        for nm in v:
                            inst.append("%s:%d %s %s" % (rel, fn.lineno, q, nm))
                            if nm not in ps and fn.args.kwarg is None:
                                bad.append(("static:%s:%s" % (rel, q), "%s:%d %s has no parameter %s (%s)" % (rel, fn.lineno, q, nm, k.arg)))
                    elif k.arg in ("static_argnums", "donate_argnums"):
                        try:
                            v = ast.literal_eval(k.value)
                        except ValueError:
                            continue
                        v = (v,) if isinstance(v, int) else v
                        for i in v:
                            inst.append("%s:%d %s %d" % (rel, fn.lineno, q, i))
                            if i >= len(ps) and fn.args.vararg is None:
                                bad.append(("static:%s:%s" % (rel, q), "%s:%d %s has no parameter number %d (%s)" % (rel, fn.lineno, q, i, k.arg)))
    ctx.rule("static arguments of compiled functions exist", inst, bad, floor=1)


def guarded(tree, node):
    """inside a try that handles a failing import"""
    for t in ast.walk(tree):
        if isinstance(t, ast.Try) and any(x is node for s in t.body for x in ast.walk(s)):
            for h in t.handlers:
                n = ast.unparse(h.type) if h.type else "Exception"
                if any(y in n for y in ("ImportError", "ModuleNotFoundError", "Exception")):
                    return True
    return False


def exports(ctx, mod):
    got = ctx.project.tree(mod)
    if not got or got[1] is None:
        return None
    out = set()
    for n in got[1].body:
        for x in ast.walk(n):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split(".")[0] for a in x.names}
    return out


def imports(ctx, files):
    inst, bad = [], []
    for rel, (src, tree) in files.items():
        me = rel[:-3].replace(os.sep, ".")
        aliases = {}
        for x in ast.walk(tree):
            if isinstance(x, ast.ImportFrom):
                mod = x.module or ""
                if x.level:
                    base = me.split(".")[:-x.level]
                    mod = ".".join(base + ([mod] if mod else []))
                if not mod.startswith("ormatex_py"):
                    continue
                inst.append("%s:%d %s" % (rel, x.lineno, mod))
                if guarded(tree, x):
                    continue
                ex = exports(ctx, mod)
                isdir = os.path.isdir(os.path.join(ctx.root, mod.replace(".", os.sep)))
                for a in x.names:
                    sub = os.path.join(ctx.root, mod.replace(".", os.sep), a.name)
                    if os.path.isfile(sub + ".py") or os.path.isdir(sub):
                        aliases[a.asname or a.name] = mod + "." + a.name
                    elif ex is None and not isdir:
                        bad.append(("import:%s:%s" % (rel, mod), "%s:%d imports from the missing module %s" % (rel, x.lineno, mod)))
                    elif a.name != "*" and (ex is None or a.name not in ex):
                        bad.append(("import:%s:%s.%s" % (rel, mod, a.name), "%s:%d imports %s, which %s does not define" % (rel, x.lineno, a.name, mod)))
            elif isinstance(x, ast.Import):
                for a in x.names:
                    if a.name.startswith("ormatex_py"):
                        inst.append("%s:%d %s" % (rel, x.lineno, a.name))
                        if not guarded(tree, x) and exports(ctx, a.name) is None and not os.path.isdir(os.path.join(ctx.root, a.name.replace(".", os.sep))):
                            bad.append(("import:%s:%s" % (rel, a.name), "%s:%d imports the missing module %s" % (rel, x.lineno, a.name)))
                        if a.asname:
                            aliases[a.asname] = a.name
        for x in ast.walk(tree):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in aliases:
                ex = exports(ctx, aliases[x.value.id])
                inst.append("%s:%d %s.%s" % (rel, x.lineno, x.value.id, x.attr))
                if ex is not None and x.attr not in ex and not x.attr.startswith("__"):
                    bad.append(("member:%s:%s" % (rel, x.attr), "%s:%d refers to %s, which %s does not define" % (rel, x.lineno, x.attr, aliases[x.value.id])))
    ctx.rule("in-package imports resolve", inst, bad, floor=20)


def library(ctx, files):
    """names of library modules and missing imports, resolved against the installed sources by the type checker"""
    exe = shutil.which("pyright")
    venv = "/opt/venv"
    if exe is None or not os.path.isdir(venv):
        ctx.note_undecided("library names", "no type checker or library sources here")
        return
    d = tempfile.mkdtemp(prefix="orma_c20_")
    try:
        shutil.copytree(os.path.join(ctx.root, "ormatex_py"), os.path.join(d, "ormatex_py"), ignore=shutil.ignore_patterns("__pycache__", "*.so"))
        with open(os.path.join(d, "pyrightconfig.json"), "w") as fp:
            json.dump({"include": ["ormatex_py"], "venvPath": "/opt", "venv": "venv", "typeCheckingMode": "basic"}, fp)
        env = dict(os.environ, HOME=d, PYRIGHT_PYTHON_IGNORE_WARNINGS="1")
        try:
            o = subprocess.run([exe, "-p", d, "--outputjson"], capture_output=True, text=True, timeout=400, env=env)
            diag = json.loads(o.stdout)["generalDiagnostics"]
            n = json.loads(o.stdout)["summary"]["filesAnalyzed"]
        except Exception as e:
            ctx.note_undecided("library names", "type checker gave no answer (%s)" % type(e).__name__)
            return
        bad, inst = [], ["%s" % r for r in files]
        unresolved = [x for x in diag if x.get("rule") == "reportMissingImports"]
        libs_ok = not any('"jax' in x["message"] or '"numpy' in x["message"] for x in unresolved)
        for x in diag:
            rel = os.path.relpath(x["file"], os.path.realpath(d)) if x["file"].startswith(os.path.realpath(d)) else os.path.relpath(x["file"], d)
            ln, rule, msg = x["range"]["start"]["line"] + 1, x.get("rule") or "", x["message"].split("\n")[0]
            if not libs_ok or rel not in files:
                continue
            tree = files[rel][1]
            if rule == "reportAttributeAccessIssue" and "is not a known attribute of module" in msg or rule == "reportAttributeAccessIssue" and "is unknown import symbol" in msg:
                if any(isinstance(n_, (ast.Attribute, ast.ImportFrom)) and n_.lineno == ln and guarded(tree, n_) for n_ in ast.walk(tree)):
                    continue
                bad.append(("library:%s:%s" % (rel, msg.split('"')[1] if '"' in msg else ""), "%s:%d %s" % (rel, ln, msg)))
            elif rule == "reportCallIssue" and msg.startswith("No parameter named"):
                bad.append(("argument:%s:%s" % (rel, msg.split('"')[1]), "%s:%d %s" % (rel, ln, msg)))
            elif rule in ("reportUndefinedVariable", "reportUnboundVariable"):
                bad.append(("name:%s:%s" % (rel, msg.split('"')[1] if '"' in msg else ""), "%s:%d %s" % (rel, ln, msg)))
            elif rule == "reportMissingImports":
                node = next((n_ for n_ in ast.walk(tree) if isinstance(n_, (ast.Import, ast.ImportFrom)) and n_.lineno <= ln <= (n_.end_lineno or n_.lineno)), None)
                if node is None or guarded(tree, node):
                    continue
                bad.append(("import:%s:%s" % (rel, msg.split('"')[1] if '"' in msg else ""), "%s:%d %s" % (rel, ln, msg)))
        ctx.rule("library names, library arguments and imports resolve (type checker, %d files)" % n, inst, bad, floor=5)
    finally:
        shutil.rmtree(d, ignore_errors=True)
