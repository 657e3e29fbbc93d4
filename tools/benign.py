"""Behaviour-preserving rewrites of the whole package, to test that the checks
stay quiet on them (they judge what the code does, not how it is written).

  python3 tools/benign.py OUT_ROOT REWRITE [--src /repo]

writes OUT_ROOT/ormatex_py (and src/, examples/) with REWRITE applied at every
applicable place.  `--list` prints the rewrites.
"""
import ast
import builtins
import copy
import os
import shutil
import sys

BUILTINS = set(dir(builtins))
STEM = [""]
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)
            and (ctx is None or isinstance(x.ctx, ctx))}


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


def bound_in(fn):
    a = fn.args
    ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        ps.add(a.vararg.arg)
    if a.kwarg:
        ps.add(a.kwarg.arg)
    return ps


def body_pos(fn):
    b = fn.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
        return 1
    return 0


def pure(e):
    """calls of numpy / jax.numpy only"""
    for c in ast.walk(e):
        if isinstance(c, ast.Call):
            f = c.func
            while isinstance(f, ast.Attribute):
                f = f.value
            if not (isinstance(f, ast.Name) and f.id in ("jnp", "np")):
                return False
        if isinstance(c, (ast.Await, ast.Yield, ast.NamedExpr)):
            return False
    return True


class Blocks(ast.NodeTransformer):
    """rewrites of statement lists"""

    def block(self, b):
        return b

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b))
        return n


class TempReturn(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name("result_value", ast.Store())], n.value),
                ast.Return(ast.Name("result_value", ast.Load()))]


class InlineReturn(Blocks):
    def block(self, b):
        if len(b) >= 2 and isinstance(b[-1], ast.Return) and isinstance(b[-1].value, ast.Name) \
                and isinstance(b[-2], ast.Assign) and len(b[-2].targets) == 1 \
                and isinstance(b[-2].targets[0], ast.Name) and b[-2].targets[0].id == b[-1].value.id:
            return b[:-2] + [ast.Return(b[-2].value)]
        return b


class IfInvert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class ForWhile(Blocks):
    k = 0

    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) \
                    and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" \
                    and len(s.iter.args) <= 2 and isinstance(s.target, ast.Name):
                ForWhile.k += 1
                c, e = f"_cnt{self.k}", f"_end{self.k}"
                lo = s.iter.args[0] if len(s.iter.args) == 2 else ast.Constant(0)
                hi = s.iter.args[-1]
                L, S = ast.Load(), ast.Store()
                out += [ast.Assign([ast.Name(c, S)], lo), ast.Assign([ast.Name(e, S)], hi),
                        ast.While(ast.Compare(ast.Name(c, L), [ast.Lt()], [ast.Name(e, L)]),
                                  [ast.Assign([s.target], ast.Name(c, L)),
                                   ast.AugAssign(ast.Name(c, S), ast.Add(), ast.Constant(1))] + s.body, [])]
            else:
                out.append(s)
        return out


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body.insert(body_pos(n), ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(None)))
        return n


class ExtractHelper(ast.NodeTransformer):
    """x = <expr>  ->  x = _helper(free names) with a new module-level function"""
    every = False
    method = False

    def __init__(self):
        self.new, self.k, self.stack, self.cls, self.newm = [], 0, [], [], []

    def visit_Module(self, n):
        self.mod = {x for s in n.body for x in self.defs(s)}
        self.generic_visit(n)
        i = max([k for k, s in enumerate(n.body) if isinstance(s, (ast.Import, ast.ImportFrom))] or [-1]) + 1
        n.body[i:i] = self.new
        return n

    @staticmethod
    def defs(s):
        if isinstance(s, FUNCS + (ast.ClassDef,)):
            return {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return {(a.asname or a.name).split(".")[0] for a in s.names}
        return names(s, ast.Store)

    def visit_ClassDef(self, n):
        self.cls.append([])
        self.generic_visit(n)
        n.body += self.cls.pop()
        return n

    def visit_FunctionDef(self, n):
        ps = bound_in(n)
        for x in ast.walk(n):
            if isinstance(x, FUNCS):
                ps |= bound_in(x) | {x.name}
            elif isinstance(x, ast.Lambda):
                pass
        self.stack.append(ps | names(n, ast.Store))
        self.done = False
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_Lambda(self, n):
        return n

    def visit_Assign(self, n):
        if not self.stack or len(n.targets) != 1 or not isinstance(n.targets[0], ast.Name) \
                or not isinstance(n.value, (ast.BinOp, ast.Call, ast.Subscript)) \
                or has(n.value, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp,
                       ast.Yield, ast.Starred, ast.NamedExpr) \
                or "super" in names(n.value) or "locals" in names(n.value):
            return n
        local = set().union(*self.stack)
        free = sorted(x for x in names(n.value) if x in local or (x not in self.mod and x not in BUILTINS))
        self.k += 1
        if not self.every and self.k % 3:
            return n
        h = f"_helper_{STEM[0]}_{self.k}"
        L = ast.Load()
        meth = self.method and self.cls and "self" in self.stack[-1]
        ps = [x for x in free if x != "self"] if meth else free
        args = ast.arguments([], [ast.arg(p) for p in (["self"] if meth else []) + ps], None, [], [], None, [])
        fd = ast.FunctionDef(h, args, [ast.Return(n.value)], [])
        if meth:
            self.cls[-1].append(fd)
            call = ast.Call(ast.Attribute(ast.Name("self", L), h, L), [ast.Name(p, L) for p in ps], [])
        else:
            self.new.append(fd)
            call = ast.Call(ast.Name(h, L), [ast.Name(p, L) for p in ps], [])
        return ast.Assign(n.targets, call)


class ExtractHelperAll(ExtractHelper):
    every = True


class ExtractMethod(ExtractHelper):
    every = True
    method = True


class SwapStmts(Blocks):
    def block(self, b):
        b = list(b)
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if self.simple(s) and self.simple(t):
                ws, wt = names(s, ast.Store), names(t, ast.Store)
                if not (ws & names(t) or wt & names(s)):
                    b[i], b[i + 1] = t, s
                    i += 2
                    continue
            i += 1
        return b

    @staticmethod
    def simple(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
            and pure(s.value)


class PackStmts(SwapStmts):
    def block(self, b):
        out = []
        i = 0
        while i < len(b):
            if i + 1 < len(b) and self.simple(b[i]) and self.simple(b[i + 1]):
                s, t = b[i], b[i + 1]
                ws, wt = names(s, ast.Store), names(t, ast.Store)
                if not (ws & names(t) or wt & names(s)):
                    out.append(ast.Assign([ast.Tuple([s.targets[0], t.targets[0]], ast.Store())],
                                          ast.Tuple([s.value, t.value], ast.Load())))
                    i += 2
                    continue
            out.append(b[i])
            i += 1
        return out


class RenameLocals(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        if self.depth:
            return n
        inner_p = set()
        g = set()
        for x in ast.walk(n):
            if isinstance(x, FUNCS):
                inner_p |= bound_in(x)
                if x is not n:
                    inner_p.add(x.name)
            if isinstance(x, ast.Lambda):
                inner_p |= bound_in(x)
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                g |= set(x.names)
        loc = names(n, ast.Store) - inner_p - g
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in loc:
                    x.id = "v_" + x.id
        return n

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        return n


class AugExpand(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        if isinstance(n.target, (ast.Name, ast.Attribute)):
            t = copy.deepcopy(n.target)
            t.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
        return n


class IfExpStmt(ast.NodeTransformer):
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            return ast.If(n.value.test, [ast.Assign(n.targets, n.value.body)],
                          [ast.Assign(copy.deepcopy(n.targets), n.value.orelse)])
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            return ast.If(n.value.test, [ast.Return(n.value.body)], [ast.Return(n.value.orelse)])
        return n


class CompLoop(ast.NodeTransformer):
    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and len(n.targets) == 1 \
                and isinstance(n.targets[0], ast.Name) and n.targets[0].id not in names(v):
            g = v.generators[0]
            t = n.targets[0]
            app = ast.Expr(ast.Call(ast.Attribute(ast.Name(t.id, ast.Load()), "append", ast.Load()), [v.elt], []))
            body = [app]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.Assign([t], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
        return n


class LoopComp(Blocks):
    """x = []; for v in it: x.append(e)  ->  x = [e for v in it]"""

    def block(self, b):
        out = []
        for s in b:
            if out and isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 \
                    and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call):
                c = s.body[0].value
                p = out[-1]
                if isinstance(c.func, ast.Attribute) and c.func.attr == "append" \
                        and isinstance(c.func.value, ast.Name) and isinstance(p, ast.Assign) \
                        and isinstance(p.targets[0], ast.Name) and p.targets[0].id == c.func.value.id \
                        and isinstance(p.value, ast.List) and not p.value.elts:
                    out[-1] = ast.Assign(p.targets, ast.ListComp(
                        c.args[0], [ast.comprehension(s.target, s.iter, [], 0)]))
                    continue
            out.append(s)
        return out


class SwapMult(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult):
            n.left, n.right = n.right, n.left
        return n


class FlipCompare(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class NestAnd(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            b = n.body
            for c in reversed(n.test.values):
                b = [ast.If(c, b, [])]
            return b[0]
        return n


class ElseWrap(Blocks):
    """if c: return ..; rest -> if c: return .. else: rest"""

    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) \
                    and i + 1 < len(b):
                return b[:i] + [ast.If(s.test, s.body, self.block(b[i + 1:]))]
        return b


class ElseUnwrap(Blocks):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                out += [ast.If(s.test, s.body, [])] + s.orelse
            else:
                out.append(s)
        return out


class Keywords(ast.NodeTransformer):
    def visit_Module(self, n):
        self.sig = {s.name: s.args for s in n.body if isinstance(s, FUNCS)}
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.sig:
            a = self.sig[n.func.id]
            if not a.vararg and not a.posonlyargs and not has(ast.List(n.args, ast.Load()), ast.Starred) \
                    and len(n.args) <= len(a.args):
                n.keywords = [ast.keyword(p.arg, v) for p, v in zip(a.args, n.args)] + n.keywords
                n.args = []
        return n


class Alias(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        if self.depth or "jnp" not in names(ast.Module(n.body, [])):
            return n
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id == "jnp":
                    x.id = "xp_"
        n.body.insert(body_pos(n), ast.Assign([ast.Name("xp_", ast.Store())], ast.Name("jnp", ast.Load())))
        return n


class SubNeg(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Sub):
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
        return n


class HalfMul(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant) and isinstance(n.right.value, float) \
                and n.right.value in (2., 4., 8.):
            return ast.BinOp(n.left, ast.Mult(), ast.Constant(1. / n.right.value))
        return n


class LambdaDef(ast.NodeTransformer):
    def visit_Assign(self, n):
        if isinstance(n.value, ast.Lambda) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            return ast.FunctionDef(n.targets[0].id, n.value.args, [ast.Return(n.value.body)], [])
        return n


def forward_args(a, skip_self=False):
    L = ast.Load()
    ps = a.posonlyargs + a.args
    if skip_self:
        ps = ps[1:]
    args = [ast.Name(p.arg, L) for p in ps]
    if a.vararg:
        args.append(ast.Starred(ast.Name(a.vararg.arg, L), L))
    kws = [ast.keyword(p.arg, ast.Name(p.arg, L)) for p in a.kwonlyargs]
    if a.kwarg:
        kws.append(ast.keyword(None, ast.Name(a.kwarg.arg, L)))
    return args, kws


class WrapMethods(ast.NodeTransformer):
    """every method delegates to an implementation method with a new name"""

    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.name.startswith("__") \
                    and s.args.args and s.args.args[0].arg == "self" and not has(s, ast.Yield):
                impl = f"_{n.name}_{s.name.replace("_", "U", 1) if s.name.startswith("_") else s.name}_impl".replace("__", "_")
                w = copy.deepcopy(s)
                args, kws = forward_args(s.args, True)
                w.body = [ast.Return(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), impl, ast.Load()),
                                              args, kws))]
                s2 = copy.deepcopy(s)
                s2.name = impl
                a = s2.args
                a.defaults, a.kw_defaults = [], [None for _ in a.kw_defaults]
                for x in ast.walk(s2):     # zero-argument super() keeps working (same class)
                    pass
                out += [s2, w]
            else:
                out.append(s)
        n.body = out
        return n


class WrapFunctions(ast.NodeTransformer):
    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not has(s, ast.Yield):
                impl = f"_{s.name}_impl"
                w = copy.deepcopy(s)
                w.decorator_list = []
                args, kws = forward_args(s.args)
                w.body = [ast.Return(ast.Call(ast.Name(impl, ast.Load()), args, kws))]
                s2 = copy.deepcopy(s)
                s2.name = impl
                out += [s2, w]
            else:
                out.append(s)
        n.body = out
        return n


class NotNot(ast.NodeTransformer):
    """x = E with E a name  -> through a tuple; `is None` tests by ternary"""

    def visit_If(self, n):
        self.generic_visit(n)
        return [ast.Assign([ast.Name("_cond", ast.Store())], n.test),
                ast.If(ast.Name("_cond", ast.Load()), n.body, n.orelse)] if not has(n.test, ast.NamedExpr) else n


class ElifCond(NotNot):
    pass


class TypeHintsOff(ast.NodeTransformer):
    """annotations of functions removed (dataclass fields keep theirs)"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if any("jaxtyped" in ast.dump(d) for d in n.decorator_list):
            return n
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
            a.annotation = None
        return n


class DocOff(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if body_pos(n):
            n.body = n.body[1:] or [ast.Pass()]
        return n


class Enumerate(ast.NodeTransformer):
    """for v in xs -> for i, v in enumerate(xs)"""

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Name):
            n.target = ast.Tuple([ast.Name("_idx", ast.Store()), n.target], ast.Store())
            n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])
        return n


class Comment(ast.NodeTransformer):
    pass


class DistributeTemp(ast.NodeTransformer):
    """x = a + b -> t1 = a; t2 = b; x = t1 + t2"""

    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.BinOp) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            return [ast.Assign([ast.Name("_lhs", ast.Store())], v.left),
                    ast.Assign([ast.Name("_rhs", ast.Store())], v.right),
                    ast.Assign(n.targets, ast.BinOp(ast.Name("_lhs", ast.Load()), v.op, ast.Name("_rhs", ast.Load())))]
        return n


class ReorderMethods(ast.NodeTransformer):
    def visit_ClassDef(self, n):
        meths = [s for s in n.body if isinstance(s, ast.FunctionDef) and not s.decorator_list]
        it = iter(reversed(meths))
        n.body = [next(it) if (isinstance(s, ast.FunctionDef) and not s.decorator_list) else s for s in n.body]
        return n


class SquareMul(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.left, ast.Name) and isinstance(n.right, ast.Constant) \
                and n.right.value == 2:
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        return n


class MethodDot(ast.NodeTransformer):
    """jnp.zeros((n, m)) etc. with keyword shape; a @ b -> jnp.matmul for arrays is not
    applied (operators overload @)"""

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("jnp", "np") \
                and f.attr in ("zeros", "ones", "empty") and len(n.args) == 1 and not n.keywords:
            n.keywords = [ast.keyword("shape", n.args[0])]
            n.args = []
        return n


class LoopBodyFn(Blocks):
    """the slice of a for loop over a range written in reverse order of construction: range(n) ->
    list(range(n))"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "range":
            return ast.Call(ast.Name("list", ast.Load()), [n], [])
        return n


class WhileTrue(ast.NodeTransformer):
    """while c: body -> while True: if not c: break; body"""

    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body, [])


REWRITES = {c.__name__: c for c in (
    TempReturn, InlineReturn, IfInvert, ForWhile, Noop, ExtractHelper, ExtractHelperAll, ExtractMethod, SwapStmts,
    PackStmts, RenameLocals, AugExpand, IfExpStmt, CompLoop, LoopComp, SwapMult, FlipCompare, NestAnd, ElseWrap,
    ElseUnwrap, Keywords, Alias, SubNeg, HalfMul, LambdaDef, WrapMethods, WrapFunctions, ElifCond, TypeHintsOff,
    DocOff, Enumerate, Comment, DistributeTemp, ReorderMethods, SquareMul, MethodDot, LoopBodyFn, WhileTrue)}


def main():
    if "--list" in sys.argv:
        print(" ".join(REWRITES))
        return
    src = "/repo"
    if "--src" in sys.argv:
        i = sys.argv.index("--src")
        src = sys.argv[i + 1]
        del sys.argv[i:i + 2]
    out, *rw = sys.argv[1:]
    if os.path.exists(out):
        shutil.rmtree(out)
    os.makedirs(out)
    for d in ("ormatex_py", "src", "examples"):
        shutil.copytree(f"{src}/{d}", f"{out}/{d}", ignore=shutil.ignore_patterns("__pycache__", "*.so"))
    for base, _, fs in os.walk(f"{out}/ormatex_py"):
        for f in fs:
            if not f.endswith(".py"):
                continue
            p = os.path.join(base, f)
            text = open(p).read()
            if rw == ["Comment"]:
                open(p, "a").write("\n# a comment line\n")
                continue
            tree = ast.parse(text)
            STEM[0] = f[:-3]
            for r in rw:
                tree = REWRITES[r]().visit(tree)
                ast.fix_missing_locations(tree)
            open(p, "w").write(ast.unparse(tree) + "\n")
            compile(open(p).read(), p, "exec")


if __name__ == "__main__":
    main()
