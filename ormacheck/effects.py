"""Write-site effects over the syntax tree: which functions write into their parameters, module data, class data or default arguments.

A parameter counts as written when a subscript store, deletion or mutating method reaches it (or something it aliases), directly or
through a call whose callee writes the corresponding parameter.  Only interface functions are judged; a helper that fills a buffer of
its caller is judged at the interface function that owns the buffer."""
import ast
import os

MUT = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "sort", "reverse", "fill", "put", "itemset", "resize",
       "discard", "popitem", "appendleft", "extendleft", "popleft", "rotate", "partition", "setflags", "byteswap"}
VIEW_M = {"reshape", "ravel", "view", "transpose", "squeeze", "swapaxes", "diagonal", "values", "items", "keys", "get", "__getitem__"}
VIEW_F = {"asarray", "ravel", "reshape", "transpose", "squeeze", "atleast_1d", "atleast_2d", "diagonal", "swapaxes", "ascontiguousarray", "enumerate", "zip", "reversed", "iter"}
INPLACE_F = {"fill_diagonal", "put", "copyto", "place", "putmask", "shuffle", "put_along_axis"}
# interface at the analysed version (helpers added later are judged through their callers)
API = {
    "arnoldi_jax": "arnoldi arnoldi_lop",
    "integrate_wrapper": "integrate",
    "matexp_krylov": "phi_linop matexp_linop kiops_fixedsteps kiops",
    "matexp_leja": "gen_leja_fast gen_leja_circle gen_leja_conjugate gen_complex_conj_leja_fast real_leja_expmv complex_conj_imag_leja_expmv real_leja_expmv_substep complex_conj_leja_expmv_substep leja_shift_scale power_iter build_a_tilde",
    "matexp_phi": "f_phi_k_ext f_phi_k_inv f_phi_k f_phi_k_poly_all f_phi_k_sq_all f_phi_k_sq f_phi_k_appl f_phi_k_pfd",
    "matexp_poly": "",
    "ode_utils": "stack_u flatten_u",
}


def names_of(n):
    out = []
    for x in ast.walk(n):
        if isinstance(x, ast.Name):
            out.append(x.id)
    return out


class Fn:
    def __init__(self, mod, qual, node, cls, path):
        self.mod, self.qual, self.node, self.cls, self.path = mod, qual, node, cls, path
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.all = self.params + [x.arg for x in a.kwonlyargs]
        if a.kwarg:
            self.kwarg = a.kwarg.arg
        else:
            self.kwarg = None
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list)
        self.self_ = self.params[0] if cls and self.params and not static else None
        self.writes = {}          # param -> (line, how)
        self.shared = []          # (line, text): writes to module / class data
        self.keeps = {}           # self attribute -> (parameter, line) it aliases when the method ends
        self.attr_writes = {}     # self attribute -> (line, how) written in place


class Package:
    def __init__(self, project):
        self.fns, self.classes, self.modvars, self.imports = {}, {}, {}, {}
        root = os.path.join(project.root, "ormatex_py")
        for dp, dn, fn in sorted(os.walk(root)):
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                mod = os.path.relpath(p, project.root)[:-3].replace(os.sep, ".")
                got = project.tree(mod)
                tree = got[1] if got else None
                if tree is not None:
                    self.collect(mod, tree, os.path.relpath(p, project.root))

    def collect(self, mod, tree, path):
        self.modvars[mod], self.imports[mod] = set(), {}
        for st in ast.walk(tree):
            if isinstance(st, ast.ImportFrom) and st.module:
                for a in st.names:
                    self.imports[mod][a.asname or a.name] = (st.module, a.name)
        for st in tree.body:
            self.top(mod, st, None, path)

    def top(self, mod, st, cls, path):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = "%s.%s" % (mod, (cls + "." if cls else "") + st.name)
            self.fns[q] = Fn(mod, q, st, cls, path)
        elif isinstance(st, ast.ClassDef) and cls is None:
            self.classes[(mod, st.name)] = (mod, st)
            for s in st.body:
                self.top(mod, s, st.name, path)
        elif isinstance(st, (ast.Assign, ast.AnnAssign)) and cls is None:
            tg = st.targets if isinstance(st, ast.Assign) else [st.target]
            for t in tg:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        self.modvars[mod].add(x.id)
        elif isinstance(st, (ast.If, ast.Try)) and cls is None:
            for s in ast.iter_child_nodes(st):
                if isinstance(s, ast.stmt):
                    self.top(mod, s, cls, path)

    def resolve(self, fn, func):
        """called function -> (Fn, offset of the first positional argument) or None"""
        if isinstance(func, ast.Name):
            g = self.fns.get(fn.mod + "." + func.id)
            if g is None and func.id in self.imports[fn.mod]:
                m, n = self.imports[fn.mod][func.id]
                g = self.fns.get(m + "." + n)
            if g is not None:
                return g, 0
            c = self.find_class(fn.mod, func.id)
            for k in self.mro(c):
                g = self.fns.get("%s.%s.__init__" % k)
                if g is not None:
                    return g, 1
            if c:
                return None
        if isinstance(func, ast.Attribute):
            if isinstance(func.value, ast.Name) and fn.self_ and func.value.id == fn.self_:
                for c in self.mro((fn.mod, fn.cls)):
                    g = self.fns.get("%s.%s.%s" % (c + (func.attr,)))
                    if g is not None:
                        return g, 1 if g.self_ else 0
            elif isinstance(func.value, ast.Name):
                hits = [g for q, g in self.fns.items() if g.cls is None and q.endswith("." + func.attr)]
                if len(hits) == 1 and hits[0].mod.endswith(func.value.id):
                    return hits[0], 0
        return None

    def find_class(self, mod, name):
        """key of the class a name of the module refers to"""
        if (mod, name) in self.classes:
            return (mod, name)
        if name in self.imports.get(mod, {}):
            m, n = self.imports[mod][name]
            if (m, n) in self.classes:
                return (m, n)
            if (m, n) != (mod, name) and m in self.imports:
                return self.find_class(m, n)
        return None

    def base(self, mod, b):
        if isinstance(b, ast.Subscript):
            b = b.value
        if isinstance(b, ast.Name):
            return self.find_class(mod, b.id)
        if isinstance(b, ast.Attribute):
            hits = [k for k in self.classes if k[1] == b.attr]
            return hits[0] if len(hits) == 1 else None
        return None

    def mro(self, key, seen=()):
        if key not in self.classes or key in seen:
            return []
        out = [key]
        mod, node = self.classes[key]
        for b in node.bases:
            out += self.mro(self.base(mod, b), seen + (key,))
        return out


class Flow:
    """aliases of parameters and shared data through one function body"""

    def __init__(self, pkg, fn):
        self.pkg, self.fn = pkg, fn
        self.env = {p: {("p", p)} for p in fn.all if p != fn.self_}
        self.locals = self.local_names(fn.node)
        self.globals = {n for x in ast.walk(fn.node) if isinstance(x, ast.Global) for n in x.names}

    @staticmethod
    def local_names(node):
        out = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, ast.arg):
                out.add(x.arg)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
        return out

    def alias(self, e, env):
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id not in self.locals and self.pkg.find_class(self.fn.mod, e.id):
                return {("c", e.id)}
            if (e.id in self.globals or e.id not in self.locals) and e.id in self.pkg.modvars[self.fn.mod]:
                return {("g", e.id)}
            if e.id not in self.locals and e.id in self.pkg.imports[self.fn.mod]:
                m, n = self.pkg.imports[self.fn.mod][e.id]
                if n in self.pkg.modvars.get(m, ()):
                    return {("g", n)}
            return set()
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Attribute) and e.value.attr == "at":
                return set()
            return self.alias(e.value, env)
        if isinstance(e, ast.Attribute):
            k = ast.unparse(e)
            if k in env:
                return env[k]
            if isinstance(e.value, ast.Name) and e.value.id == self.fn.self_:
                # data declared on the class and not on the instance, or the instance's own
                return self.class_data(e.attr) or {("s", e.attr)}
            if e.attr == "at":
                return set()
            if isinstance(e.value, ast.Attribute) and e.value.attr == "__class__" or isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "type":
                return {("c", self.fn.cls or "?")}
            return self.alias(e.value, env)
        if isinstance(e, (ast.IfExp,)):
            return self.alias(e.body, env) | self.alias(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.alias(v, env) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.alias(e.value, env)
        if isinstance(e, ast.Starred):
            return self.alias(e.value, env)
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and f.attr in VIEW_M and not (isinstance(f.value, ast.Name) and f.value.id in ("np", "jnp", "numpy", "jax")):
                return self.alias(f.value, env)
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            jn = isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "jnp"
            if nm in VIEW_F and e.args and not jn:
                return set().union(*[self.alias(a, env) for a in e.args])
            return set()
        if isinstance(e, (ast.Tuple, ast.List)):
            return set()
        return set()

    def class_data(self, attr):
        fn = self.fn
        for c in self.pkg.mro((fn.mod, fn.cls)):
            mod, node = self.pkg.classes[c]
            init = any(isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.ctx, ast.Store) for s in node.body if isinstance(s, ast.FunctionDef) for x in ast.walk(s))
            if init:
                return set()
            for s in node.body:
                tg = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value is not None else []
                if any(isinstance(t, ast.Name) and t.id == attr for t in tg) and isinstance(s.value, (ast.Dict, ast.List, ast.Set, ast.Call, ast.DictComp, ast.ListComp)):
                    if attr.startswith("_"):
                        return set()
                    return {("c", "%s.%s" % (c[1], attr))}
        return set()

    # -- effects
    def write(self, roots, line, how):
        for kind, name in roots:
            if kind == "p":
                self.fn.writes.setdefault(name, (line, how))
            elif kind == "s":
                self.fn.attr_writes.setdefault(name, (line, how))
            elif not name.split(".")[-1].startswith("_"):
                t = (line, "%s %s: %s" % ("class data of" if kind == "c" else "module data", name, how))
                if t not in self.fn.shared:
                    self.fn.shared.append(t)

    def run(self):
        self.block(self.fn.node.body, self.env)
        if self.fn.self_:
            for k, roots in self.env.items():
                if k.startswith(self.fn.self_ + ".") and k.count(".") == 1:
                    for kind, name in roots:
                        if kind == "p":
                            self.fn.keeps[k.split(".")[1]] = (name, self.fn.node.lineno)

    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def merge(self, env, *branches):
        keys = set().union(*[set(b) for b in branches])
        for k in keys:
            env[k] = set().union(*[b.get(k, set()) for b in branches])

    def stmt(self, st, env):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # a nested function sees the enclosing names; its own parameters are its caller's business
            e2 = dict(env)
            for a in st.args.args + st.args.kwonlyargs + st.args.posonlyargs:
                e2[a.arg] = set()
            self.block(st.body, e2)
            return
        if isinstance(st, ast.ClassDef):
            return
        for c in ast.iter_child_nodes(st):
            if isinstance(c, ast.expr):
                self.expr(c, env)
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            if st.value is None:
                return
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                self.assign(t, st.value, env)
        elif isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Subscript):
                self.write(self.alias(st.target.value, env), st.lineno, "augmented element assignment")
            elif isinstance(st.target, ast.Name) and st.target.id in self.globals:
                self.write({("g", st.target.id)}, st.lineno, "global is rebound")
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.write(self.alias(t.value, env), st.lineno, "deletion")
        elif isinstance(st, ast.If):
            a, b = dict(env), dict(env)
            self.block(st.body, a)
            self.block(st.orelse, b)
            self.merge(env, a, b)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            a = dict(env)
            for _ in range(2):
                self.assign(st.target, st.iter, a, view=True)
                self.block(st.body, a)
            b = dict(a)
            self.block(st.orelse, b)
            self.merge(env, env, a, b)
        elif isinstance(st, ast.While):
            a = dict(env)
            for _ in range(2):
                self.block(st.body, a)
            self.block(st.orelse, a)
            self.merge(env, env, a)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            self.block(st.body, env)
        elif isinstance(st, ast.Try):
            a = dict(env)
            self.block(st.body, a)
            bs = [a]
            for h in st.handlers:
                b = dict(env)
                self.block(h.body, b)
                bs.append(b)
            self.merge(env, *bs)
            self.block(st.orelse, env)
            self.block(st.finalbody, env)

    def assign(self, t, value, env, view=False):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.write({("g", t.id)}, t.lineno, "global is rebound")
            env[t.id] = self.alias(value, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else None
            for i, x in enumerate(t.elts):
                self.assign(x.value if isinstance(x, ast.Starred) else x, vs[i] if vs else value, env)
        elif isinstance(t, ast.Subscript):
            self.write(self.alias(t.value, env), t.lineno, "element assignment")
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id not in self.locals and self.pkg.find_class(self.fn.mod, t.value.id):
                self.write({("c", "%s.%s" % (t.value.id, t.attr))}, t.lineno, "class attribute is rebound")
            else:
                # an attribute holding caller's data keeps being caller's data
                env[ast.unparse(t)] = self.alias(value, env)

    def expr(self, e, env):
        for x in ast.walk(e):
            if not isinstance(x, ast.Call):
                continue
            f = x.func
            for k in x.keywords:
                if k.arg == "out":
                    self.write(self.alias(k.value, env), x.lineno, "out= argument")
            if isinstance(f, ast.Attribute):
                lib = isinstance(f.value, ast.Name) and f.value.id in ("np", "jnp", "numpy", "jax", "scipy", "sp", "math")
                if f.attr in INPLACE_F and x.args and not (isinstance(f.value, ast.Name) and f.value.id == "jnp"):
                    self.write(self.alias(x.args[0], env), x.lineno, "%s()" % f.attr)
                elif f.attr in MUT and not lib:
                    self.write(self.alias(f.value, env), x.lineno, ".%s()" % f.attr)
                elif f.attr == "at" and x.args and isinstance(f.value, ast.Attribute):
                    self.write(self.alias(x.args[0], env), x.lineno, "ufunc.at")
            got = self.pkg.resolve(self.fn, f)
            if got:
                g, off = got
                for i, a in enumerate(x.args):
                    if isinstance(a, ast.Starred):
                        break
                    if i + off < len(g.params) and g.params[i + off] in g.writes:
                        ln, how = g.writes[g.params[i + off]]
                        self.write(self.alias(a, env), x.lineno, "passed to %s, which writes it (%s)" % (g.qual.split(".")[-1], how))
                for k in x.keywords:
                    if k.arg in g.writes:
                        ln, how = g.writes[k.arg]
                        self.write(self.alias(k.value, env), x.lineno, "passed to %s, which writes it (%s)" % (g.qual.split(".")[-1], how))


def interface(pkg):
    """functions nobody in the package calls, the listed interface, and every overridable method of the public classes"""
    called = set()
    for fn in pkg.fns.values():
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Call):
                got = pkg.resolve(fn, x.func)
                if got and got[0] is not fn:
                    called.add(got[0].qual)
    out = []
    for q, fn in pkg.fns.items():
        short = fn.mod.split(".")[-1]
        listed = fn.cls is None and fn.node.name in API.get(short, "").split()
        method = fn.cls is not None
        if listed or q not in called or method and fn.node.name in HOOKS:
            out.append(q)
    return out


HOOKS = {"__init__", "__call__", "frhs", "fjac", "fl", "fm", "_frhs", "_fjac", "_fl", "_fm", "step", "accept_step", "reset_ic", "matvec", "_matvec", "dense", "_dense", "_fdt", "_frhs_cached",
         "assemble", "ode_sys", "collocation_points", "w_ext", "run", "rhs"}


def check(project):
    pkg = Package(project)
    for _ in range(4):
        before = sum(len(f.writes) + len(f.shared) for f in pkg.fns.values())
        for f in pkg.fns.values():
            Flow(pkg, f).run()
        if sum(len(f.writes) + len(f.shared) for f in pkg.fns.values()) == before:
            break
    judged = set(interface(pkg))
    inst, bad = [], []
    for q, f in pkg.fns.items():
        inst.append("%s:%d %s%s" % (f.path, f.node.lineno, q.split(".", 1)[1], "" if q in judged else " (helper)"))
        if q in judged:
            for p, (ln, how) in f.writes.items():
                if p != f.kwarg:
                    bad.append(("write:%s:%s" % (q, p), "%s:%d %s writes into its argument %s: %s" % (f.path, ln, q, p, how)))
            # data kept by reference and later written through the object
            for attr, (prm, ln) in f.keeps.items():
                for g in pkg.fns.values():
                    if g.cls and attr in g.attr_writes and ((g.mod, g.cls) in pkg.mro((f.mod, f.cls)) or (f.mod, f.cls) in pkg.mro((g.mod, g.cls))):
                        bad.append(("keep:%s:%s" % (q, prm), "%s:%d %s keeps its argument %s as self.%s, which %s writes at line %d (%s)" % (
                            f.path, ln, q, prm, attr, g.qual.split(".", 1)[1], g.attr_writes[attr][0], g.attr_writes[attr][1])))
                        break
        for ln, text in f.shared:
            bad.append(("shared:%s:%s" % (q, text.split(":")[0].replace(" ", "-")), "%s:%d %s writes %s" % (f.path, ln, q, text)))
    return inst, bad
