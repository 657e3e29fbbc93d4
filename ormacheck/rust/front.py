"""Front end for the native crate: Rust source -> Python source.

The subset of Rust used by /repo/src is parsed and lowered to Python so that
the abstract interpreter analyses both halves of the code base with the same
machinery.  Types, lifetimes and borrows are dropped (they are the compiler's
business); `Option`/`Result` are represented by the value, None and exceptions;
matrices are those of the shim (rust/shim.py), which models faer.
"""
import keyword
import re


class RustSyntax(Exception):
    pass


TOK = re.compile(r"""
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 |(?P<num>0x[0-9a-fA-F_]+|\d[\d_]*\.(?![.a-zA-Z_])[\d_]*(?:[eE][+-]?\d+)?(?:f64|f32)?|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?(?:f64|f32|usize|isize|[iu]\d+)?)
 |(?P<str>b?r?"(?:\\.|[^"\\])*")
 |(?P<char>'(?:\\.|[^'\\])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<op>\.\.=|\.\.\.|<<=|>>=|->|=>|::|\.\.|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|&=|\|=|\^=|<<|>>|[-+*/%=<>!&|^.,;:\#?@$(){}\[\]~])
""", re.X | re.S)


class Tok:
    __slots__ = ("k", "v", "ln")

    def __init__(self, k, v, ln):
        self.k, self.v, self.ln = k, v, ln


def lex(src, path):
    out, i, ln = [], 0, 1
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise RustSyntax("%s:%d: unexpected character %r" % (path, ln, src[i]))
        k = m.lastgroup
        if k != "ws":
            out.append(Tok(k, m.group(), ln))
        ln += m.group().count("\n")
        i = m.end()
    out.append(Tok("eof", "", ln))
    return out


class N:
    """syntax node"""

    def __init__(self, kind, ln, **kw):
        self.kind, self.ln = kind, ln
        self.__dict__.update(kw)

    def __repr__(self):
        return "N(%s@%d)" % (self.kind, self.ln)


BIN = [("||",), ("&&",), ("==", "!=", "<", ">", "<=", ">="), ("|",), ("^",), ("&",), ("<<", ">>"), ("+", "-"), ("*", "/", "%")]
ASSIGN = ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=")


class Parser:
    def __init__(self, src, path):
        self.t, self.i, self.path = lex(src, path), 0, path

    # ------------------------------------------------------------ helpers
    @property
    def c(self):
        return self.t[self.i]

    def peek(self, k=1):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def err(self, msg):
        raise RustSyntax("%s:%d: %s (at %r)" % (self.path, self.c.ln, msg, self.c.v))

    def at(self, *vs):
        return self.c.v in vs and self.c.k in ("op", "id")

    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            # split a composite token when a prefix is wanted (`>>`, `&&`, `||`)
            if self.c.k == "op" and self.c.v.startswith(v) and len(self.c.v) > len(v):
                self.t[self.i] = Tok("op", self.c.v[len(v):], self.c.ln)
                return
            self.err("expected %r" % v)

    def ident(self):
        if self.c.k != "id":
            self.err("expected identifier")
        self.i += 1
        return self.t[self.i - 1].v

    def skip_balanced(self, o, c):
        self.need(o)
        d = 1
        while d:
            if self.c.k == "eof":
                self.err("unbalanced")
            if self.c.v == o:
                d += 1
            elif self.c.v == c:
                d -= 1
            self.i += 1

    def skip_generics(self):
        if not self.at("<"):
            return
        d = 0
        while True:
            v = self.c.v
            if v == "<":
                d += 1
            elif v == ">":
                d -= 1
            elif v == ">>":
                d -= 2
            elif v in ("(", "["):
                self.skip_balanced(v, ")" if v == "(" else "]")
                continue
            elif self.c.k == "eof":
                self.err("unbalanced generics")
            self.i += 1
            if d <= 0:
                return

    def type(self):
        """skip a type; returns the last path identifier (or None)"""
        name = None
        while True:
            v, k = self.c.v, self.c.k
            if v in ("&", "&&", "*") or k == "life" or v in ("mut", "dyn", "impl", "const"):
                self.i += 1
            elif v == "for":
                self.i += 1
                self.skip_generics()
            else:
                break
        if self.at("("):
            self.skip_balanced("(", ")")
        elif self.at("["):
            self.skip_balanced("[", "]")
        elif self.at("!", "_"):
            self.i += 1
        else:
            name = self.ident()
            while True:
                if self.at("::"):
                    self.i += 1
                    if self.at("<"):
                        self.skip_generics()
                    else:
                        name = self.ident()
                elif self.at("<"):
                    self.skip_generics()
                elif self.at("(") and name in ("Fn", "FnMut", "FnOnce"):
                    self.skip_balanced("(", ")")
                    if self.eat("->"):
                        self.type()
                else:
                    break
        while self.at("+"):
            self.i += 1
            if self.c.k == "life":
                self.i += 1
            else:
                self.type()
        return name

    def where(self):
        if self.eat("where"):
            while not self.at("{", ";"):
                if self.at("<"):
                    self.skip_generics()
                else:
                    self.i += 1

    # -------------------------------------------------------------- items
    def items(self, end=None):
        out = []
        while not (self.c.k == "eof" if end is None else self.at(end)):
            it = self.item()
            if it is not None:
                out.append(it)
        return out

    def attrs(self):
        a = []
        while self.at("#"):
            self.i += 1
            self.eat("!")
            j = self.i
            self.skip_balanced("[", "]")
            a.append("".join(t.v for t in self.t[j:self.i]))
        return a

    def item(self):
        at = self.attrs()
        ln = self.c.ln
        if self.eat("pub"):
            if self.at("("):
                self.skip_balanced("(", ")")
        if self.eat("unsafe") or self.eat("async"):
            pass
        v = self.c.v
        if v == "use":
            self.i += 1
            j = self.i
            while not self.at(";"):
                self.i += 1
            toks = [t.v for t in self.t[j:self.i]]
            self.need(";")
            return N("use", ln, toks=toks)
        if v == "mod":
            self.i += 1
            nm = self.ident()
            if self.eat(";"):
                return N("mod", ln, name=nm)
            self.skip_balanced("{", "}")
            return None
        if v == "const" and self.peek().v == "fn":
            self.i += 1
            v = "fn"
        if v in ("const", "static"):
            self.i += 1
            self.eat("mut")
            nm = self.ident()
            self.need(":")
            self.type()
            self.need("=")
            e = self.expr()
            self.need(";")
            return N("const", ln, name=nm, value=e)
        if v == "fn":
            f = self.fn()
            f.attrs = at
            return f
        if v == "struct":
            self.i += 1
            nm = self.ident()
            self.skip_generics()
            fields = []
            if self.at("("):
                self.skip_balanced("(", ")")
                self.where()
                self.need(";")
                return N("struct", ln, name=nm, fields=["0"])
            self.where()
            if self.eat(";"):
                return N("struct", ln, name=nm, fields=[])
            self.need("{")
            while not self.at("}"):
                self.attrs()
                if self.eat("pub") and self.at("("):
                    self.skip_balanced("(", ")")
                fields.append(self.ident())
                self.need(":")
                self.type()
                if not self.eat(","):
                    break
            self.need("}")
            return N("struct", ln, name=nm, fields=fields)
        if v == "enum":
            self.i += 1
            nm = self.ident()
            self.skip_generics()
            self.where()
            self.need("{")
            vs = []
            while not self.at("}"):
                self.attrs()
                x = self.ident()
                if self.at("("):
                    self.skip_balanced("(", ")")
                elif self.at("{"):
                    self.skip_balanced("{", "}")
                vs.append(x)
                if not self.eat(","):
                    break
            self.need("}")
            return N("enum", ln, name=nm, variants=vs)
        if v == "trait":
            self.i += 1
            nm = self.ident()
            self.skip_generics()
            if self.eat(":"):
                self.type()
            self.where()
            self.need("{")
            fs = []
            while not self.at("}"):
                self.attrs()
                if self.eat("type"):
                    while not self.eat(";"):
                        self.i += 1
                    continue
                if self.eat("const"):
                    while not self.eat(";"):
                        self.i += 1
                    continue
                fs.append(self.fn())
            self.need("}")
            return N("trait", ln, name=nm, fns=fs)
        if v == "impl":
            self.i += 1
            self.skip_generics()
            a = self.type()
            tr = None
            if self.eat("for"):
                tr, a = a, self.type()
            self.where()
            self.need("{")
            fs = []
            while not self.at("}"):
                fat = self.attrs()
                if self.eat("pub") and self.at("("):
                    self.skip_balanced("(", ")")
                if self.eat("type"):
                    while not self.eat(";"):
                        self.i += 1
                    continue
                if self.at("const") and self.peek().v != "fn":
                    self.i += 1
                    nm = self.ident()
                    self.need(":")
                    self.type()
                    self.need("=")
                    e = self.expr()
                    self.need(";")
                    fs.append(N("const", ln, name=nm, value=e))
                    continue
                self.eat("const")
                f = self.fn()
                f.attrs = fat
                fs.append(f)
            self.need("}")
            return N("impl", ln, name=a, trait=tr, fns=fs)
        if v == "type":
            while not self.eat(";"):
                self.i += 1
            return None
        if v == "macro_rules":
            self.i += 3
            o = self.c.v
            self.skip_balanced(o, {"{": "}", "(": ")", "[": "]"}[o])
            return None
        if v == "extern":
            while not self.eat(";"):
                self.i += 1
            return None
        self.err("unsupported item")

    def fn(self):
        ln = self.c.ln
        self.need("fn")
        nm = self.ident()
        self.skip_generics()
        self.need("(")
        ps = []
        while not self.at(")"):
            self.attrs()
            if self.at("&") or self.c.k == "life" or self.at("mut", "self"):
                j = self.i
                while self.at("&", "mut") or self.c.k == "life":
                    self.i += 1
                if self.at("self"):
                    self.i += 1
                    ps.append(N("pid", ln, name="self"))
                    if self.eat(":"):
                        self.type()
                    if not self.eat(","):
                        break
                    continue
                self.i = j
            p = self.pattern()
            self.need(":")
            self.type()
            ps.append(p)
            if not self.eat(","):
                break
        self.need(")")
        if self.eat("->"):
            self.type()
        self.where()
        body = None
        if not self.eat(";"):
            body = self.block()
        return N("fn", ln, name=nm, params=ps, body=body, attrs=[])

    # ----------------------------------------------------------- patterns
    def pattern(self):
        ln = self.c.ln
        p = self.pattern1()
        if self.at("|"):
            alts = [p]
            while self.eat("|"):
                alts.append(self.pattern1())
            return N("por", ln, alts=alts)
        return p

    def pattern1(self):
        ln = self.c.ln
        while self.at("&", "&&", "mut", "ref"):
            self.i += 1
        if self.eat("_"):
            return N("pwild", ln)
        if self.c.k in ("num", "str", "char") or self.at("-", "true", "false"):
            neg = self.eat("-")
            e = self.primary(False)
            if self.at("..=", ".."):
                op = self.c.v
                self.i += 1
                hi = self.primary(False)
                return N("prange", ln, lo=e, hi=hi, incl=op == "..=")
            return N("plit", ln, value=N("unary", ln, op="-", e=e) if neg else e)
        if self.eat("("):
            ps = []
            while not self.at(")"):
                ps.append(self.pattern())
                if not self.eat(","):
                    break
            self.need(")")
            return N("ptuple", ln, ps=ps)
        path = [self.ident()]
        while self.eat("::"):
            if self.at("<"):
                self.skip_generics()
            else:
                path.append(self.ident())
        if self.eat("("):
            ps = []
            while not self.at(")"):
                ps.append(self.pattern())
                if not self.eat(","):
                    break
            self.need(")")
            return N("pctor", ln, path=path, ps=ps)
        if len(path) > 1 or path[0] in ("None",):
            return N("pctor", ln, path=path, ps=[])
        return N("pid", ln, name=path[0])

    # --------------------------------------------------------- statements
    def block(self):
        ln = self.c.ln
        self.need("{")
        stmts, tail = [], None
        while not self.at("}"):
            if self.eat(";"):
                continue
            at = self.attrs()
            l0 = self.c.ln
            if self.at("let"):
                self.i += 1
                p = self.pattern()
                if self.eat(":"):
                    self.type()
                e = None
                if self.eat("="):
                    e = self.expr()
                els = None
                if self.eat("else"):
                    els = self.block()
                self.need(";")
                stmts.append(N("let", l0, pat=p, value=e, els=els))
                continue
            if self.at("fn", "struct", "impl", "use", "const", "static", "enum", "trait") \
                    or (self.at("pub")):
                it = self.item()
                if it is not None:
                    stmts.append(N("item", l0, item=it))
                continue
            e = self.expr(stmt=True)
            if self.eat(";"):
                stmts.append(N("expr", l0, e=e, semi=True))
            elif self.at("}"):
                tail = e
            elif e.kind in ("if", "match", "block", "for", "while", "loop", "iflet", "unsafe", "macro"):
                stmts.append(N("expr", l0, e=e, semi=False))
            else:
                self.err("expected ;")
        self.need("}")
        return N("block", ln, stmts=stmts, tail=tail)

    # -------------------------------------------------------- expressions
    def expr(self, struct=True, stmt=False):
        ln = self.c.ln
        if stmt and self.at("if", "match", "for", "while", "loop", "{", "unsafe"):
            e = self.primary(struct)
            if not self.at(".", "?"):
                if not self.at("=", "+", "-", "*", "/"):
                    return e
                # a statement-position block expression ends the statement
                return e
            e = self.postfix(e, struct)
            return e
        e = self.range(struct)
        if self.at(*ASSIGN) and self.c.k == "op":
            op = self.c.v
            self.i += 1
            r = self.expr(struct)
            return N("assign", ln, op=op, l=e, r=r)
        return e

    def range(self, struct):
        ln = self.c.ln
        if self.at("..", "..="):
            op = self.c.v
            self.i += 1
            hi = None
            if not self.at(",", ")", "]", "}", ";", "{"):
                hi = self.binary(0, struct)
            return N("range", ln, lo=None, hi=hi, incl=op == "..=")
        e = self.binary(0, struct)
        if self.at("..", "..="):
            op = self.c.v
            self.i += 1
            hi = None
            if not self.at(",", ")", "]", "}", ";") and not (self.at("{") and not struct):
                hi = self.binary(0, struct)
            return N("range", ln, lo=e, hi=hi, incl=op == "..=")
        return e

    def binary(self, lv, struct):
        if lv == len(BIN):
            return self.cast(struct)
        l = self.binary(lv + 1, struct)
        while self.c.k == "op" and self.c.v in BIN[lv]:
            ln, op = self.c.ln, self.c.v
            self.i += 1
            r = self.binary(lv + 1, struct)
            l = N("bin", ln, op=op, l=l, r=r)
        return l

    def cast(self, struct):
        e = self.unary(struct)
        while self.at("as"):
            ln = self.c.ln
            self.i += 1
            ty = self.type()
            e = N("cast", ln, e=e, ty=ty)
        return e

    def unary(self, struct):
        ln = self.c.ln
        if self.at("-", "!", "*") and self.c.k == "op":
            op = self.c.v
            self.i += 1
            return N("unary", ln, op=op, e=self.unary(struct))
        if self.at("&", "&&"):
            self.i += 1
            if self.c.k == "life":
                self.i += 1
            self.eat("mut")
            return self.unary(struct)
        return self.postfix(self.primary(struct), struct)

    def args(self, close):
        out = []
        while not self.at(close):
            out.append(self.expr())
            if not self.eat(","):
                break
        self.need(close)
        return out

    def postfix(self, e, struct):
        while True:
            ln = self.c.ln
            if self.at("?"):
                self.i += 1
                e = N("try", ln, e=e)
            elif self.at("("):
                self.i += 1
                e = N("call", ln, f=e, args=self.args(")"))
            elif self.at("["):
                self.i += 1
                a = self.args("]")
                e = N("index", ln, e=e, i=a[0])
            elif self.at(".") and self.peek().k == "num":
                self.i += 1
                for part in self.c.v.split("."):
                    e = N("tfield", ln, e=e, i=int(part))
                self.i += 1
            elif self.at("."):
                self.i += 1
                nm = self.ident()
                if self.at("::"):
                    self.i += 1
                    self.skip_generics()
                if self.at("("):
                    self.i += 1
                    e = N("mcall", ln, e=e, name=nm, args=self.args(")"))
                else:
                    e = N("field", ln, e=e, name=nm)
            else:
                return e

    def primary(self, struct):
        ln, t = self.c.ln, self.c
        if t.k == "num":
            self.i += 1
            s = t.v.replace("_", "")
            s = re.sub(r"(f64|f32|usize|isize|[iu](8|16|32|64|128))$", "", s) if not s.startswith("0x") else s
            if t.v.endswith(("f64", "f32")) and not re.search(r"[.eE]", s):
                s += "."
            return N("num", ln, v=s)
        if t.k in ("str", "char"):
            self.i += 1
            return N("str", ln, v=t.v.lstrip("br") if t.k == "str" else t.v)
        if t.k == "life":         # labelled loop
            self.i += 1
            self.need(":")
            return self.primary(struct)
        if self.eat("("):
            if self.eat(")"):
                return N("tuple", ln, es=[])
            e = self.expr()
            if self.at(","):
                es = [e]
                while self.eat(","):
                    if self.at(")"):
                        break
                    es.append(self.expr())
                self.need(")")
                return N("tuple", ln, es=es)
            self.need(")")
            return N("paren", ln, e=e)
        if self.eat("["):
            return self.array("]", ln)
        if self.at("{"):
            return self.block()
        if self.eat("unsafe"):
            return self.block()
        if self.eat("if"):
            return self.if_(ln)
        if self.eat("match"):
            e = self.expr(struct=False)
            self.need("{")
            arms = []
            while not self.at("}"):
                self.attrs()
                self.eat("|")
                p = self.pattern()
                g = None
                if self.eat("if"):
                    g = self.expr()
                self.need("=>")
                b = self.expr(stmt=self.at("{"))
                arms.append((p, g, b))
                if not self.eat(",") and b.kind != "block" and not self.at("}"):
                    self.err("expected , in match")
            self.need("}")
            return N("match", ln, e=e, arms=arms)
        if self.eat("for"):
            p = self.pattern()
            self.need("in")
            it = self.expr(struct=False)
            return N("for", ln, pat=p, it=it, body=self.block())
        if self.eat("while"):
            if self.eat("let"):
                self.err("while let")
            c = self.expr(struct=False)
            return N("while", ln, c=c, body=self.block())
        if self.eat("loop"):
            return N("loop", ln, body=self.block())
        if self.eat("return"):
            e = None
            if not self.at(";", "}", ",", ")"):
                e = self.expr()
            return N("return", ln, e=e)
        if self.eat("break"):
            if self.c.k == "life":
                self.i += 1
            if not self.at(";", "}", ","):
                self.err("break with value")
            return N("break", ln)
        if self.eat("continue"):
            return N("continue", ln)
        if self.at("move", "|", "||"):
            self.eat("move")
            ps = []
            if not self.eat("||"):
                self.need("|")
                while not self.at("|"):
                    ps.append(self.pattern1())
                    if self.eat(":"):
                        self.type()
                    if not self.eat(","):
                        break
                self.need("|")
            if self.eat("->"):
                self.type()
            return N("closure", ln, params=ps, body=self.expr())
        if self.at("<"):          # <T as Trait>::f
            self.err("qualified path")
        if t.k == "id":
            path = [self.ident()]
            while self.at("::"):
                self.i += 1
                if self.at("<"):
                    self.skip_generics()
                else:
                    path.append(self.ident())
            if self.at("!") and self.peek().v in ("(", "[", "{"):
                self.i += 1
                return self.macro(path, ln)
            if self.at("{") and struct and (path[-1][0].isupper()):
                self.i += 1
                fs = []
                base = None
                while not self.at("}"):
                    if self.eat(".."):
                        base = self.expr()
                        break
                    f = self.ident()
                    if self.eat(":"):
                        fs.append((f, self.expr()))
                    else:
                        fs.append((f, N("path", ln, path=[f])))
                    if not self.eat(","):
                        break
                self.need("}")
                return N("struct_lit", ln, path=path, fields=fs, base=base)
            if path == ["true"] or path == ["false"]:
                return N("bool", ln, v=path[0] == "true")
            return N("path", ln, path=path)
        self.err("unsupported expression")

    def array(self, close, ln):
        if self.eat(close):
            return N("array", ln, es=[])
        e = self.expr()
        if self.eat(";"):
            n = self.expr()
            self.need(close)
            return N("repeat", ln, e=e, n=n)
        es = [e]
        while self.eat(","):
            if self.at(close):
                break
            es.append(self.expr())
        self.need(close)
        return N("array", ln, es=es)

    def if_(self, ln):
        if self.eat("let"):
            p = self.pattern()
            self.need("=")
            e = self.expr(struct=False)
            b = self.block()
            els = None
            if self.eat("else"):
                els = self.if_(self.c.ln) if self.eat("if") else self.block()
            arms = [(p, None, b), (N("pwild", ln), None, els or N("block", ln, stmts=[], tail=None))]
            return N("match", ln, e=e, arms=arms)
        c = self.expr(struct=False)
        b = self.block()
        els = None
        if self.eat("else"):
            els = self.if_(self.c.ln) if self.eat("if") else self.block()
        return N("if", ln, c=c, b=b, els=els)

    def macro(self, path, ln):
        o = self.c.v
        cl = {"(": ")", "[": "]", "{": "}"}[o]
        nm = path[-1]
        if nm in ("vec", "mat"):
            self.i += 1
            return N("macro", ln, name=nm, args=[self.array(cl, ln)])
        if nm in ("panic", "assert", "assert_eq", "assert_ne", "debug_assert", "assert_approx_eq", "format", "print", "println", "eprintln",
                  "write", "unimplemented", "todo", "unreachable", "wrap_pyfunction"):
            self.i += 1
            return N("macro", ln, name=nm, args=self.args(cl))
        self.err("macro %s!" % nm)


# ====================================================================== lowering
SHIM_METHODS = set("""abs powi powf exp sqrt sin cos ln log unwrap unwrap_or unwrap_or_else expect clone to_owned as_str
as_ref as_mut len push push_front push_back pop pop_front pop_back clear is_some is_none is_empty into iter iter_mut
into_iter into_par_iter par_iter map reduce_with sum product enumerate step_by rev collect rb_mut rb borrow borrow_mut
to_string truncate insert max min copied cloned fold zip filter contains get get_mut front back extend as_bytes
is_nan is_finite mul_add floor ceil round signum to_vec starts_with ends_with is_ok is_err ok_or call_method
downcast_bound extract into_pyarray into_ndarray into_faer as_array view as_slice ok take first last abs_sub recip re im""".split())
ALIASES = {"c64": "complex"}


def pyname(s):
    return s + "_" if s != "None" and keyword.iskeyword(s) or s in ("print", "range", "slice", "len") else s


class Lower:
    def __init__(self, items, path):
        self.items, self.path = items, path
        self.out, self.tmp = [], 0
        self.cls = None
        self.map = []

    def unsup(self, msg, n):
        raise RustSyntax("%s:%d: %s" % (self.path, n.ln, msg))

    def new(self, p="t"):
        self.tmp += 1
        return "_%s%d" % (p, self.tmp)

    # ------------------------------------------------------------ module
    def module(self, deps):
        L = ["from rs_shim import *", "import rs_shim as rs"]
        for d in deps:
            L.append("from %s import *" % d)
            L.append("import %s" % d)
        traits, structs, fns = {}, {}, []
        for it in self.items:
            if it.kind == "trait":
                traits[it.name] = it
            elif it.kind in ("struct", "enum"):
                structs[it.name] = (it, [], [])
        for it in self.items:
            if it.kind == "impl":
                if it.name not in structs:
                    continue
                s = structs[it.name]
                if it.trait and it.trait in traits:
                    s[2].append(it.trait)
                s[1].extend(it.fns)
        self.lines = L
        self.lmap = [0] * len(L)
        for it in self.items:
            if it.kind == "const":
                self.emit(0, "%s = %s" % (pyname(it.name), self.simple(it.value)), it.ln)
        for t in traits.values():
            self.emit(0, "class %s:" % t.name, t.ln)
            self.cls = t.name
            k = 0
            for f in t.fns:
                if f.body is not None:
                    self.fn(f, 1)
                    k += 1
            if not k:
                self.emit(1, "pass", t.ln)
        self.ext_traits = {}
        for s, fs, tr in structs.values():
            self.cls = s.name
            ext = [it.trait for it in self.items if it.kind == "impl" and it.name == s.name and it.trait
                   and it.trait not in traits and it.trait in ("OdeSys", "IntegrateSys", "DensePhikvEvaluator")]
            bases = tr + ext
            self.emit(0, "class %s%s:" % (s.name, "(%s)" % ", ".join(bases) if bases else ""), s.ln)
            if s.kind == "enum":
                for v in s.variants:
                    self.emit(1, "%s = rs.variant(%r)" % (v, v), s.ln)
                if not s.variants:
                    self.emit(1, "pass", s.ln)
            else:
                flds = [pyname(x) for x in s.fields]
                self.emit(1, "def __init__(self%s):" % "".join(", %s=None" % f for f in flds), s.ln)
                for f in flds:
                    self.emit(2, "self.%s = %s" % (f, f), s.ln)
                if not flds:
                    self.emit(2, "pass", s.ln)
            for f in fs:
                if f.kind == "const":
                    self.emit(1, "%s = %s" % (pyname(f.name), self.simple(f.value)), f.ln)
                elif f.body is not None and f.name not in ("fmt",):
                    self.fn(f, 1)
        self.cls = None
        for it in self.items:
            if it.kind == "fn":
                self.fn(it, 0)
        return "\n".join(self.lines) + "\n"

    def emit(self, ind, text, ln):
        for i, x in enumerate(text.split("\n")):
            self.lines.append("    " * ind + x)
            self.lmap.append(ln)

    def simple(self, e):
        save = self.lines, self.lmap
        self.lines, self.lmap = [], []
        r = self.ex(e, 0)
        extra = self.lines
        self.lines, self.lmap = save
        if extra:
            self.unsup("constant expression needs statements", e)
        return r

    def fn(self, f, ind):
        ps, pre = [], []
        for p in f.params:
            if p.kind == "pid":
                ps.append(pyname(p.name))
            else:
                t = self.new("p")
                ps.append(t)
                pre.append((p, t))
        if ind and self.cls and (not f.params or f.params[0].kind != "pid" or f.params[0].name != "self"):
            self.emit(ind, "@staticmethod", f.ln)
        self.emit(ind, "def %s(%s):" % (pyname(f.name), ", ".join(ps)), f.ln)
        for p, t in pre:
            self.bind(p, t, ind + 1)
        self.blk(f.body, ind + 1, ("ret",))

    # ------------------------------------------------------------ blocks
    def blk(self, b, ind, sink):
        n0 = len(self.lines)
        for s in b.stmts:
            self.stmt(s, ind)
        if b.tail is not None:
            self.sinkexpr(b.tail, ind, sink)
        if len(self.lines) == n0:
            self.emit(ind, "pass", b.ln)

    def sinkexpr(self, e, ind, sink):
        k = e.kind
        if k == "block":
            return self.blk(e, ind, sink)
        if k == "paren" and e.e.kind in ("if", "match", "block"):
            return self.sinkexpr(e.e, ind, sink)
        if k == "if":
            c = self.ex(e.c, ind)
            self.emit(ind, "if %s:" % c, e.ln)
            self.blk(e.b, ind + 1, sink)
            if e.els is not None:
                self.emit(ind, "else:", e.ln)
                if e.els.kind == "if":
                    self.sinkexpr(e.els, ind + 1, sink)
                else:
                    self.blk(e.els, ind + 1, sink) if e.els.kind == "block" else self.sinkexpr(e.els, ind + 1, sink)
            return
        if k == "match":
            return self.match(e, ind, sink)
        if k in ("for", "while", "loop"):
            return self.loop(e, ind)
        if k == "return":
            v = "None" if e.e is None else None
            if v is None:
                return self.sinkexpr(e.e, ind, ("ret",))
            return self.emit(ind, "return None", e.ln)
        if k in ("break", "continue"):
            return self.emit(ind, k, e.ln)
        if k == "assign":
            return self.assign(e, ind)
        if k == "macro" and e.name in ("panic", "unimplemented", "todo", "unreachable"):
            return self.emit(ind, "raise RuntimeError(%r)" % e.name, e.ln)
        if k == "macro" and e.name in ("print", "println", "eprintln"):
            return self.emit(ind, "pass", e.ln)
        if k == "macro" and e.name.startswith("assert"):
            if e.name == "assert_approx_eq":
                return self.emit(ind, "pass", e.ln)
            if e.name == "assert_eq":
                t = "%s == %s" % (self.ex(e.args[0], ind), self.ex(e.args[1], ind))
            else:
                t = self.ex(e.args[0], ind)
            return self.emit(ind, "assert %s" % t, e.ln)
        if k == "call" and e.f.kind == "path" and e.f.path[-1] == "Err":
            return self.emit(ind, "raise rs.RustError(%s)" % self.ex(e.args[0], ind), e.ln)
        v = self.ex(e, ind)
        if sink[0] == "ret":
            self.emit(ind, "return %s" % v, e.ln)
        elif sink[0] == "set":
            self.emit(ind, "%s = %s" % (sink[1], v), e.ln)
        else:
            self.emit(ind, v, e.ln)

    def stmt(self, s, ind):
        if s.kind == "let":
            if s.value is None:
                return
            if s.els is not None:
                self.unsup("let else", s)
            if s.pat.kind == "pid":
                return self.sinkexpr(s.value, ind, ("set", pyname(s.pat.name)))
            if s.pat.kind == "pwild":
                return self.sinkexpr(s.value, ind, ("set", "_"))
            t = self.new()
            self.sinkexpr(s.value, ind, ("set", t))
            return self.bind(s.pat, t, ind)
        if s.kind == "item":
            it = s.item
            if it.kind == "fn":
                return self.fn(it, ind) if not self.cls else self.localfn(it, ind)
            if it.kind == "const":
                return self.emit(ind, "%s = %s" % (pyname(it.name), self.ex(it.value, ind)), it.ln)
            if it.kind == "use":
                return
            self.unsup("local item", s)
        self.sinkexpr(s.e, ind, ("drop",))

    def localfn(self, f, ind):
        c, self.cls = self.cls, None
        self.fn(f, ind)
        self.cls = c

    def bind(self, p, v, ind):
        if p.kind == "pid":
            self.emit(ind, "%s = %s" % (pyname(p.name), v), p.ln)
        elif p.kind == "ptuple":
            for i, q in enumerate(p.ps):
                self.bind(q, "%s[%d]" % (v, i), ind)
        elif p.kind == "pctor" and p.path[-1] in ("Some", "Ok", "Err"):
            self.bind(p.ps[0], v, ind)
        elif p.kind == "pctor":
            for i, q in enumerate(p.ps):
                self.bind(q, "%s.args[%d]" % (v, i), ind)
        elif p.kind == "por":
            pass
        elif p.kind in ("pwild", "plit", "prange"):
            pass
        else:
            self.unsup("pattern", p)

    def test(self, p, v, ind):
        if p.kind in ("pid", "pwild"):
            return None
        if p.kind == "plit":
            return "%s == %s" % (v, self.ex(p.value, ind))
        if p.kind == "prange":
            return "(%s <= %s %s %s)" % (self.ex(p.lo, ind), v, "<=" if p.incl else "<", self.ex(p.hi, ind))
        if p.kind == "por":
            ts = [self.test(q, v, ind) for q in p.alts]
            return None if None in ts else "(" + " or ".join(ts) + ")"
        if p.kind == "ptuple":
            ts = [self.test(q, "%s[%d]" % (v, i), ind) for i, q in enumerate(p.ps)]
            ts = [t for t in ts if t]
            return "(" + " and ".join(ts) + ")" if ts else None
        if p.kind == "pctor":
            if p.path[-1] == "None":
                return "%s is None" % v
            if p.path[-1] == "Some":
                t = self.test(p.ps[0], v, ind)
                return "%s is not None" % v + (" and " + t if t else "")
            if p.path[-1] == "Ok":
                return "not rs.is_err(%s)" % v
            if p.path[-1] == "Err":
                return "rs.is_err(%s)" % v
            return "rs.is_variant(%s, %r)" % (v, p.path[-1])
        self.unsup("pattern test", p)

    def match(self, e, ind, sink):
        v = self.new("m")
        if e.e.kind == "path" and len(e.e.path) == 1:
            v = self.ex(e.e, ind)
        else:
            self.emit(ind, "%s = %s" % (v, self.ex(e.e, ind)), e.ln)
        first, closed, depth = True, False, ind
        for p, g, b in e.arms:
            t = self.test(p, v, depth)
            if g is not None:
                if p.kind == "pid" or p.kind in ("pctor", "ptuple"):
                    self.bind(p, v, depth)
                gt = self.ex(g, depth)
                t = gt if t is None else "%s and %s" % (t, gt)
            if t is None:
                if not first:
                    self.emit(depth, "else:", e.ln)
                    self.arm(p, v, b, depth + 1, sink)
                else:
                    self.arm(p, v, b, depth, sink)
                closed = True
                break
            self.emit(depth, "%s %s:" % ("if" if first else "elif", t), b.ln)
            self.arm(p, v, b, depth + 1, sink)
            first = False

    def arm(self, p, v, b, ind, sink):
        n0 = len(self.lines)
        self.bind(p, v, ind)
        if b.kind == "tuple" and not b.es:
            pass
        else:
            self.sinkexpr(b, ind, sink)
        if len(self.lines) == n0:
            self.emit(ind, "pass", b.ln)

    def loop(self, e, ind):
        if e.kind == "for":
            it = self.iter(e.it, ind)
            if e.pat.kind == "pid":
                v = pyname(e.pat.name)
                self.emit(ind, "for %s in %s:" % (v, it), e.ln)
            elif e.pat.kind == "pwild":
                self.emit(ind, "for _ in %s:" % it, e.ln)
            else:
                v = self.new("i")
                self.emit(ind, "for %s in %s:" % (v, it), e.ln)
                self.bind(e.pat, v, ind + 1)
            return self.blk(e.body, ind + 1, ("drop",))
        if e.kind == "while":
            n0 = len(self.lines)
            c = self.ex(e.c, ind)
            if len(self.lines) != n0:
                self.unsup("loop condition needs statements", e)
            self.emit(ind, "while %s:" % c, e.ln)
            return self.blk(e.body, ind + 1, ("drop",))
        self.emit(ind, "while True:", e.ln)
        return self.blk(e.body, ind + 1, ("drop",))

    def iter(self, e, ind):
        if e.kind == "paren":
            return self.iter(e.e, ind)
        if e.kind == "range":
            lo = "0" if e.lo is None else self.ex(e.lo, ind)
            hi = self.ex(e.hi, ind)
            return "range(%s, %s%s)" % (lo, hi, " + 1" if e.incl else "")
        return "rs.m_iter(%s)" % self.ex(e, ind)

    def assign(self, e, ind):
        l = e.l
        if l.kind == "path" and l.path == ["_"]:
            return self.emit(ind, "_ = %s" % self.ex(e.r, ind), e.ln)
        deref = l.kind == "unary" and l.op == "*"
        if deref:
            l = l.e
        if l.kind == "tuple":
            t = self.new()
            self.sinkexpr(e.r, ind, ("set", t))
            for i, x in enumerate(l.es):
                if not (x.kind == "path" and x.path == ["_"]):
                    self.emit(ind, "%s = %s[%d]" % (self.ex(x, ind), t, i), e.ln)
            return
        if deref and l.kind == "mcall" and l.name in ("borrow_mut", "get_mut", "as_mut") and not l.args:
            l = l.e
        elif deref and l.kind == "path":
            return self.emit(ind, "rs.deref_set(%s, %s)" % (self.ex(l, ind), self.ex(e.r, ind)), e.ln)
        L = self.ex(l, ind)
        if e.op == "=":
            return self.sinkexpr(e.r, ind, ("set", L))
        f = {"+=": "iadd", "-=": "isub", "*=": "imul", "/=": "idiv"}.get(e.op)
        r = self.ex(e.r, ind)
        if f is None:
            return self.emit(ind, "%s %s %s" % (L, e.op, r), e.ln)
        self.emit(ind, "%s = rs.%s(%s, %s)" % (L, f, L, r), e.ln)

    # ------------------------------------------------------- expressions
    def ex(self, e, ind):
        return getattr(self, "x_" + e.kind, self.x_unsup)(e, ind)

    def x_unsup(self, e, ind):
        self.unsup("expression %s" % e.kind, e)

    def x_num(self, e, ind):
        s = e.v
        if s.endswith("."):
            s += "0"
        return s.lstrip("0") if re.fullmatch(r"0\d+", s) else s

    def x_str(self, e, ind):
        return e.v

    def x_bool(self, e, ind):
        return "True" if e.v else "False"

    def x_paren(self, e, ind):
        return "(%s)" % self.ex(e.e, ind)

    def x_tuple(self, e, ind):
        if not e.es:
            return "None"
        return "(%s,)" % ", ".join(self.ex(x, ind) for x in e.es)

    def x_array(self, e, ind):
        return "[%s]" % ", ".join(self.ex(x, ind) for x in e.es)

    def x_repeat(self, e, ind):
        return "[%s] * (%s)" % (self.ex(e.e, ind), self.ex(e.n, ind))

    def x_path(self, e, ind):
        p = e.path
        if len(p) == 1:
            if p[0] == "Self":
                return self.cls
            return pyname(p[0])
        if p[-2:] == ["consts", "PI"]:
            return "rs.PI"
        if p[0] == "Self":
            return "%s.%s" % (self.cls, pyname(p[1]))
        return ".".join(pyname(x) for x in self.strip(p))

    @staticmethod
    def strip(p):
        p = [x for x in p if x not in ("crate", "super", "self", "std", "faer", "core", "prelude")]
        return p or ["Self"]

    def x_call(self, e, ind):
        f = e.f
        if f.kind == "path":
            p = f.path
            nm = p[-1]
            if nm in ("Ok", "Some") and len(p) == 1:
                return self.ex(e.args[0], ind)
            if nm == "Err" and len(p) == 1:
                return "rs.raise_(%s)" % self.ex(e.args[0], ind)
            if nm == "drop":
                return "None"
            if nm == "new" and len(p) >= 2 and p[-2] in ("Box", "Rc", "RefCell", "Arc", "Cell"):
                return self.ex(e.args[0], ind)
            if len(p) == 2 and p[0] == "T" and nm == "from":
                return self.ex(e.args[0], ind)
            if len(p) == 2 and p[0] in ("f64", "f32", "usize", "i32", "cmp", "String", "c64", "isize") or p[:2] == ["std", "cmp"]:
                a = [self.ex(x, ind) for x in e.args]
                return "rs.%s_%s(%s)" % (p[-2], nm, ", ".join(a))
            if nm in ("with_capacity",) or (nm == "new" and len(p) == 2 and p[0] in ("Vec", "VecDeque", "HashMap", "String")):
                return "{}" if p[-2] == "HashMap" else ("''" if p[-2] == "String" else "[]")
            if nm == "default" and p[0] == "Default":
                return "None"
            a = [self.ex(x, ind) for x in e.args]
            return "%s(%s)" % (self.x_path(f, ind), ", ".join(a))
        a = [self.ex(x, ind) for x in e.args]
        return "%s(%s)" % (self.ex(f, ind), ", ".join(a))

    def x_mcall(self, e, ind):
        r = self.ex(e.e, ind)
        a = [self.ex(x, ind) for x in e.args]
        if e.name in SHIM_METHODS:
            return "rs.m_%s(%s)" % (e.name, ", ".join([r] + a))
        return "%s.%s(%s)" % (self.wrap(e.e, r), pyname(e.name), ", ".join(a))

    @staticmethod
    def wrap(n, s):
        return s if n.kind in ("path", "field", "mcall", "call", "paren", "index", "tfield", "try") else "(%s)" % s

    def x_field(self, e, ind):
        if e.name in ("re", "im"):
            return "rs.m_%s(%s)" % (e.name, self.ex(e.e, ind))
        return "%s.%s" % (self.wrap(e.e, self.ex(e.e, ind)), pyname(e.name))

    def x_tfield(self, e, ind):
        return "%s[%d]" % (self.wrap(e.e, self.ex(e.e, ind)), e.i)

    def x_index(self, e, ind):
        return "%s[%s]" % (self.wrap(e.e, self.ex(e.e, ind)), self.ex(e.i, ind))

    def x_try(self, e, ind):
        return self.ex(e.e, ind)

    def x_range(self, e, ind):
        lo = "None" if e.lo is None else self.ex(e.lo, ind)
        hi = "None" if e.hi is None else self.ex(e.hi, ind) + (" + 1" if e.incl else "")
        return "rs.Rng(%s, %s)" % (lo, hi)

    def x_cast(self, e, ind):
        v = self.ex(e.e, ind)
        if e.ty in ("f64", "f32"):
            return "rs.to_f(%s)" % v
        if e.ty in ("usize", "isize", "i32", "u32", "i64", "u64", "u8"):
            return "rs.to_i(%s)" % v
        self.unsup("cast to %s" % e.ty, e)

    def x_unary(self, e, ind):
        v = self.ex(e.e, ind)
        if e.op == "*":
            return "rs.deref(%s)" % v
        if e.op == "!":
            return "(not (%s))" % v
        return "(-%s)" % (v if e.e.kind in ("path", "num", "paren", "mcall", "call", "field", "index") else "(%s)" % v)

    PYOP = {"&&": "and", "||": "or"}

    def x_bin(self, e, ind):
        if e.op == "/":
            return "rs.div(%s, %s)" % (self.ex(e.l, ind), self.ex(e.r, ind))
        if e.op == "%":
            return "rs.rem(%s, %s)" % (self.ex(e.l, ind), self.ex(e.r, ind))
        return "(%s %s %s)" % (self.ex(e.l, ind), self.PYOP.get(e.op, e.op), self.ex(e.r, ind))

    def x_struct_lit(self, e, ind):
        if e.base is not None:
            self.unsup("struct update", e)
        nm = self.cls if e.path == ["Self"] else e.path[-1]
        parts = []
        for f, v in e.fields:
            if v.kind in ("if", "match", "block"):
                t = self.new()
                self.sinkexpr(v, ind, ("set", t))
                parts.append("%s=%s" % (pyname(f), t))
            else:
                parts.append("%s=%s" % (pyname(f), self.ex(v, ind)))
        return "%s(%s)" % (nm, ", ".join(parts))

    def x_macro(self, e, ind):
        if e.name == "vec":
            return self.ex(e.args[0], ind)
        if e.name == "mat":
            return "rs.mat(%s)" % self.ex(e.args[0], ind)
        if e.name in ("format", "write"):
            return "''"
        if e.name == "panic":
            return "rs.panic()"
        if e.name == "wrap_pyfunction":
            return self.ex(e.args[0], ind)
        self.unsup("macro %s" % e.name, e)

    def x_closure(self, e, ind):
        ps, pre = [], []
        for p in e.params:
            if p.kind == "pid":
                ps.append(pyname(p.name))
            elif p.kind == "pwild":
                ps.append(self.new("u"))
            else:
                t = self.new("p")
                ps.append(t)
                pre.append((p, t))
        nm = self.new("f")
        self.emit(ind, "def %s(%s):" % (nm, ", ".join(ps)), e.ln)
        c, self.cls_save = self.cls, self.cls
        for p, t in pre:
            self.bind(p, t, ind + 1)
        if e.body.kind == "block":
            self.blk(e.body, ind + 1, ("ret",))
        else:
            self.sinkexpr(e.body, ind + 1, ("ret",))
        return nm

    def blockexpr(self, e, ind):
        t = self.new()
        self.sinkexpr(e, ind, ("set", t))
        return t

    x_if = x_match = x_block = blockexpr

    def x_return(self, e, ind):
        self.sinkexpr(e, ind, ("ret",))
        return "None"

    def x_assign(self, e, ind):
        self.assign(e, ind)
        return "None"


def translate(path, deps=()):
    """(python source, [rust line per python line])"""
    src = open(path, encoding="utf-8").read()
    items = Parser(src, path).items()
    lo = Lower(items, path)
    text = lo.module(deps)
    return text, lo.lmap


if __name__ == "__main__":
    import sys
    print(translate(sys.argv[1])[0])
