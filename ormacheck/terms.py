"""Hash-consed scalar value numbers (the abstract domain).

A scalar abstract value is either an exact Python number (bool, int, Fraction;
a float literal is the Fraction of its decimal text; float only for inf/nan) or
a node `T`: a value number in a hash-consed DAG.  Equal value numbers are equal
over the reals for every valuation of the free symbols; the constructors keep
sums and products in a commutative normal form with exact rational
coefficients, so reordering, renaming, helper extraction and similar edits give
the same number.  Nothing here evaluates program code.
"""
from fractions import Fraction
import math

_TABLE = {}
_COUNTER = [0]


class T:
    __slots__ = ("op", "args", "id", "real", "closed", "__weakref__")
    __array_priority__ = 1e6

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __repr__(self):
        return show(self)

    # arithmetic (used by the library models, the contracts and the specs)
    def __add__(self, o):
        return NotImplemented if _arr(o) else add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return NotImplemented if _arr(o) else sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return NotImplemented if _arr(o) else mul(self, o)

    def __rmul__(self, o):
        return mul(o, self)

    def __truediv__(self, o):
        return NotImplemented if _arr(o) else div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __neg__(self):
        return mul(-1, self)

    def __pos__(self):
        return self

    def __pow__(self, o):
        return NotImplemented if _arr(o) else power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __bool__(self):
        raise Undecidable("truth value of an abstract scalar used by the host")


class Undecidable(Exception):
    """The abstract interpretation cannot represent this construct."""


def _arr(o):
    return hasattr(o, "dtype") and hasattr(o, "reshape")


def reset_stats():
    _COUNTER[0] = 0


def node(op, args, real=None):
    key = (op, args)
    n = _TABLE.get(key)
    if n is not None:
        return n
    n = T()
    n.op = op
    n.args = args
    _COUNTER[0] += 1
    n.id = len(_TABLE) + 1
    kids = list(children_of(op, args))
    n.closed = op not in ("sym", "app", "dapp") and all(k.closed for k in kids)
    if op == "app" or op == "dapp":
        n.closed = False
    n.real = all(k.real for k in kids) if real is None else real
    _TABLE[key] = n
    return n


def children_of(op, args):
    """T children of a node."""
    if op == "add":
        for t, _ in args[1]:
            yield t
    elif op == "mul":
        for t, _ in args:
            yield t
    else:
        for a in args:
            if isinstance(a, T):
                yield a
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        yield b


def children(t):
    return children_of(t.op, t.args)


def isnum(x):
    return isinstance(x, (int, Fraction))  # bool is an int


def isfloat(x):
    return isinstance(x, float)


def num(x):
    """Normalise a host number to int/Fraction/float(inf,nan)."""
    if isinstance(x, bool):
        return x
    if isinstance(x, (int, Fraction)):
        return x
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return x
        return Fraction(repr(x))
    if isinstance(x, complex):
        return add(num(x.real), mul(num(x.imag), I))
    raise TypeError(x)


def sym(name, **attrs):
    """A free real symbol (attrs only guide model sampling)."""
    n = node("sym", (name,), real=True)
    if attrs:
        SYM_ATTRS[name] = attrs
    return n


SYM_ATTRS = {}
I = node("I", (), real=False)
PI = node("pi", (), real=True)


def is_real(x):
    if isinstance(x, T):
        return x.real
    return True


def _as_add(x):
    """-> (const, {term: coef})"""
    if isnum(x):
        return x, {}
    if x.op == "add":
        return x.args[0], dict(x.args[1])
    if x.op == "mul" or True:
        c, core = _split_coef(x)
        return 0, {core: c}


def _split_coef(x):
    """x = c * core with rational c (coefs live in a 'scale' wrapper = add with 0 const)."""
    return 1, x


def _mk_add(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return _canon(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    items = tuple(sorted(((t, _canon(k)) for t, k in d.items()), key=lambda p: p[0].id))
    return node("add", (_canon(c), items))


def _canon(c):
    if isinstance(c, bool):
        return int(c)
    if isinstance(c, Fraction) and c.denominator == 1:
        # 1.0 and 1 are the same value number
        return c.numerator
    return c


def _fl(x):
    """inf/nan handling: arithmetic with a host float special."""
    return isfloat(x)


def add(a, b):
    if isnum(a) and isnum(b):
        return a + b
    if _fl(a) or _fl(b):
        return _special("+", a, b)
    ca, da = _as_add(a)
    cb, db = _as_add(b)
    if len(da) < len(db):
        da, db = db, da
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + k
    return _mk_add(ca + cb, d)


def sub(a, b):
    if isnum(a) and isnum(b):
        return a - b
    if _fl(a) or _fl(b):
        return _special("-", a, b)
    return add(a, mul(-1, b))


def _special(op, a, b):
    if isfloat(a) and isfloat(b) or isnum(a) or isnum(b):
        try:
            fa, fb = float(a), float(b)
            if op == "+":
                return num(fa + fb)
            if op == "-":
                return num(fa - fb)
            if op == "*":
                return num(fa * fb)
            if op == "/":
                return num(fa / fb)
        except (ZeroDivisionError, TypeError):
            pass
    if op in "+-":
        if isfloat(a):
            return a
        return b if op == "+" else -b
    f, t = (a, b) if isfloat(a) else (b, a)
    if f != f:
        return f
    s = _strict_sign(t)
    if s:
        if op == "*" or op == "/" and f is a:
            return f * s
        if op == "/":
            return 0
    if IEEE[0] and op == "*":
        return math.nan        # zero or infinite, according to a sign that is not known: not a defined number either way
    raise Undecidable("arithmetic of a symbolic value with inf/nan")


def _strict_sign(t):
    if not isinstance(t, T) or not t.real:
        return None
    if t.closed:
        v = closed_value(t)
        if v is not None and abs(v) > 1e-30:
            return 1 if v.real > 0 else -1
    s = _sign_known(t)
    return s if s in (1, -1) else None


def _as_mul(x):
    """-> (coef, {base: exp})"""
    if isnum(x):
        return x, {}
    if x.op == "mul":
        return 1, dict(x.args)
    if x.op == "add" and x.args[0] == 0 and len(x.args[1]) == 1:
        (t, k), = x.args[1]
        c, d = _as_mul(t)
        return k * c, d
    if x.op == "add":
        # pull out a canonical rational content so that 2a+2b = 2(a+b) as a factor
        c0, items = x.args
        lead = items[0][1]
        if lead != 1:
            inv = Fraction(1) / lead
            y = _mk_add(c0 * inv, {t: k * inv for t, k in items})
            return lead, {y: 1}
        return 1, {x: 1}
    return 1, {x: 1}


def _mk_mul(c, d):
    if c == 0:
        return 0
    d = {t: e for t, e in d.items() if e != 0}
    # powers of the imaginary unit
    if I in d:
        e = d.pop(I) % 4
        if e >= 2:
            c = -c
        if e % 2:
            d[I] = 1
    # exp(a)*exp(b) and sqrt(a)^2
    for t in list(d):
        if t.op == "sqrt" and (d[t] >= 2 or d[t] <= -2):
            e = d.pop(t)
            half = int(e / 2)
            if e - 2 * half:
                d[t] = e - 2 * half
            c2, d2 = _as_mul(power(t.args[0], half))
            c = c * c2
            for u, k in d2.items():
                d[u] = d.get(u, 0) + k
            return _mk_mul(c, d)
    exps = [t for t in d if t.op == "exp"]
    if len(exps) > 1 or (exps and d[exps[0]] != 1):
        s = 0
        for t in exps:
            s = add(s, mul(d.pop(t), t.args[0]))
        e = exp(s)
        c2, d2 = _as_mul(e)
        c = c * c2
        for u, k in d2.items():
            d[u] = d.get(u, 0) + k
        d = {t: e_ for t, e_ in d.items() if e_ != 0}
    if not d:
        return _canon(c)
    if len(d) == 1:
        (t, e), = d.items()
        if e == 1:
            if c == 1:
                return t
            if t.op == "add":
                return _mk_add(t.args[0] * c, {u: k * c for u, k in t.args[1]})
            return _mk_add(0, {t: c})
    m = node("mul", tuple(sorted(d.items(), key=lambda p: p[0].id)))
    if c == 1:
        return m
    return _mk_add(0, {m: c})


def mul(a, b):
    if isnum(a) and isnum(b):
        return a * b
    if _fl(a) or _fl(b):
        return _special("*", a, b)
    if isnum(a) and a == 0 or isnum(b) and b == 0:
        return 0
    if isnum(a) or isnum(b):
        k, x = (a, b) if isnum(a) else (b, a)
        if k == 1:
            return x
        c, d = _as_add(x)
        return _mk_add(c * k, {t: v * k for t, v in d.items()})
    ca, da = _as_mul(a)
    cb, db = _as_mul(b)
    d = dict(da)
    for t, e in db.items():
        d[t] = d.get(t, 0) + e
    return _mk_mul(ca * cb, d)


def div(a, b):
    if isnum(b):
        if b == 0:
            raise DivByZero(a)
        if isnum(a):
            return Fraction(a) / b
        if _fl(a):
            return _special("/", a, b)
        return mul(a, Fraction(1) / b)
    if _fl(a) or _fl(b):
        if isfloat(b) and math.isinf(b):
            return 0
        return _special("/", a, b)
    if isinstance(b, T) and b is a:
        return 1
    return mul(a, power(b, -1))


class DivByZero(Exception):
    pass


def power(a, e):
    if isinstance(e, Fraction) and e.denominator == 1:
        e = int(e)
    if isinstance(e, bool):
        e = int(e)
    if isinstance(e, int):
        if isnum(a):
            if a == 0 and e < 0:
                raise DivByZero(a)
            return Fraction(a) ** e if e < 0 or isinstance(a, Fraction) else a ** e
        if isfloat(a):
            return num(a ** e)
        if e == 0:
            return 1
        if e == 1:
            return a
        c, d = _as_mul(a)
        return _mk_mul(Fraction(c) ** e, {t: k * e for t, k in d.items()})
    if isinstance(e, Fraction) and e == Fraction(1, 2):
        return sqrt(a)
    if isinstance(e, Fraction) and e == Fraction(-1, 2):
        return div(1, sqrt(a))
    if isnum(a) and a == 1:
        return 1
    if isnum(a) and a == 0 and isnum(e):
        if e > 0:
            return 0
        raise DivByZero(a)
    return node("pow", (a, e))


def exp(x):
    if isnum(x) and x == 0:
        return 1
    if isfloat(x):
        return num(math.exp(x)) if x < 0 else x
    return node("exp", (x,))


def log(x):
    if isnum(x):
        if x == 1:
            return 0
        if x == 0:
            return -math.inf
        if x < 0:
            return math.nan
    if isinstance(x, T) and x.op == "exp" and is_real(x):
        return x.args[0]
    return node("log", (x,))


def sqrt(x):
    if isnum(x):
        if x < 0:
            return mul(I, sqrt(-x))
        f = Fraction(x)
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return Fraction(a, b)
    return node("sqrt", (x,))


def fn1(name, x):
    """Generic unary real function (sin, cos, tanh, ...)."""
    if isnum(x) and x == 0:
        if name in ("sin", "tan", "tanh", "sinh", "arctan", "arcsin", "expm1", "log1p"):
            return 0
        if name in ("cos", "cosh"):
            return 1
    return node(name, (x,))


def conj(x):
    if is_real(x):
        return x
    if x.op == "I":
        return mul(-1, x)
    if x.op == "add":
        r = x.args[0]
        for t, k in x.args[1]:
            r = add(r, mul(k, conj(t)))
        return r
    if x.op == "mul":
        r = 1
        for t, e in x.args:
            r = mul(r, power(conj(t), e))
        return r
    if x.op == "exp":
        return exp(conj(x.args[0]))
    if x.op == "conj":
        return x.args[0]
    return node("conj", (x,))


def real(x):
    if is_real(x):
        return x
    if x.op == "I":
        return 0
    if x.op == "add":
        r = x.args[0]
        for t, k in x.args[1]:
            r = add(r, mul(k, real(t)))
        return r
    if x.op == "mul":
        re = {t: e for t, e in x.args if t.real}
        im = {t: e for t, e in x.args if not t.real}
        if re:
            return mul(_mk_mul(1, re), real(_mk_mul(1, im)))
    return node("real", (x,), real=True)


def imag(x):
    if is_real(x):
        return 0
    if x.op == "I":
        return 1
    if x.op == "add":
        r = 0
        for t, k in x.args[1]:
            r = add(r, mul(k, imag(t)))
        return r
    if x.op == "mul":
        re = {t: e for t, e in x.args if t.real}
        im = {t: e for t, e in x.args if not t.real}
        if re:
            return mul(_mk_mul(1, re), imag(_mk_mul(1, im)))
    return node("imag", (x,), real=True)


def absv(x):
    if isnum(x) or isfloat(x):
        return abs(x)
    if x.op in ("abs", "sqrt", "exp") and x.real:
        return x
    if x.real:
        s = _sign_known(x)
        if s is not None:
            return x if s > 0 else mul(-1, x)
    c, d = _as_mul(x)
    if c != 1 and c != 0:
        return mul(abs(c), absv(_mk_mul(1, d)))
    # |-(a)| = |a| : choose the canonical sign (handled by _as_mul on sums)
    return node("abs", (x,), real=True)


def floor(x):
    if isnum(x):
        return math.floor(x)
    if isinstance(x, T) and x.closed:
        v = closed_value(x)
        if v is not None:
            return _rnd(v, "floor")
    return node("floor", (x,))


def ceil(x):
    if isnum(x):
        return math.ceil(x)
    if isinstance(x, T) and x.closed:
        v = closed_value(x)
        if v is not None:
            return _rnd(v, "ceil")
    return node("ceil", (x,))


def _rnd(v, how):
    import mpmath as mp
    n = int(mp.nint(v.real))
    if abs(v.real - n) < mp.mpf(10) ** -35:
        return n
    return int(mp.floor(v.real)) if how == "floor" else int(mp.ceil(v.real))


def _minmax(op, a, b):
    """n-ary canonical max/min (kept as a left fold of sorted arguments)."""
    args = []

    def flat(x):
        if isinstance(x, T) and x.op == op:
            for y in x.args:
                flat(y)
        elif x not in args:
            args.append(x)
    flat(a)
    flat(b)
    keep = []
    for x in args:
        drop = False
        for y in list(keep):
            lo, hi = (x, y) if op == "max" else (y, x)
            if lt(hi, lo) is False:        # hi >= lo: x is dominated by y
                drop = True
                break
            if lt(lo, hi) is False:        # y is dominated by x
                keep.remove(y)
        if not drop:
            keep.append(x)
    keep.sort(key=_key)
    r = keep[0]
    for x in keep[1:]:
        r = node(op, (r, x))
    return r


def vmax(a, b):
    if a is b:
        return a
    if _nan(a) or _nan(b):
        return math.nan
    c = lt(a, b)
    if c is True:
        return b
    if c is False:
        return a
    if lt(b, a) is False:
        return b
    return _minmax("max", a, b)


def vmin(a, b):
    if a is b:
        return a
    if _nan(a) or _nan(b):
        return math.nan
    c = lt(a, b)
    if c is True:
        return a
    if c is False:
        return b
    if lt(b, a) is False:
        return a
    return _minmax("min", a, b)


def _key(x):
    if isinstance(x, T):
        return (1, x.id)
    return (0, float(x))


# ---- conditions -------------------------------------------------------------

def is_cond(x):
    return isinstance(x, T) and x.op in ("lt", "eq", "and", "or", "not", "bsym", "bapp")


def closed_value(x):
    """High-precision value of a closed term, or None."""
    from . import model
    try:
        return model.eval_closed(x)
    except Exception:
        return None


def lt(a, b):
    """a < b"""
    if isfloat(a) or isfloat(b):
        if not isinstance(a, T) and not isinstance(b, T):
            return float(a) < float(b)
        if isfloat(a):
            return math.isinf(a) and a < 0
        return math.isinf(b) and b > 0
    if isnum(a) and isnum(b):
        return a < b
    if a is b:
        return False
    d = sub(a, b)
    if isnum(d):
        return d < 0
    if d.closed:
        v = closed_value(d)
        if v is not None:
            import mpmath as mp
            return v.real < -mp.mpf(10) ** -35
    s = _sign_known(d)
    if s == 1 or s == 0.5:
        return False
    if s == -1:
        return True
    # canonical scale: divide by |leading coefficient|
    c, dd = _as_mul(d)
    core = _mk_mul(1, dd)
    return node("lt", (core, 1 if c > 0 else -1), real=True)


def _sign_known(x):
    """1: >0, 0.5: >=0, -1: <0, -0.5: <=0, None: unknown"""
    if isnum(x):
        return 1 if x > 0 else (0.5 if x == 0 else -1)
    if x.op == "exp" and x.real:
        return 1
    if x.op == "sym" and SYM_ATTRS.get(x.args[0], {}).get("positive"):
        return 1
    if x.op in ("abs",):
        return 0.5
    if x.op == "sqrt" and x.real:
        s = _sign_known(x.args[0])
        return 1 if s == 1 else 0.5
    if x.op == "mul":
        pos, strict = 1, True
        for t, e in x.args:
            s = _sign_known(t)
            if not isinstance(e, int):
                if s != 1:
                    return None
                continue
            if s is None:
                if e % 2 == 0 and t.real:
                    s = 0.5
                else:
                    return None
            elif e % 2 == 0:
                s = abs(s)
            if s < 0:
                pos = -pos
            if abs(s) != 1:
                strict = False
        return pos * (1 if strict else 0.5)
    if x.op == "add":
        c0, items = x.args
        sgn, strict = 0, False
        if c0 != 0:
            sgn, strict = (1 if c0 > 0 else -1), True
        for t, k in items:
            s = _sign_known(t)
            if s is None or not isnum(k):
                return None
            s = s if k > 0 else -s
            w = 1 if s > 0 else -1
            if sgn and w != sgn:
                return None
            sgn = w
            strict = strict or abs(s) == 1
        return sgn * (1 if strict else 0.5) if sgn else 0.5
    return None


def le(a, b):
    return lnot(lt(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return lnot(lt(a, b))


def eq(a, b):
    if isfloat(a) or isfloat(b):
        if not isinstance(a, T) and not isinstance(b, T):
            return a == b
        return False
    if isinstance(a, bool) and is_cond(b):
        return b if a else lnot(b)
    if isinstance(b, bool) and is_cond(a):
        return a if b else lnot(a)
    if isnum(a) and isnum(b):
        return a == b
    if a is b:
        return True
    d = sub(a, b)
    if isnum(d):
        return d == 0
    if d.closed:
        v = closed_value(d)
        if v is not None:
            return bool(abs(v) < 1e-30)
    if _sign_known(d) in (1, -1):
        return False
    c, dd = _as_mul(d)
    return node("eq", (_mk_mul(1, dd),), real=True)


def truthy(x):
    """Condition 'x is truthy' for an abstract scalar."""
    if isinstance(x, T):
        if is_cond(x):
            return x
        if x.op == "ite":
            return ite(x.args[0], truthy(x.args[1]), truthy(x.args[2]))
        return lnot(eq(x, 0))
    return bool(x)


def lnot(c):
    if isinstance(c, bool):
        return not c
    if isinstance(c, int):
        return not c
    if c.op == "not":
        return c.args[0]
    if not is_cond(c):
        c = truthy(c)
        if isinstance(c, bool):
            return not c
        if c.op == "not":
            return c.args[0]
    return node("not", (c,), real=True)


def land(a, b):
    a, b = truthy(a), truthy(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a is b:
        return a
    if lnot(a) is b:
        return False
    xs = set()
    for z in (a, b):
        xs.update(z.args if z.op == "and" else (z,))
    return node("and", tuple(sorted(xs, key=lambda t: t.id)), real=True)


def lor(a, b):
    return lnot(land(lnot(truthy(a)), lnot(truthy(b))))


def ite(c, a, b):
    c = truthy(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if not isinstance(a, T) and not isinstance(b, T):
        if type(a) is type(b) and a == b:
            return a
        if isinstance(a, bool) and isinstance(b, bool):
            return c if a else lnot(c)
    if isinstance(a, bool) or is_cond(a) or isinstance(b, bool) and is_cond(a):
        if (isinstance(a, bool) or is_cond(a)) and (isinstance(b, bool) or is_cond(b)):
            return lor(land(c, a), land(lnot(c), b))
    if c.op == "not":
        c, a, b = c.args[0], b, a
    # ite(c, ite(c,x,y), z)
    if isinstance(a, T) and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, T) and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    return node("ite", (c, a, b))


def app(name, idx, args, real=True):
    """idx-th component of an opaque smooth function applied to scalars."""
    return node("app", (name, idx, tuple(_canon(a) if isnum(a) else a for a in args)), real=real)


def bapp(name, args):
    """Opaque predicate."""
    return node("bapp", (name, tuple(_canon(a) if isnum(a) else a for a in args)), real=True)


def matnode(op, extra, entries, nrow, ncol, real=None):
    """Opaque matrix-valued function of matrix entries (expm, phi, solve, ...)."""
    return node("mat:" + op, (extra, tuple(_canon(a) if isnum(a) else a for a in entries), nrow, ncol), real=real)


def entry(m, i, j):
    return node("entry", (m, i, j))


# ---- differentiation ----------------------------------------------------------

def diff(t, seed, memo=None):
    """Directional derivative of t for tangents seed: {sym T: tangent value}."""
    if memo is None:
        memo = {}
    return _diff(t, seed, memo)


def _diff(t, seed, memo):
    if not isinstance(t, T):
        return 0
    if t in memo:
        return memo[t]
    op, a = t.op, t.args
    if op == "sym":
        r = seed.get(t, 0)
    elif op in ("I", "pi"):
        r = 0
    elif op == "add":
        r = 0
        for u, k in a[1]:
            r = add(r, mul(k, _diff(u, seed, memo)))
    elif op == "mul":
        r = 0
        for u, e in a:
            du = _diff(u, seed, memo)
            if isnum(du) and du == 0:
                continue
            r = add(r, mul(mul(e, du), div(t, u)))
    elif op == "exp":
        r = mul(t, _diff(a[0], seed, memo))
    elif op == "log":
        r = div(_diff(a[0], seed, memo), a[0])
    elif op == "sqrt":
        r = div(_diff(a[0], seed, memo), mul(2, t))
    elif op == "sin":
        r = mul(fn1("cos", a[0]), _diff(a[0], seed, memo))
    elif op == "cos":
        r = mul(mul(-1, fn1("sin", a[0])), _diff(a[0], seed, memo))
    elif op == "tanh":
        r = mul(sub(1, power(t, 2)), _diff(a[0], seed, memo))
    elif op == "pow":
        da, de = _diff(a[0], seed, memo), _diff(a[1], seed, memo)
        r = mul(t, add(div(mul(a[1], da), a[0]), mul(de, log(a[0]) if de != 0 else 0)))
    elif op == "ite":
        r = ite(a[0], _diff(a[1], seed, memo), _diff(a[2], seed, memo))
    elif op == "max":
        r = ite(lt(a[0], a[1]), _diff(a[1], seed, memo), _diff(a[0], seed, memo))
    elif op == "min":
        r = ite(lt(a[0], a[1]), _diff(a[0], seed, memo), _diff(a[1], seed, memo))
    elif op == "abs" and a[0].real:
        r = mul(div(a[0], t), _diff(a[0], seed, memo))
    elif op in ("app", "dapp"):
        if op == "app":
            name, idx, args = a
            order = ()
        else:
            name, idx, order, args = a
        r = 0
        for j, u in enumerate(args):
            du = _diff(u, seed, memo)
            if isnum(du) and du == 0:
                continue
            r = add(r, mul(du, node("dapp", (name, idx, tuple(sorted(order + (j,))), args), real=t.real)))
    elif op in ("floor", "ceil"):
        r = 0
    else:
        if all(isnum(_diff(c, seed, memo)) and _diff(c, seed, memo) == 0 for c in children(t)):
            r = 0
        else:
            raise Undecidable("derivative of %s" % op)
    memo[t] = r
    return r


IEEE = [False]         # an undefined operation is a value (nan) instead of the end of the analysis


def _nan(x):
    return isinstance(x, float) and x != x


def substitute(t, mapping, memo=None):
    """Replace symbols by terms."""
    if memo is None:
        memo = {}
    ieee = IEEE[0]

    def go(x):
        if not isinstance(x, T):
            return x
        if x in mapping:
            return mapping[x]
        if x in memo:
            return memo[x]
        op, a = x.op, x.args
        if op in ("sym", "I", "pi"):
            r = x
        elif op == "add":
            r = a[0]
            for u, k in a[1]:
                r = add(r, mul(k, go(u)))
        elif op == "mul":
            r = 1
            for u, e in a:
                g = go(u)
                if ieee and (_nan(g) or _nan(r) or not isinstance(g, T) and g == 0 and not isinstance(e, T) and e < 0):
                    r = math.nan
                else:
                    r = mul(r, power(g, e))
        else:
            na = tuple(tuple(go(v) for v in u) if isinstance(u, tuple) else go(u) for u in a)
            if ieee and op not in ("ite", "lt", "eq", "not", "and") and any(_nan(z) for u in na for z in (u if isinstance(u, tuple) else (u,))):
                r = math.nan
            elif ieee and op == "pow" and not isinstance(na[0], T) and na[0] == 0 and not isinstance(na[1], T) and na[1] < 0:
                r = math.nan
            else:
                r = rebuild(op, na, x.real)
        memo[x] = r
        return r
    return go(t)


def rebuild(op, a, real=None):
    if op == "exp":
        return exp(a[0])
    if op == "log":
        return log(a[0])
    if op == "sqrt":
        return sqrt(a[0])
    if op == "abs":
        return absv(a[0])
    if op == "real":
        return globals()["real"](a[0])
    if op == "imag":
        return imag(a[0])
    if op == "conj":
        return conj(a[0])
    if op == "floor":
        return floor(a[0])
    if op == "ceil":
        return ceil(a[0])
    if op == "max":
        return vmax(*a)
    if op == "min":
        return vmin(*a)
    if op == "ite":
        return ite(*a)
    if op == "lt":
        return lt(mul(a[1], a[0]), 0)
    if op == "eq":
        return eq(a[0], 0)
    if op == "not":
        return lnot(a[0])
    if op == "and":
        r = True
        for x in a:
            r = land(r, x)
        return r
    if op == "pow":
        return power(*a)
    return node(op, a, real=real)


class _TooBig(Exception):
    pass


def normal(t, memo=None, limit=3000, budget=60000):
    """Distributed (polynomial) normal form, applied bottom-up to all arguments."""
    work = [0]
    if memo is None:
        memo = {}

    def pmul(p, q):
        work[0] += len(p) * len(q)
        if len(p) * len(q) > limit * 4 or work[0] > budget:
            raise _TooBig
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = mul(m1, m2)
                if isinstance(m, T):
                    c, d = _as_add(m)
                    if len(d) == 1 and c == 0:
                        (core, k), = d.items()
                    else:
                        core, k = m, 1
                else:
                    core, k = 1, m
                v = r.get(core, 0) + k * c1 * c2
                if v == 0:
                    r.pop(core, None)
                else:
                    r[core] = v
        if len(r) > limit:
            raise _TooBig
        return r

    def poly(x):
        """{monomial: coef} of a normalised term"""
        if not isinstance(x, T):
            return {1: x} if x != 0 else {}
        if x.op == "add":
            c, d = x.args[0], dict(x.args[1])
            if c != 0:
                d[1] = c
            return d
        return {x: 1}

    def unpoly(d):
        d = dict(d)
        c = d.pop(1, 0)
        if any(x.op == "add" for x in d):
            for m, k in d.items():
                c = add(c, mul(k, m))
            return c
        return _mk_add(c, d)

    def go(x):
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        op, a = x.op, x.args
        if op in ("sym", "bsym", "I", "pi"):
            r = x
        elif op == "add":
            d = {}
            if a[0] != 0:
                d[1] = a[0]
            for u, k in a[1]:
                for m, c in poly(go(u)).items():
                    v = d.get(m, 0) + k * c
                    if v == 0:
                        d.pop(m, None)
                    else:
                        d[m] = v
            if len(d) > limit:
                raise _TooBig
            r = unpoly(d)
        elif op == "mul":
            d = {1: 1}
            for u, e in a:
                g = go(u)
                if isinstance(e, int) and 0 < e <= 6 and isinstance(g, T) and g.op == "add":
                    for _ in range(e):
                        d = pmul(d, poly(g))
                else:
                    d = pmul(d, poly(power(g, e)))
            r = unpoly(d)
        else:
            na = tuple(tuple(go(v) for v in u) if isinstance(u, tuple) else go(u) for u in a)
            r = rebuild(op, na, x.real)
        memo[x] = r
        return r
    try:
        return go(t)
    except (_TooBig, DivByZero, RecursionError):
        return t


def free_syms(ts):
    seen, out, stack = set(), [], [t for t in ts if isinstance(t, T)]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ("sym", "bsym"):
            out.append(t)
        stack.extend(children(t))
    return sorted(out, key=lambda t: t.id)


def show(x, depth=4):
    if not isinstance(x, T):
        if isinstance(x, Fraction):
            f = float(x)
            return str(x) if x.denominator < 10 ** 6 else "%.12g" % f
        return str(x)
    if depth == 0:
        return "#%d" % x.id
    s = lambda y: show(y, depth - 1)
    op, a = x.op, x.args
    if op == "sym" or op == "bsym":
        return a[0]
    if op == "add":
        parts = [] if a[0] == 0 else [s(a[0])]
        for t, k in a[1][:8]:
            parts.append(s(t) if k == 1 else "%s*%s" % (s(k), s(t)))
        if len(a[1]) > 8:
            parts.append("...")
        return "(" + " + ".join(parts) + ")"
    if op == "mul":
        return "*".join(s(t) if e == 1 else "%s^%s" % (s(t), e) for t, e in a[:8])
    if op == "app":
        return "%s[%s](%s)" % (a[0], a[1], ", ".join(s(u) for u in a[2]))
    if op == "lt":
        return "(%s%s<0)" % ("" if a[1] > 0 else "-", s(a[0]))
    return "%s(%s)" % (op, ", ".join(s(u) if not isinstance(u, tuple) else "[..]" for u in a))
