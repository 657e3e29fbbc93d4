"""Rational-approximation tables: every table is read from the source (module constants, folded by the abstract interpreter) and the rational function it
defines is compared with its approximand on the whole negative real axis by an enclosure: cells [m-w, m+w] covering (-X, 0] and, in the variable 1/x,
(-inf, -X]; on every cell both functions are expanded about m to order 24 at 60 digits, the tail is bounded by the geometric series of the poles, so the
bound holds at every point of the cell, not at samples."""
import mpmath as mp

from .common import *

RULE = "table constants folded from the source; Taylor-model enclosure of |r - f| on (-inf, 0]; poles and residues against the exact Pade approximant"
MOD = "ormatex_py.matexp_phi_pfd_dict"
SERIAL = True
DEG = 24
HALPHEN = mp.mpf("9.289025491920818918755449435951")

PADE = {"IE": (0, 1), "CN": (1, 1)}
for _d in range(2, 17, 2):
    for _m in (_d, _d - 1, _d - 2, 0):
        PADE["pade_%d_%d" % (_m, _d)] = (_m, _d)
CRAM = {"cram_%d" % n: n for n in range(2, 17, 2)}
# real-pole tables for phi_1: enclosure of the error of the published (short) coefficients
REAL = {"2": "0.031", "3": "0.047", "6": "0.0048", "7": "0.0125", "9": "0.0037", "12": "0.0048"}


def number(x):
    """a folded constant as the double the program computes with"""
    if isinstance(x, terms.T):
        return complex(float(terms.real(x)), float(terms.imag(x)))
    return float(x)


def items(x):
    return [number(z) for z in (obj(x).reshape(-1) if isinstance(x, Arr) else x)]


def tables(ctx):
    from ..driver import explore
    got = {}

    def entry(I):
        d = None
        for mod, attr in (("ormatex_py.matexp_phi", "pfd_dict"), (MOD, "pfd_dict")):
            try:
                d = need(I, mod, attr)
                break
            except Exception:
                continue
        if not isinstance(d, dict):
            raise Undecidable("pole tables not found")
        for k, v in d.items():
            if not isinstance(v, (tuple, list)) or len(v) != 3:
                raise Undecidable("layout of table %s" % k)
            got[str(k)] = (items(v[0]), items(v[1]), number(v[2]))
        return 0
    parts, und = explore(entry, ctx.project, {}, STUBS, setup=host(2, Field("F", 2)))
    return got, und


class Rat:
    """c0 + sum weight * Re(c / (x - p)), expanded about real points"""

    def __init__(self, ps, cs, c0):
        self.t = [(mp.mpc(p), 2 * mp.mpc(c)) for p, c in zip(ps, cs)]
        self.c0 = mp.mpf(c0.real)

    def series(self, m, n):
        a = [self.c0] + [mp.mpf(0)] * n
        for p, c in self.t:
            q = 1 / (m - p)
            z = c * q
            for j in range(n + 1):
                a[j] += z.real
                z = -z * q
        return a

    def tail(self, m, w, n):
        s = mp.mpf(0)
        for p, c in self.t:
            d = abs(m - p)
            r = w / d
            if r >= 1:
                return mp.inf
            s += abs(c) / d * r ** (n + 1) / (1 - r)
        return s

    def inv(self):
        """the same function of y = 1/x: c/(x-p) = c y / (1 - p y)"""
        return Inv(self)


class Inv:
    def __init__(self, r):
        self.r = r

    def series(self, m, n):
        a = [self.r.c0] + [mp.mpf(0)] * n
        for p, c in self.r.t:
            if p == 0:
                continue
            # c y/(1-py) = -c/p + (c/p) / (1 - p y);  1/(1-py) about m: sum p^j (y-m)^j / (1-pm)^(j+1)
            u = 1 / (1 - p * m)
            z = (c / p) * u
            a[0] += (-c / p).real
            for j in range(n + 1):
                a[j] += z.real
                z = z * p * u
        return a

    def tail(self, m, w, n):
        s = mp.mpf(0)
        for p, c in self.r.t:
            r = w * abs(p) / abs(1 - p * m)
            if r >= 1:
                return mp.inf
            s += abs(c / p / (1 - p * m)) * r ** (n + 1) / (1 - r)
        return s


class Exp:
    def series(self, m, n):
        e = mp.exp(m)
        return [e / mp.factorial(j) for j in range(n + 1)]

    def tail(self, m, w, n):
        return mp.exp(m + w) * w ** (n + 1) / mp.factorial(n + 1)


class Phi1:
    def series(self, m, n):
        # a_j = int_0^1 s^j e^{s m} ds / j!
        with mp.workdps(160):
            if abs(m) < mp.mpf("0.5"):
                return [mp.fsum(m ** k / (mp.factorial(k) * (j + k + 1)) for k in range(90)) / mp.factorial(j) for j in range(n + 1)]
            e = mp.exp(m)
            a = [(e - 1) / m]
            for j in range(1, n + 1):
                a.append((e / mp.factorial(j) - a[-1]) / m)
            return a

    def tail(self, m, w, n):
        # |phi_1^(n+1)| <= max(1, e^{m+w}) / (n+2)
        return max(mp.mpf(1), mp.exp(m + w)) * w ** (n + 1) / mp.factorial(n + 1)


class Diff:
    def __init__(self, f, g):
        self.f, self.g = f, g

    def series(self, m, n):
        return [a - b for a, b in zip(self.f.series(m, n), self.g.series(m, n))]

    def tail(self, m, w, n):
        return self.f.tail(m, w, n) + self.g.tail(m, w, n)


class Lin:
    """-y (+ 0): phi_1(1/y) without its exponentially small part"""

    def series(self, m, n):
        return [-m, mp.mpf(-1)] + [mp.mpf(0)] * (n - 1)

    def tail(self, m, w, n):
        return mp.mpf(0)


class Zero:
    def series(self, m, n):
        return [mp.mpf(0)] * (n + 1)

    def tail(self, m, w, n):
        return mp.mpf(0)


def enclose(f, lo, hi, bound, cells, depth=0):
    """-> None if |f| <= bound on [lo, hi], else (x, |f(x)|) at which it is larger; cells counts the pieces"""
    stack = [(mp.mpf(lo), mp.mpf(hi), 0)]
    while stack:
        a, b, d = stack.pop()
        m, w = (a + b) / 2, (b - a) / 2
        t = f.tail(m, w, DEG)
        if t < bound / 100:
            c = f.series(m, DEG)
            if abs(c[0]) > bound:
                return m, abs(c[0])
            s, pw = abs(c[0]) + t, w
            for j in range(1, DEG + 1):
                s += abs(c[j]) * pw
                pw *= w
            if s <= bound:
                cells[0] += 1
                continue
        if d > 60 or cells[0] > 40000:
            return Undecidable("enclosure")
        stack.append((a, m, d + 1))
        stack.append((m, b, d + 1))
    return None


def halfline(r, near, far, bound, X, cells):
    """|r - near| <= bound on [-X, 0] and |r - far(1/x)| <= bound on [-inf, -X]"""
    e = enclose(Diff(r, near), -X, 0, bound, cells)
    if e is not None:
        return e
    e = enclose(Diff(r.inv(), far), mp.mpf(-1) / X, 0, bound - mp.exp(-mp.mpf(X)), cells)
    if isinstance(e, tuple):
        return (1 / e[0] if e[0] else mp.mpf("-inf")), e[1]
    return e


def pade(m, n):
    """exact poles and residues of the [m/n] Pade approximant of exp"""
    f = mp.factorial
    P = [f(m + n - j) * f(m) / (f(m + n) * f(j) * f(m - j)) for j in range(m + 1)]
    Q = [f(m + n - j) * f(n) * (-1) ** j / (f(m + n) * f(j) * f(n - j)) for j in range(n + 1)]
    roots = mp.polyroots(Q[::-1], maxsteps=500, extraprec=600)
    dQ = [j * Q[j] for j in range(1, n + 1)]
    c0 = P[m] / Q[n] if m == n else mp.mpf(0)
    return [(z, mp.polyval(P[::-1], z) / mp.polyval(dQ[::-1], z)) for z in roots], c0


def rust_table(ctx):
    """the pole table of the native evaluator, folded from its translated source"""
    from ..driver import explore
    from .native import meth, nsetup, stubs_for, am, Aut
    got = []

    def entry(I):
        g = I.call(need(I, "matexp_cauchy", "gen_cram_expm"), [16], {})
        got.append((items(am(I, I.getattr(g, "theta"))), items(am(I, I.getattr(g, "alpha"))), number(I.getattr(g, "alpha_0"))))
        return 0
    st, bad = stubs_for(ctx)
    if "matexp_cauchy" in bad:
        return None
    explore(entry, ctx.project, {}, dict(st), setup=nsetup(Aut("F", 2)))
    return got[0] if got else None


def show(x, n=4):
    return mp.nstr(x, n)


def run(ctx):
    with mp.workdps(60):
        _run(ctx)


def _run(ctx):
    got, und = tables(ctx)
    if not got:
        ctx.note_undecided("tables", "; ".join(str(u) for u in und) or "not found")
        return
    names = sorted(list(PADE) + list(CRAM) + list(REAL))
    ctx.rule("every named table is present", names, [("missing:" + k, "table %s is not in the dictionary: pfd_method=%r raises KeyError" % (k, k)) for k in names if k not in got])
    native = rust_table(ctx)
    if native is None:
        ctx.note_undecided("native CRAM table", "constants not found in src/matexp_cauchy.rs")
    else:
        got["cram_16 (native)"] = native
    for k in sorted(got):
        ps, cs, c0 = got[k]
        bad = []

        def flag(text, key=k):
            bad.append((key, "table %s: %s" % (k, text)))
        # ---- well-formedness
        if len(ps) != len(cs):
            flag("%d poles, %d residues" % (len(ps), len(cs)))
        if abs(complex(c0).imag) > 0:
            flag("constant %s is not real" % c0)
        for p in ps:
            z = complex(p)
            if z.real <= 0 and abs(z.imag) < 1e-3:
                flag("pole %s on the negative real axis" % p)
        for i in range(len(ps)):
            for j in range(i):
                if abs(complex(ps[i]) - complex(ps[j])) < 1e-6 or (complex(ps[i]).imag and abs(complex(ps[i]) - complex(ps[j]).conjugate()) < 1e-6):
                    flag("pole %s appears twice (or with its conjugate)" % ps[i])
        ctx.rule("table %s is well formed" % k, ["%s pole %d" % (k, i) for i in range(len(ps))] or [k], list(bad))
        if bad:
            continue
        r = Rat(ps, cs, complex(c0))
        cells = [0]
        text = []
        if k in PADE:
            m, n = PADE[k]
            ref, rc0 = pade(m, n)
            R = Rat([0], [0], complex(float(rc0)))
            R.t = []
            left = list(ref)
            for p, c in zip(ps, cs):
                z = mp.mpc(p)
                best = min(left, key=lambda q: min(abs(q[0] - z), abs(mp.conj(q[0]) - z)), default=None)
                if best is None or min(abs(best[0] - z), abs(mp.conj(best[0]) - z)) > mp.mpf("1e-9") * abs(best[0]):
                    text.append("pole %s is none of the poles of the [%d/%d] Pade approximant" % (p, m, n))
                    continue
                conj = abs(best[0] - z) > abs(mp.conj(best[0]) - z)
                want = mp.conj(best[1]) if conj else best[1]
                real = abs(best[0].imag) < mp.mpf("1e-20")
                if real:
                    want = want / 2         # the action takes twice the real part of every term
                if abs(mp.mpc(c) - want) > mp.mpf("1e-9") * abs(want):
                    text.append("residue %s at pole %s, the Pade approximant has %s" % (c, p, show(want, 12)))
                left = [q for q in left if q is not best and (real or abs(q[0] - mp.conj(best[0])) > mp.mpf("1e-12"))]
                R.t.append((mp.conj(best[0]) if conj else best[0], 2 * want))
            if left and not text:
                text.append("%d poles of the [%d/%d] Pade approximant are missing" % (len(left), m, n))
            if abs(mp.mpf(complex(c0).real) - rc0) > mp.mpf("1e-12"):
                text.append("constant %s instead of %s" % (c0, show(rc0)))
            if not text:
                # the rounded constants still define that function at every point
                R.c0 = rc0
                b = mp.mpf("2e-9")
                e = enclose(Diff(r, R), -200, 0, b, cells) or enclose(Diff(r.inv(), R.inv()), mp.mpf(-1) / 200, 0, b, cells)
                what = "the Pade approximant"
            else:
                e = None
        elif k.split(" ")[0] in CRAM:
            n = CRAM[k.split(" ")[0]]
            b = mp.mpf("1.1") * 2 * HALPHEN ** (-(n + mp.mpf(1) / 2)) + mp.mpf("3e-14")
            if 2 * len(ps) != n:
                text.append("%d poles for degree %d" % (len(ps), n))
            e = halfline(r, Exp(), Zero(), b, 60, cells)
            what = "exp"
        elif k in REAL:
            # k >= 1: weights c/p (phi_1); k = 0: the table's own constant
            for p, c in zip(ps, cs):
                if complex(p).imag or complex(c).imag:
                    text.append("pole %s or residue %s is not real" % (p, c))
            b = mp.mpf(REAL[k])
            f = Rat(ps, [mp.mpc(c) / mp.mpc(p) for p, c in zip(ps, cs)], complex(0))
            e = halfline(f, Phi1(), Lin(), b, 60, cells)
            what = "phi_1"
            e0 = halfline(r, Exp(), Zero(), mp.mpf("0.2"), 60, cells)
            if isinstance(e0, tuple):
                ctx.violate("exp:" + k, "table %s used for exp (k=0): |r(x) - exp(x)| = %s at x = %s" % (k, show(e0[1]), show(e0[0])))
        else:
            # an additional table: finite, real, and an approximation of exp at 0 and -infinity or of phi_1
            b = mp.mpf("0.25")
            e = halfline(r, Exp(), Zero(), b, 60, cells)
            if isinstance(e, tuple):
                e = Undecidable("family of the additional table %s" % k)
            what = "exp"
        if isinstance(e, Undecidable):
            ctx.note_undecided("table " + k, str(e))
            continue
        if isinstance(e, tuple):
            text.append("|r(x) - %s| = %s at x = %s, the bound of this table is %s" % (what, show(e[1]), show(e[0]), show(b, 6)))
        ctx.rule("table %s approximates on the negative axis" % k, ["%s cell %d" % (k, i) for i in range(cells[0])] or [k],
                 [(k, "table %s: %s" % (k, "; ".join(text[:3])))] if text else [])
