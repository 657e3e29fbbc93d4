"""Model of faer / std for the lowered native crate (interpreted, not executed).

A matrix is a window on a two-dimensional array; views share the array.
"""
import numpy as np
import math

PI = np.pi


class RustError(Exception):
    pass


class Rng:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def tolist(self):
        return list(range(0 if self.lo is None else self.lo, self.hi))


class Scale:
    def __init__(self, s):
        self.s = s

    def __mul__(self, o):
        if isinstance(o, Mat):
            return Mat(o.a() * self.s)
        return NotImplemented


class Mat:
    def __init__(self, base, r0=0, c0=0, nr=None, nc=None):
        self.base = base
        self.r0, self.c0 = r0, c0
        self.nr = base.shape[0] if nr is None else nr
        self.nc = base.shape[1] if nc is None else nc

    @staticmethod
    def zeros(r, c):
        return Mat(np.zeros((r, c)))

    @staticmethod
    def full(r, c, v):
        return Mat(np.zeros((r, c)) + v)

    @staticmethod
    def identity(r, c):
        return Mat(np.eye(r, c))

    @staticmethod
    def from_fn(r, c, f):
        return Mat(np.array([[f(i, j) for j in range(c)] for i in range(r)]).reshape((r, c)))

    def a(self):
        return self.base[self.r0:self.r0 + self.nr, self.c0:self.c0 + self.nc]

    def nrows(self):
        return self.nr

    def ncols(self):
        return self.nc

    def shape(self):
        return (self.nr, self.nc)

    def own(self):
        return Mat(np.array(self.a()))

    def get(self, i, j=None):
        if isinstance(i, Rng) or isinstance(j, Rng):
            i0, i1 = bounds(i, self.nr)
            j0, j1 = bounds(j, self.nc)
            assert i0 <= i1 and i1 <= self.nr and j0 <= j1 and j1 <= self.nc
            return Mat(self.base, self.r0 + i0, self.c0 + j0, i1 - i0, j1 - j0)
        return self[(i, j)]

    get_mut = get

    def submatrix(self, i, j, r, c):
        assert i + r <= self.nr and j + c <= self.nc
        return Mat(self.base, self.r0 + i, self.c0 + j, r, c)

    submatrix_mut = submatrix
    split_at = None

    def col(self, j):
        assert j < self.nc
        return Col(self.base, self.r0, self.c0 + j, self.nr, 1)

    col_mut = col

    def subcols(self, j, n):
        return Mat(self.base, self.r0, self.c0 + j, self.nr, n)

    def subrows(self, i, n):
        return Mat(self.base, self.r0 + i, self.c0, n, self.nc)

    def copy_from(self, o):
        if isinstance(o, Sparse):
            o = o.m
        assert self.nr == o.nr and self.nc == o.nc
        self.base[self.r0:self.r0 + self.nr, self.c0:self.c0 + self.nc] = np.array(o.a())

    def fill(self, v):
        self.base[self.r0:self.r0 + self.nr, self.c0:self.c0 + self.nc] = v

    def transpose(self):
        return Mat(np.array(self.a()).T)

    def adjoint(self):
        return self.transpose()

    def __getitem__(self, k):
        i, j = k
        assert 0 <= i and i < self.nr and 0 <= j and j < self.nc
        return self.base[self.r0 + i, self.c0 + j]

    def __setitem__(self, k, v):
        i, j = k
        assert 0 <= i and i < self.nr and 0 <= j and j < self.nc
        if rs_iscomplex(v) and not rs_iscomplex(self.base):
            self.base = self.base.astype(np.complex128)       # element type of the owner, taken from its first complex entry
        self.base[self.r0 + i, self.c0 + j] = v

    def __add__(self, o):
        assert self.nr == o.nr and self.nc == o.nc
        return Mat(self.a() + o.a())

    def __sub__(self, o):
        assert self.nr == o.nr and self.nc == o.nc
        return Mat(self.a() - o.a())

    def __neg__(self):
        return Mat(-self.a())

    def __mul__(self, o):
        if isinstance(o, Scale):
            return Mat(self.a() * o.s)
        if isinstance(o, Sparse):
            o = o.m
        if isinstance(o, Mat):
            assert self.nc == o.nr
            return Mat(self.a() @ o.a())
        return Mat(self.a() * o)

    def __rmul__(self, s):
        return Mat(self.a() * s)

    def __truediv__(self, o):
        if isinstance(o, Scale):
            return Mat(self.a() / o.s)
        return Mat(self.a() / o)

    def norm_l2(self):
        return np.linalg.norm(self.a().reshape(-1))

    def norm_max(self):
        return np.max(np.abs(self.a()))

    def norm_l1(self):
        # faer: the sum of the absolute values of all entries
        return np.sum(np.abs(self.a()))

    def norm_max_(self):
        return self.norm_max()

    def as_mat(self):
        return Mat(self.base, self.r0, self.c0, self.nr, self.nc)

    def qr(self):
        return Solver(self)

    def partial_piv_lu(self):
        return Solver(self)

    def full_piv_lu(self):
        return Solver(self)

    def col_piv_qr(self):
        return Solver(self)

    def to_dense(self):
        return self

    def apply(self, out, rhs, par=None, stack=None):
        out.copy_from(self * rhs)


class Col(Mat):
    def __getitem__(self, k):
        assert 0 <= k and k < self.nr
        return self.base[self.r0 + k, self.c0]

    def __setitem__(self, k, v):
        assert 0 <= k and k < self.nr
        self.base[self.r0 + k, self.c0] = v

    def transpose(self):
        return Row(np.array(self.a()).T)

    def try_as_col_major(self):
        return self


class Row(Mat):
    def __mul__(self, o):
        if isinstance(o, Col):
            assert self.nc == o.nr
            return (self.a() @ o.a())[0, 0]
        return Mat.__mul__(self, o)


class Sparse:
    """SparseColMat: stored densely"""

    def __init__(self, m):
        self.m = m

    @staticmethod
    def try_new_from_triplets(r, c, ts):
        m = Mat.zeros(r, c)
        for t in ts:
            m[(t.i, t.j)] = m[(t.i, t.j)] + t.v
        return Sparse(m)

    def nrows(self):
        return self.m.nr

    def ncols(self):
        return self.m.nc

    def to_dense(self):
        return self.m

    def __mul__(self, o):
        return self.m * o

    def apply(self, out, rhs, par=None, stack=None):
        out.copy_from(self.m * rhs)


class Triplet:
    def __init__(self, i, j, v):
        self.i, self.j, self.v = i, j, v

    @staticmethod
    def new(i, j, v):
        return Triplet(i, j, v)


class sparse:
    Triplet = Triplet


SparseColMat = Sparse


class Solver:
    def __init__(self, m):
        self.m = m

    @staticmethod
    def new(m):
        return Solver(m)

    def solve(self, b):
        return Mat(np.linalg.solve(self.m.a(), b.a()))

    def inverse(self):
        return Mat(np.linalg.inv(self.m.a()))


class solvers:
    Qr = Solver
    PartialPivLu = Solver
    FullPivLu = Solver


class linalg:
    solvers = solvers


class LinOp:
    pass


class MemBuffer:
    @staticmethod
    def new(x):
        return None


class MemStack:
    @staticmethod
    def new(x):
        return None


class StackReq:
    @staticmethod
    def empty():
        return None


def get_global_parallelism():
    return None


def gmres(a, b, x, iters, tol, pre=None):
    """Solves a x = b (exactly)."""
    n = b.nr
    d = Mat.zeros(n, n)
    for j in range(n):
        e = Mat.zeros(n, 1)
        e[(j, 0)] = 1.0
        out = Mat.zeros(n, 1)
        a.apply(out, e, None, None)
        d.submatrix(0, j, n, 1).copy_from(out)
    x.copy_from(Mat(np.linalg.solve(d.a(), b.a())))
    return (tol, iters)


class c64:
    @staticmethod
    def new(re, im):
        return re + 1j * im


def c64_new(re, im):
    return re + 1j * im


def c64_from(x):
    return x


def mat(rows):
    return Mat(np.array(rows).reshape((len(rows), len(rows[0]))))


def bounds(r, n):
    if isinstance(r, Rng):
        return (0 if r.lo is None else r.lo), (n if r.hi is None else r.hi)
    return r, r + 1


# ------------------------------------------------------------ scalars
def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def div(a, b):
    if isint(a) and isint(b):
        return a // b if (a >= 0) == (b > 0) else -((-a) // b)
    return a / b


def rem(a, b):
    return a % b


def to_f(x):
    return x * 1.0 if isint(x) else x


def to_i(x):
    return x if isint(x) else int(x)


def f64_from(x):
    return x


def f64_max(a, b):
    return max(a, b)


def f64_min(a, b):
    return min(a, b)


cmp_max = f64_max
cmp_min = f64_min
usize_max = f64_max
usize_min = f64_min


def f64_powi(a, b):
    return a ** b


def f64_abs(a):
    return abs(a)


def f64_exp(a):
    return np.exp(a)


def f64_sqrt(a):
    return np.sqrt(a)


def String_from(s):
    return s


def frexp(x):
    # smallest e with |x| < 2^e (mantissa in [1/2, 1))
    e = np.floor(np.log2(x)) + 1
    return (None, e)


def panic():
    raise RuntimeError("panic")


def raise_(e):
    raise RustError(e)


def is_err(x):
    return False


class Variant:
    def __init__(self, name, args):
        self.name, self.args = name, args


def variant(name):
    return lambda *a: Variant(name, a)


def is_variant(x, name):
    return isinstance(x, Variant) and x.name == name


def deref(x):
    return x


def iadd(x, y):
    if isinstance(x, Mat):
        x.copy_from(x + y)
        return x
    return x + y


def isub(x, y):
    if isinstance(x, Mat):
        x.copy_from(x - y)
        return x
    return x - y


def imul(x, y):
    if isinstance(x, Mat):
        x.copy_from(x * y)
        return x
    return x * y


def idiv(x, y):
    if isinstance(x, Mat):
        x.copy_from(x / y)
        return x
    return div(x, y)


# ------------------------------------------------------------ methods
def m_abs(x):
    return abs(x)


def m_powi(x, n):
    return x ** n


def m_powf(x, y):
    return x ** y


def m_exp(x):
    return np.exp(x)


def m_sqrt(x):
    return np.sqrt(x)


def m_sin(x):
    return np.sin(x)


def m_cos(x):
    return np.cos(x)


def m_ln(x):
    return np.log(x)


def m_re(x):
    return np.real(x)


def m_im(x):
    return np.imag(x)


def m_max(x, y):
    return max(x, y)


def m_min(x, y):
    return min(x, y)


def m_ceil(x):
    return np.ceil(x)


def m_floor(x):
    return np.floor(x)


def m_unwrap(x):
    return x


m_expect = m_ok = m_as_str = m_as_ref = m_as_mut = m_into = m_borrow = m_borrow_mut = m_copied = m_cloned = m_unwrap
m_rb = m_rb_mut = m_to_string = m_to_vec = m_as_array = m_unwrap
m_view = m_collect = m_unwrap


def m_expect(x, msg):
    return x


def m_into_pyarray(x, py=None):
    if isinstance(x, Mat):
        return x.a()
    return np.array(x)


def m_into_ndarray(x):
    if isinstance(x, Mat):
        return x.a()
    return x


def m_into_faer(x):
    return Mat(x)


def m_as_slice(x):
    if isinstance(x, Mat):
        return x.a().reshape(-1)
    return x


class ColRef:
    @staticmethod
    def from_slice(x):
        return Mat(np.array(x).reshape((-1, 1)))


class col:
    ColRef = ColRef


def m_downcast_bound(x, py=None):
    return x


def m_extract(x, py=None):
    return x


def m_unwrap_or(x, d):
    return d if x is None else x


def m_clone(x):
    if isinstance(x, Mat):
        return x.own()
    if isinstance(x, list):
        return list(x)
    return x


m_to_owned = m_clone


def m_len(x):
    return len(x)


def m_is_empty(x):
    return len(x) == 0


def m_push(v, x):
    v.append(x)


m_push_back = m_push


def m_push_front(v, x):
    v.insert(0, x)


def m_pop(v):
    return v.pop()


m_pop_back = m_pop


def m_pop_front(v):
    return v.pop(0)


def m_truncate(v, n):
    while len(v) > n:
        v.pop()


def m_clear(v):
    v.clear()


def m_is_some(x):
    return x is not None


def m_is_none(x):
    return x is None


def m_iter(x):
    if isinstance(x, Rng):
        return x.tolist()
    if isinstance(x, dict):
        return list(x.items())
    return list(x)


m_into_iter = m_into_par_iter = m_par_iter = m_iter_mut = m_iter


def m_map(x, f):
    return [f(e) for e in m_iter(x)]


def m_reduce_with(x, f):
    r = x[0]
    for e in x[1:]:
        r = f(r, e)
    return r


def m_fold(x, z, f):
    r = z
    for e in m_iter(x):
        r = f(r, e)
    return r


def m_sum(x):
    r = 0
    for e in m_iter(x):
        r = r + e
    return r


def m_product(x):
    r = 1
    for e in m_iter(x):
        r = r * e
    return r


def m_enumerate(x):
    return list(enumerate(m_iter(x)))


def m_zip(x, y):
    return list(zip(m_iter(x), m_iter(y)))


def m_rev(x):
    return m_iter(x)[::-1]


def m_step_by(x, n):
    return m_iter(x)[::n]


def m_take(x, n):
    return m_iter(x)[:n]


def m_get(x, i, j=None):
    if isinstance(x, Mat):
        return x.get(i, j)
    return x[i] if i < len(x) else None


m_get_mut = m_get


def m_front(x):
    return x[0] if len(x) else None


def m_back(x):
    return x[-1] if len(x) else None


def m_call_method(obj, py, name, args, kw):
    return getattr(obj, name)(*args)


class Python:
    @staticmethod
    def with_gil(f):
        return f(None)


class PyList:
    @staticmethod
    def new(py, x):
        return x


class PyDict:
    @staticmethod
    def new(py):
        return {}


def np_array(x):
    return np.array(x)


def rs_iscomplex(x):
    return np.iscomplexobj(x)
