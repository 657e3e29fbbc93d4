"""Model of the finite-element library the discretisations are written against (scikit-fem semantics: A_ij = int form(u_j, v_i, w) dx,
right-hand side b_i = int form(v_i, w) dx, enforce = unit rows), with symbolic basis functions, gradients, weights, points, cell sizes and normals."""
from .common import *

ADV, NOD = "ormatex_py.progression.advection_diffusion_1d", "ormatex_py.progression.element_line_pp_nodal"

SKFEM = '''
from orma_fem import assemble_bilinear, assemble_linear, enforce, make_interp

class Form:
    def __init__(self, form=None, **kw):
        self.form = form
    def __call__(self, *args):
        return self.form(*args)

class BilinearForm(Form):
    def assemble(self, ubasis, vbasis=None, **kw):
        return assemble_bilinear(self.form, ubasis, vbasis, kw)

class LinearForm(Form):
    def assemble(self, ubasis, **kw):
        return assemble_linear(self.form, ubasis, kw)

class Functional(Form):
    pass

def asm(form, *args, **kw):
    return form.assemble(*args, **kw)

class Element:
    def __init__(self):
        pass

class ElementLineP0(Element):
    order = 0
class ElementLineP1(Element):
    order = 1
class ElementLineP2(Element):
    order = 2
class ElementH1(Element):
    pass
class Refdom:
    pass
class RefLine(Refdom):
    pass

class DofsView:
    def __init__(self, d):
        self.d = d
    def flatten(self):
        return self.d
    def all(self):
        return self.d

class Basis:
    kind = "phi"
    def __init__(self, mesh, elem, mapping=None, intorder=None, elements=None, quadrature=None, dofs=None, disable_doflocs=False):
        self.mesh = mesh
        self.elem = elem
        self.quadrature = quadrature
        self.intorder = intorder
        self.doflocs = mesh.doflocs
        self.N = mesh.ndof
    def get_dofs(self, *a, **kw):
        return DofsView(self.mesh.boundary_dofs)
    def interpolate(self, v):
        return make_interp(self, v)
CellBasis = Basis
InteriorBasis = Basis

class FacetBasis(Basis):
    kind = "phf"
class BoundaryFacetBasis(FacetBasis):
    pass

class Mesh:
    def __init__(self, ndof, doflocs, boundaries, boundary_dofs):
        self.ndof = ndof
        self.doflocs = doflocs
        self.boundaries = boundaries
        self.boundary_dofs = boundary_dofs
'''
HELPERS = '''
from orma_fem import dot, grad, div, dd
'''
STB = dict(STUBS, **{"skfem": ("<skfem>", SKFEM), "skfem.helpers": ("<skfem.helpers>", HELPERS), "skfem.element.element_h1": ("<skfem>", "from skfem import ElementH1"),
                     "skfem.element": ("<skfem>", "from skfem import *\nfrom skfem import ElementH1, ElementLineP1, ElementLineP2"),
                     "skfem.refdom": ("<skfem>", "from skfem import Refdom, RefLine"), "orma_fem_user": ("<user>", "import skfem as fem\n")})
NQ = 2


def q3(name):
    """a vector field on one cell: (dim 1, 1 cell, quadrature points)"""
    return Arr(oarr([S("%s%d" % (name, q)) for q in range(NQ)], (1, 1, NQ)), F64, "np")


def q2(name, **kw):
    return Arr(oarr([S("%s%d" % (name, q), **kw) for q in range(NQ)], (1, NQ)), F64, "np")


def field(name):
    g = q3("d" + name)
    v = q2(name)
    return FieldArr(v.a, {"grad": g, "value": Arr(v.a, F64, "np")})


def qp(kind):
    """the geometric quantities at the quadrature points of one cell (or facet)"""
    k = kind
    return {"x": q3("x" + k), "h": q2("h" + k, positive=True, range=(0.2, 0.9)), "n": q3("n" + k), "dx": q2("wt" + k, positive=True, range=(0.2, 0.9))}


def wdict(kind, extra):
    g = qp(kind)
    d = {"x": g["x"], "h": g["h"]}
    if kind != "phi":
        d["n"] = g["n"]
    d.update(extra)
    return WDict(d)


def shapefn(kind, i):
    return field("%s%d_" % (kind, i))


def bcast(I, r, n=NQ):
    o = obj(r)
    if o.shape in ((1, n), (n,), (1,), (), (1, 1)):
        return list(np.broadcast_to(o.reshape(-1), (n,)))
    raise Unsupported("form value of shape %s" % (o.shape,))


def integrate(I, vals, kind):
    s = 0
    for v, w in zip(vals, obj(qp(kind)["dx"]).reshape(-1)):
        s = terms.add(s, terms.mul(v, w))
    return s


def fem_host(extra=None):
    def inst(I):
        m = ModuleVal("orma_fem", None, None)

        def kind_of(I, b):
            return I.getattr(b, "kind"), I.getattr(b, "N")

        def bil(I, a, k):
            form, ub, vb, kw = a
            if vb is not None and vb is not ub:
                raise Unsupported("two bases")
            kind, n = kind_of(I, ub)
            I.events.append(("assemble", kind))
            w = wdict(kind, kw)
            out = zeros(n, n)
            for j in range(n):
                for i in range(n):
                    out[i, j] = integrate(I, bcast(I, I.call(form, [shapefn(kind, j), shapefn(kind, i), w], {})), kind)
            return Arr(out, F64, "np")

        def lin(I, a, k):
            form, ub, kw = a
            kind, n = kind_of(I, ub)
            w = wdict(kind, kw)
            return Arr(oarr([integrate(I, bcast(I, I.call(form, [shapefn(kind, i), w], {})), kind) for i in range(n)], (n,)), F64, "np")

        def enforce(I, a, k):
            names = ["A", "b", "x", "I", "D", "diag", "overwrite"]
            v = dict(zip(names, a))
            v.update(k)
            A, b, x, D = v["A"], v.get("b"), v.get("x"), v.get("D")
            if v.get("I") is not None or D is None:
                raise Unsupported("enforce with I")
            D = [int(I.concretize(d)) for d in obj(D).reshape(-1)]
            diag = v.get("diag", 1)
            if not v.get("overwrite", False):
                A = Arr(A.a.copy(), A.dt, A.lib)
                b = Arr(b.a.copy(), b.dt, b.lib) if b is not None else None
            for d in D:
                A.a[d, :] = 0
                A.a[d, d] = diag
                if b is not None:
                    b.a[d] = obj(x)[d] if x is not None else 0
            return (A, b) if b is not None else A

        def dotp(I, a, k):
            u, v = obj(a[0]), obj(a[1])
            if u.ndim < 1 or v.ndim < 1 or u.shape[0] != v.shape[0] and 1 not in (u.shape[0], v.shape[0]):
                raise I.err("ValueError", "dot of shapes %s %s" % (u.shape, v.shape))
            u, v = np.broadcast_arrays(u, v) if u.ndim == v.ndim else (u, v)
            out = None
            for i in range(u.shape[0]):
                r = I.lib.broadcast2(terms.mul, Arr(u[i], F64, "np"), Arr(v[i], F64, "np"))
                out = r if out is None else I.lib.broadcast2(terms.add, Arr(out, F64, "np"), Arr(r, F64, "np"))
            return Arr(np.asarray(out, dtype=object), F64, "np")

        def gradf(I, a, k):
            if isinstance(a[0], FieldArr):
                return a[0].fields["grad"]
            raise Unsupported("gradient of a computed field")

        def interp_(I, a, k):
            b, v = a
            kind, n = kind_of(I, b)
            o = obj(v).reshape(-1)
            if len(o) != n:
                raise I.err("ValueError", "interpolate: %d values for %d dofs" % (len(o), n))
            val, gr = [], []
            for q in range(NQ):
                s = g = 0
                for i in range(n):
                    f = shapefn(kind, i)
                    s = terms.add(s, terms.mul(o[i], obj(f).reshape(-1)[q]))
                    g = terms.add(g, terms.mul(o[i], obj(f.fields["grad"]).reshape(-1)[q]))
                val.append(s)
                gr.append(g)
            return FieldArr(oarr(val, (1, NQ)), {"grad": Arr(oarr(gr, (1, 1, NQ)), F64, "np"), "value": Arr(oarr(val, (1, NQ)), F64, "np")})

        def no(name):
            def f(I, a, k):
                raise Unsupported("skfem helper " + name)
            return f
        m.ns.update(assemble_bilinear=HostFn("assemble", bil), assemble_linear=HostFn("assemble", lin), enforce=HostFn("enforce", enforce),
                    make_interp=HostFn("interpolate", interp_), dot=HostFn("dot", dotp), grad=HostFn("grad", gradf), div=HostFn("div", no("div")), dd=HostFn("dd", no("dd")))
        m.env = Env(None)
        m.env.vars = m.ns
        m.loaded = True
        I.modules["orma_fem"] = m
        if extra:
            extra(I)
    return inst


def setup(n=2, extra=None):
    return host(n, Field("F", n), extra=fem_host(extra))


def con_src(I, b):
    x = b.get("x")
    if x is None:
        raise I.err("TypeError", "src_f without x")
    o = obj(x)
    return Arr(oarr([terms.app("src", 0, (z,)) for z in o[0].reshape(-1)], o.shape[1:]), F64, "np")


def con_vel(I, b):
    o, v = obj(b["x"]), b["vel"]
    return Arr(oarr([terms.app("vel", 0, (z, v)) for z in o.reshape(-1)], o.shape), F64, "np")


FCON = {ADV + ".src_f": con_src, ADV + ".vel_f": con_vel}
