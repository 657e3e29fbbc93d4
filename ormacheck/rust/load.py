"""Stub modules for the abstract interpreter: the lowered native crate and the faer model."""
import os

from . import front

HERE = os.path.dirname(os.path.abspath(__file__))
# module -> modules whose names are visible in it
MODS = {
    "ode_sys": [], "ode_utils": [], "mat_utils": [],
    "arnoldi": [], "newton": ["ode_sys"], "matexp_pade": [],
    "matexp_cauchy": ["mat_utils", "matexp_pade"],
    "matexp_krylov": ["arnoldi", "ode_sys", "matexp_pade"],
    "ode_rk": ["ode_sys"], "ode_bdf": ["ode_sys", "newton"], "ode_epirk": ["matexp_krylov", "ode_sys"],
    "ormatex_rspy": ["ode_sys", "arnoldi", "ode_bdf", "ode_rk", "ode_epirk", "matexp_krylov", "matexp_pade", "matexp_cauchy"],
}
USER = '''
from rs_shim import *
from ode_sys import *
from orma_host import opaque_F, opaque_J

class RsJac(LinOp):
    def __init__(self, m):
        self.m = m
    def nrows(self):
        return self.m.nrows()
    def ncols(self):
        return self.m.ncols()
    def apply(self, out, rhs, par, stack):
        out.copy_from(self.m * rhs)

class RsSys(OdeSys):
    def frhs(self, t, x):
        return Mat(opaque_F(t, x.a().reshape(-1)).reshape((-1, 1)))
    def fjac(self, t, x):
        return RsJac(Mat(opaque_J(t, x.a().reshape(-1))))
'''
_cache = {}


def natives(root):
    """{module: (path, python source, line map)}; a module outside the Rust subset is left out"""
    if root in _cache:
        return _cache[root]
    out, bad = {}, {}
    src = open(os.path.join(HERE, "shim.py"), encoding="utf-8").read()
    out["rs_shim"] = ("<model of faer>", src)
    # visibility of sibling modules follows the crate's own `use` declarations
    for m in MODS:
        p = os.path.join(root, "src", m + ".rs")
        try:
            text, lmap = front.translate(p, deps_of(p, m))
            out[m] = (p, text, lmap)
        except (front.RustSyntax, OSError) as e:
            bad[m] = str(e)
    out["rs_user"] = ("<user system>", USER)
    _cache[root] = out, bad
    return out, bad


def deps_of(p, m):
    items = front.Parser(open(p, encoding="utf-8").read(), p).items()
    deps = []
    for it in items:
        if it.kind == "use":
            toks = it.toks
            if "crate" in toks:
                for i, t in enumerate(toks):
                    if t in MODS and t != m and t not in deps:
                        deps.append(t)
    return deps or MODS[m]
