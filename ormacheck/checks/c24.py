"""Stacking and flattening: column-major layout (species s, point j at position s*m + j), mutually inverse, in every copy of the helpers and for numpy and jax arrays."""
from .common import *

MODS = ["ormatex_py.ode_utils", "ormatex_py.progression.rad_1d_2s"]


def run(ctx):
    top = 8 if ctx.deep else 5
    for mod in MODS:
        for n in range(1, top):
            for m in range(1, top):
                for lib in ("jnp", "np"):
                    u = vec("u", n * m, lib)
                    U = mat("w", m, n, lib)

                    def entry(I):
                        st, fl = need(I, mod, "stack_u"), need(I, mod, "flatten_u")
                        s, f = I.call(st, [u, n], {}), I.call(fl, [U], {})
                        # a row vector and a column are flattened states too
                        return {"stack": s, "flat": f, "fs": I.call(fl, [s], {}), "sf": I.call(st, [f, n], {}), "kw": I.call(st, [u], {"n": n})}

                    def ref(p):
                        o, w = obj(u), obj(U)
                        s = oarr([o[k * m + j] for j in range(m) for k in range(n)], (m, n))
                        f = oarr([w[j, k] for k in range(n) for j in range(m)], (n * m,))
                        return {"stack": s, "flat": f, "fs": o, "sf": w, "kw": s}
                    ctx.ob("%s %d species %d points %s" % (mod.split(".")[-1], n, m, lib), entry, ref, stubs=STUBS, setup=host(2, Field("F", 2)), key="layout " + mod.split(".")[-1])
    # a state that does not hold a whole number of points is an error
    for n, ln in ((2, 3), (3, 4), (3, 2)):
        for mod in MODS:
            ctx.ob("%s length %d is no multiple of %d" % (mod.split(".")[-1], ln, n), lambda I: I.call(need(I, mod, "stack_u"), [vec("u", ln), n], {}), lambda p: RAISES,
                   stubs=STUBS, setup=host(2, Field("F", 2)), key="ragged")
