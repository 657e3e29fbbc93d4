"""Step formula of the explicit Runge-Kutta integrator."""
from .common import *


def run(ctx):
    for n in (1, 2, 3):
        F = Field("F", n)
        t0, h1, h2 = S("t0"), S("h1", range=(0.05, 0.5)), S("h2", range=(0.05, 0.5))
        y0 = vec("y", n)

        def entry(I):
            integ, s = make(I, EXPLICIT, "RKIntegrator", "UserSys", t0, y0, "rk4")
            return steps(I, integ, [h1, h2])

        def ref(p):
            y1 = rk4_ref(F, t0, y0, h1)
            y2 = rk4_ref(F, t0 + h1, y1, h2)
            return [tri(t0 + h1, h1, y1), tri(t0 + h1 + h2, h2, y2)]
        ctx.ob("rk4 n=%d" % n, entry, ref, STEP_CONTRACTS, host(n, F), stubs=STUBS, key="formula:rk4")
