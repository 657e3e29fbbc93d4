#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, output committed)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
GVN = "abstract interpretation of the source to value numbers (GVN with gated joins, trace partitioning), formulas compared with a reference"
RULE = "AST / call-graph rules over the whole package"


def p(id, title, statement, over, qtext, why, files, mech, tech=GVN, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note, na=na))


PY = "ormatex_py/"
EXPF, SYS, EXPL, WR = PY + "ode_exp.py", PY + "ode_sys.py", PY + "ode_explicit.py", PY + "integrate_wrapper.py"
KRY, ARN, PHI, PFD, LEJ, POL, UT = (PY + x for x in ("matexp_krylov.py", "arnoldi_jax.py", "matexp_phi.py", "matexp_phi_pfd_dict.py", "matexp_leja.py", "matexp_poly.py", "ode_utils.py"))
PR = PY + "progression/"

p("C01", "Exponential Rosenbrock and EPI steps are the published methods",
  "For every smooth vector field, start time, state, step size and tolerance, one step of each exponential Rosenbrock or EPI method returns exactly the published method's update, written with exact phi-functions, the exact Jacobian and the exact time derivative of the right-hand side. The time-derivative correction is applied whenever its size exceeds the user's tolerance, and the returned time and step size are the requested ones.",
  ["inputs", "configurations"], "all vector fields (opaque), t0, y0, dt, tolerance; methods exprb2, exprb3, pexprb4, epi2, epi3, and the dense and partial-fraction variants",
  "Convergence tests run a few systems at a few step sizes and accept an observed slope within a margin; a wrong coefficient in a rarely active term (time-derivative term, remainder term, start-up step) keeps the slope or is invisible on autonomous problems.",
  [EXPF], [("step kernels of the Rosenbrock/EPI integrator", EXPF), ("remainder of the linearisation", SYS)])
p("C02", "Split exponential Runge-Kutta steps are the published methods",
  "For every vector field with a user-supplied linear part, one step of each split method (first, second, third order; matrix-free and dense) returns the published exponential Runge-Kutta update for that linear part. Changing the step size between steps changes every matrix function that depends on it.",
  ["inputs", "histories", "configurations"], "all vector fields and linear parts (opaque), t0, y0, sequences of step sizes including repeated and changing ones",
  "The tests use constant step sizes and one linear part per system, so stale cached matrix functions and wrong abscissae of the time argument are invisible.",
  [EXPF], [("split step kernels and the dense cache", EXPF)])
p("C03", "The explicit Runge-Kutta step is the classical fourth-order method",
  "For every vector field, time, state and step size, the explicit integrator's step equals the classical fourth-order Runge-Kutta update, including the stage times of a non-autonomous right-hand side.",
  ["inputs"], "all vector fields of 1 to 3 components (opaque), all t0, y0, dt", "Tests sample autonomous systems only, on which stage times are not observable.",
  [EXPL], [("explicit step kernel", EXPL)])
p("C04", "Exponential integrators are exact on linear problems",
  "On y' = A y + b + c t the exponential methods that claim it reproduce the exact solution for every step size, up to the accuracy of the phi-function evaluation: those with a time-derivative correction for every A, b, c, the first-order split methods for c = 0, and the matrix-exponential method for b = c = 0.",
  ["inputs"], "all matrices A and vectors b, c, all t0, y0, dt, over two consecutive steps of different size",
  "Tests run one or two linear systems; exactness for every non-autonomous linear forcing is not sampled at all.",
  [EXPF], [("step kernels", EXPF), ("matrix-function plumbing", KRY)])
p("C05", "Integration returns the requested trajectory and calls the callbacks in order",
  "Integrating from t0 for n steps of size dt returns the n+1 states at t0, t0+dt, ..., t0+n dt, starting with the initial state, each state being one step of the chosen method from the previous one. Callbacks run exactly once per accepted step, before and after it, with the system and the current time and state, and their results are returned in order.",
  ["inputs", "histories", "configurations"], "all t0, dt, y0, vector fields; n in {0,1,2,3}; every method family and every combination of callbacks; delegated integrators get the same horizon",
  "Tests start at t0 = 0 and mostly pass no callbacks; wrong horizons at t0 != 0 and swallowed or reordered callbacks are not exercised.",
  [WR], [("stepping loop", WR), ("delegation to external integrators", WR)])
p("C06", "Methods and options are dispatched as documented",
  "Every advertised method can be constructed, stepped and reached from the top-level interface, declares its documented order, and an unknown method is an error. Every integrator's default construction works, and every user option (Krylov dimension, orthogonalisation depth, partial-fraction table, Leja tolerance, substepping, spectral bounds) reaches the numerical kernel it configures.",
  ["configurations", "inputs"], "every method name in the tables and in the documentation, every constructor default, every option value (symbolic)",
  "Tests name a few methods and options; an option that is parsed but ignored changes no tested result.",
  [WR, EXPF, EXPL], [("method tables", EXPF), ("dispatch", WR)])
p("C07", "Steps depend on the accepted history only",
  "A multistep method takes its first step with a one-step method and afterwards uses exactly the current and the previous accepted states and times, also when the step size changes. Computing a step and not accepting it leaves no trace in later results; accepting it moves the current time and state to the accepted ones.",
  ["histories", "inputs"], "all vector fields, all sequences of accepted and discarded steps up to length four with independent step sizes",
  "No test discards a step, and multistep tests use one constant step size.",
  [EXPF, SYS], [("history deques", SYS), ("accept/step", EXPF)])
p("C08", "Re-initialising an integrator is equivalent to a new one",
  "After setting a new initial condition, an integrator that has already been used returns the same results as a freshly constructed one with that initial condition.",
  ["histories", "inputs"], "all methods, all vector fields, all old and new initial times and states, over the following two steps",
  "Re-initialisation is not exercised by the tests at all; caches and start-up counters survive it silently.",
  [EXPF, SYS], [("reset of history and caches", SYS)])
p("C09", "Dense phi-function evaluators compute phi_k of the matrix",
  "For every square matrix and order k the dense evaluators return phi_0..phi_k of that matrix: the extension formula and the recurrence through the inverse exactly, the Taylor evaluator the truncated series of the stated degree, and scaling-and-squaring is exact whenever its initial evaluation is, for every number of squarings, with the truncation error controlled by the scaling.",
  ["inputs"], "all n x n matrices (n = 1..3, symbolic entries), k = 0..6 (0..4 for n > 1), bounded numbers of squarings",
  "Tests compare a few random matrices for small k with a loose tolerance; a wrong factorial or a wrong index in the high-k correction terms is off the sampled path.",
  [PHI], [("inverse, extension, Taylor and squaring evaluators", PHI)])
p("C10", "Matrix-function actions compute phi_k(Z)B",
  "The routines that apply phi_k to vectors compute phi_k(Z)B for every Z, every B of one or more columns and every k, with the shape of B; the partial-fraction variant computes the rational function defined by the selected table, with the phi_k weights, for every table.",
  ["inputs", "configurations"], "all Z (n = 1..3), all B with 1..3 columns or as a vector, k = 0..4, symbolic pole/residue tables",
  "Tests use single columns, k <= 2 and the shipped tables at a few points.",
  [PHI], [("extended-matrix action and partial-fraction action", PHI)])
p("C11", "The Arnoldi process returns a Krylov decomposition",
  "For every operator and non-zero start vector, the returned basis is orthonormal with the normalised start vector first, the projected matrix is the operator's compression onto it (upper Hessenberg), and A V = V H holds except in the last column. With truncated orthogonalisation every new vector is made orthogonal to the most recent basis vectors only, as many as the requested depth, and on breakdown the process stops with the invariant subspace found.",
  ["inputs", "configurations"], "all operators and vectors of dimension 2..4 (symbolic), all subspace sizes (also larger than the dimension), all orthogonalisation depths",
  "Tests check one random matrix with full orthogonalisation.",
  [ARN], [("Gram-Schmidt kernel and Arnoldi loop", ARN)])
p("C12", "Krylov evaluations scale, combine and degenerate correctly",
  "Matrix-free phi_k(dt A)v is exact when the Krylov space is the full space, is homogeneous in v, and is zero for v = 0; the combined evaluation returns sum_k phi_k(dt A) b_k for any number of vectors, any of which may be zero.",
  ["inputs"], "all operators, vectors, dt, k = 0..3, one to four vectors b_k, including zero vectors",
  "Tests use a fixed number of non-zero vectors.",
  [KRY, SYS], [("Krylov evaluation", KRY), ("augmented operator", SYS)])
p("C13", "Leja sequences are Leja sequences",
  "Generated point sequences start in the requested interval, stay in it, and every next point maximises the product of distances to the previous ones over the candidates; conjugate sequences contain each non-real point immediately followed by its conjugate (the last one may be cut off), sequences on an ellipse lie on it, and reordering a set returns a permutation of it. Padding prepends the requested number of points next to zero.",
  ["inputs", "configurations"], "all intervals, point counts and candidate sets handled by the generators",
  "Tests plot sequences or check one interval.",
  [LEJ, POL], [("Leja generators", LEJ), ("reordering", POL)])
p("C14", "Divided-difference routines compute the divided differences of exp",
  "Every divided-difference routine returns the Newton divided differences of exp(h (shift + scale x)) at the given nodes, for all nodes, shifts, scales and step fractions, and for the routines with an order argument those of the phi function of that order (the experimental routines in the transformed variable, to the accuracy of their series); the Taylor matrix exponential returns exp(shift) times the truncated Taylor series of exp(scale A).",
  ["inputs"], "all real and complex node sequences of length 1..5, all shifts, scales, step fractions and Taylor orders",
  "Tests compare two routines with each other on a handful of nodes with shift 0, scale 1 and h = 1.",
  [POL], [("divided differences", POL)])
p("C15", "Newton-Leja evaluation is the interpolation polynomial of the operator",
  "The Newton-Leja routines return the Newton polynomial on the nodes they report to have used, with the given coefficients, at the shifted and scaled operator applied to the vector, for real nodes and for conjugate pairs in real arithmetic; convergence is reported only when the estimated error is below the tolerance relative to the vector.",
  ["inputs"], "all operators and vectors (symbolic, dimension 1..3), all nodes, coefficients, shifts, scales, step fractions",
  "Tests compare with expm for a handful of operators at the shipped tolerance, which hides swapped nodes in terms that are already small.",
  [LEJ], [("Newton-form recurrences", LEJ)])
p("C16", "Leja substepping covers the whole step and accepts converged substeps only",
  "The substep sizes used by an accepted evaluation are positive and sum to exactly one, the state advanced is the one the last converged substep returned, a substep that did not converge never changes the state, and a step that cannot converge raises an error or is reported as not converged.",
  ["fault_sequences", "inputs"], "every sequence of converged/not converged outcomes of up to four substep attempts, every proposed substep size",
  "The tests never see a non-converged substep followed by a converged one.",
  [LEJ], [("substep controllers", LEJ)])
p("C17", "Operators agree with their dense form and are linear",
  "For every linear operator the product with a vector equals the dense form times the vector, is additive and homogeneous, composed and augmented operators act as the block matrices they document, and an operator without a dense form raises an error instead of returning a wrong matrix.",
  ["inputs"], "every operator class of the package with symbolic contents, all vectors, n = 1..3",
  "Each operator is tested with one matrix and one vector.",
  [SYS], [("operator classes", SYS)])
p("C18", "Jacobian, time derivative and cached right-hand side belong together",
  "The Jacobian operator, the time derivative and the cached right-hand side an integrator receives are all those of the right-hand side that it steps with, at the same time, state and user parameters, for the automatic, user-supplied and finite-difference variants.",
  ["inputs", "configurations"], "all vector fields, times, states, parameter values; all three Jacobian variants",
  "Tests use autonomous right-hand sides without parameters.",
  [SYS, EXPF], [("Jacobian operators", SYS)])
p("C19", "Callers' data and shared state are never modified",
  "No public function mutates arrays, lists or dictionaries it was given, module-level tables, class attributes or default arguments; integrators on different systems do not influence each other.",
  ["inputs", "histories", "schedules"], "every function of the package, every write site",
  "Tests do not compare their arguments before and after, and never interleave two integrators.",
  [PY], [("write sites", PY)], tech="effect analysis: abstract heap snapshots around every interface call of every obligation, write-site/alias summaries over the syntax tree and call graph, interleaving of two integrators by value numbering")
p("C20", "Code paths are complete: names resolve, results are returned and used",
  "Every code path of the public package refers to defined names and importable modules, returns the value its annotation or its other paths promise, and does not discard the result of a pure update.",
  ["programs", "inputs"], "every function and every path of the package",
  "Untested paths are exactly the ones where such mistakes survive.",
  [PY], [("all functions", PY)], tech="AST, scope, control-flow and liveness rules: names, attributes, signatures, return-path completeness, discarded pure results; library names resolved by a type checker (pyright)")
p("C21", "Degenerate inputs give defined results",
  "At zero states, zero vectors, zero time derivatives, zero step sizes, one-dimensional systems and single-point sequences the public routines return the mathematically correct finite result, never an undefined number (the evaluator through the inverse, which is documented to be undefined at singular arguments, announces it).",
  ["inputs"], "the degenerate loci of every public routine (zero vectors, zero state, zero matrix, n = 1)",
  "Random or physical test data never lie on these loci.",
  [KRY, ARN, SYS, EXPF, LEJ] , [("zero guards", KRY), ("finite-difference step selection", SYS), ("power iteration, intervals and sequences", LEJ)], tech="value numbering with undefined-number (IEEE nan/inf) propagation on the degenerate loci, compared with the exact limit values")
p("C22", "Decay chains conserve atoms and match their data",
  "For every decay library, the decay matrix built from it has the decay constant of each species on the diagonal and the branching-weighted production of each daughter off the diagonal, loses no atoms when all daughters are tracked, and the right-hand side and Jacobian of the decay system are this matrix. The analytic chain solution solves the chain's differential equations; the phase-transfer and reaction models return their documented rates, and a transfer between phases or tanks conserves atoms.",
  ["inputs", "configurations"], "all libraries of up to four nuclides with symbolic half-lives, decay constants and branching fractions, all orderings",
  "One shipped library is tested.",
  [PR + "bateman_sys.py"], [("matrix assembly", PR + "bateman_sys.py")])
p("C23", "Advection-diffusion-reaction discretisations assemble the documented weak form",
  "The element forms integrate the documented advection, diffusion and source terms with the documented signs, quadrature rules integrate polynomials to their stated degree, and the semi-discrete right-hand side is the inverse mass matrix times the residual.",
  ["inputs"], "all coefficients, all test/trial values (symbolic), all supported element orders",
  "Tests run one mesh and one velocity.",
  [PR + "advection_diffusion_1d.py", PR + "element_line_pp_nodal.py"], [("weak forms", PR + "advection_diffusion_1d.py"), ("nodal elements", PR + "element_line_pp_nodal.py")])
p("C24", "Stacking and flattening system states are inverse to each other",
  "Flattening a multi-species state and stacking it again returns the same state, for every number of species and points, and the species layout is the one the systems use.",
  ["inputs"], "all states with 1..3 species and 1..3 points (symbolic)", "One shape is tested, on which a transposed layout can be invisible.",
  [UT], [("reshape helpers", UT)])
p("C25", "The rational-approximation tables approximate their function on the negative axis",
  "Every shipped pole/residue table has equally many poles and residues, distinct poles off the negative real axis, and a real constant. The tables named for a Pade approximant (IE, CN, pade_m_n) define that approximant at every point of the negative real axis, the CRAM tables (Python and native) stay within the best-approximation error of their degree from exp at every point of it, and the real-pole tables approximate phi_1.",
  ["inputs", "configurations"], "every table in the package; the whole half line, by an enclosure on a partition of it (not by samples)",
  "Tests evaluate at most one table on one matrix.",
  [PFD], [("tables", PFD), ("native CRAM table", "src/matexp_cauchy.rs")], tech="constant folding of the tables from the source and Taylor-model interval enclosure of r - f over the half line (no execution)")
p("C26", "Model Jacobians are the derivatives of the model right-hand sides",
  "For every model system shipped with the package that supplies its own Jacobian or linear part, the supplied operator equals the exact derivative of (the linear part of) its right-hand side.",
  ["inputs"], "all parameter values and states of each model", "Tests check convergence, which survives inexact Jacobians for some methods.",
  [PR], [("model systems", PR)])
p("C27", "Finite-difference Jacobians converge to the directional derivative",
  "The finite-difference operator returns the directional derivative and the time derivative exactly for affine right-hand sides, for every state (also the zero state and large states), direction, scale, shift and increment, and in general the forward difference quotient with an increment relative to the size of the state (absolute at the zero state); the default increment is neither visible in first-order accuracy nor lost to cancellation.",
  ["inputs"], "all affine vector fields, states, directions, scales, shifts, increments; all vector fields (opaque) for the difference quotient", "Tests use one state and one direction.",
  [SYS], [("finite-difference operator", SYS)])
RS = "src/"
NAT = "the Rust sources are parsed and lowered to the abstract interpreter's language; formulas extracted as value numbers and compared with a reference (no compilation, no execution)"
p("C28", "Native integrators are the published methods",
  "For every system, state and step size the native (Rust) integrators take the steps of their published methods: Runge-Kutta of order 1 to 4, the implicit equations of backward Euler, BDF2 and Crank-Nicolson (residual, shifted Jacobian and start value handed to Newton's method), and the exponential methods epi2, exprb2, exprb3 and epi3 with the time-derivative correction. A proposed step changes nothing until it is accepted, and a re-initialised integrator behaves like a new one. Newton's method returns the root of an affine system, and stops only when it has converged.",
  ["inputs", "histories", "configurations"], "all vector fields (opaque; autonomous and time-dependent), states, steps; histories of proposed, accepted, repeated and re-initialised steps",
  "The native tests check a slope on an autonomous problem, and are not part of the Python tests.",
  [RS + f for f in ("ode_rk.rs", "ode_bdf.rs", "ode_epirk.rs", "newton.rs")], [("native steppers", RS + "ode_rk.rs"), ("Newton's method", RS + "newton.rs"), ("exponential steppers", RS + "ode_epirk.rs")], tech=NAT)
p("C29", "Native matrix functions and operators compute what they are named after",
  "For every operator, vector and scale the native Arnoldi iteration returns an orthonormal basis and the Hessenberg relation (trimmed at an invariant subspace), the Krylov actions equal exp(tA)v, phi_k(tA)v and sums of phi-actions when the space is exhausted, the dense exponential equals exp(tA) to rounding in every norm regime, phi_k comes from the extension or recurrence formulas, and the contour/partial-fraction evaluator is the stated rational function. The shifted, extended and finite-difference operators apply the matrices they stand for.",
  ["inputs", "configurations"], "all operators of dimension 1 to 3 (opaque entries), start vectors, scales, windows, phi orders 0 to 3; all norm regimes of the dense exponential",
  "The native tests compare a handful of random matrices, and are not part of the Python tests.",
  [RS + f for f in ("arnoldi.rs", "matexp_krylov.rs", "matexp_pade.rs", "matexp_cauchy.rs", "ode_sys.rs")], [("Arnoldi", RS + "arnoldi.rs"), ("Krylov actions", RS + "matexp_krylov.rs"), ("dense exponential", RS + "matexp_pade.rs"), ("operators", RS + "ode_sys.rs")], tech=NAT)
p("C30", "The native methods behave like the Python ones through the integrate entry point",
  "Called from Python, every \"_rs\" method selects the native integrator, order, exponential evaluator and Krylov settings its name and options stand for, returns the states and times of t0, t0+dt, ... (thinned by osteps, the final one always last) as numpy arrays of one state per row, and the native phi_k, Arnoldi and dense evaluators return the same functions as their Python counterparts. The user's right-hand side and Jacobian are evaluated at the integrator's own times and states.",
  ["inputs", "configurations"], "all systems (opaque), states, steps; all native method names, evaluators and options",
  "The native extension is not built in the test environment: its tests are skipped.",
  [RS + "ormatex_rspy.rs", WR, SYS, EXPF], [("binding", RS + "ormatex_rspy.rs"), ("entry point", WR), ("numpy system wrapper", SYS)], tech=NAT)

# ------------------------------------------------------------------ not applicable by nature
p("N01", "Krylov approximations are within the requested tolerance",
  "For every operator and vector the truncated Krylov evaluation differs from the exact matrix function by at most the tolerance.",
  ["inputs"], "all operators", "Depends on the spectrum of each operator.", [KRY], [("Krylov evaluation", KRY)],
  na="the error depends on the spectrum of a runtime operator and on the fixed subspace size chosen by the user; the code has no a-posteriori estimate to reason about, so no sound static bound exists")
p("N02", "The power iteration encloses the operator's spectrum",
  "The eigenvalue bound computed by the power iteration encloses the spectrum of every operator, so the Leja interval does.",
  ["inputs"], "all operators", "Tests use operators with a dominant real eigenvalue.", [LEJ], [("power iteration", LEJ)],
  na="false in general (power iteration from a finite number of iterations and a fixed start vector); true for a runtime operator only under spectral-gap hypotheses that cannot be read off the source")
p("N03", "Floating-point convergence reaches the theoretical order",
  "Halving the step divides the global error by two to the method's order in double precision on every smooth problem.",
  ["inputs"], "all problems and step sizes", "Sampled by tests.", [EXPF], [("all steppers", EXPF)],
  na="observed floating-point slopes are runtime quantities; the static part (the exact step formulas that determine the order) is decided by C01-C04")
p("N04", "Native and Python integrators agree numerically",
  "The native and the Python implementation of the same method return the same trajectory up to rounding for every system.",
  ["inputs"], "all systems", "No test compares the two.", ["src/", EXPF], [("both implementations", "src/")],
  na="the native extension is compiled Rust calling an external linear-algebra crate; agreement up to rounding quantifies over runtime floating-point behaviour of two different matrix-function implementations")


def main():
    checks, nas = [], []
    with open(os.path.join(V, "properties.jsonl"), "w") as fp:
        for q in P:
            fp.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                                 "quantifier": {"over": q["over"], "text": q["qtext"]}, "why_tests_cant": q["why"],
                                 "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}) + "\n")
            have = os.path.isfile(os.path.join(V, "ormacheck", "checks", q["id"].lower() + ".py"))
            if q["na"] or not have:
                nas.append({"property": q["id"], "reason": q["na"] or "check not built yet"})
                continue
            cmd = "python3-vt -m ormacheck.run --property %s" % q["id"]
            checks.append({"property": q["id"], "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough", "technique": q["tech"], "level": "other",
                           "level_note": q["note"] or NOTE})
    m = {"version": 1, "setup_cmd": "python3-vt -m compileall -q ormacheck", "checks": checks, "not_applicable": nas,
         "notes": "No hooks in /repo. Checks analyse the source under /repo on every run; nothing of it is imported or executed."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
        json.dump(m, fp, indent=1)
        fp.write("\n")


NOTE = ("Decides the stated formula or rule for every input of the analysed shapes from the current source: value numbers equal to the reference's are proved equal over the reals; "
        "otherwise the two extracted formulas are compared by randomised identity testing. Trusts the library models (jax, numpy, equinox) and exact real arithmetic; "
        "constructs outside the analysed fragment are reported as undecided in the evidence, never as violations.")
if __name__ == "__main__":
    main()
