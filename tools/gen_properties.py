"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
S = "rkstiff/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

ALL = ["etd4.py", "etd5.py", "etd34.py", "etd35.py", "if4.py", "if34.py", "if45dp.py"]
AS = ["solveras.py", "etd34.py", "etd35.py", "if34.py", "if45dp.py"]

p("C01", "ETD steps equal the published scheme with exact psi functions",
  "For every one-dimensional (diagonal) linear operator, one step of ETD4, ETD5, ETD34 or ETD35 returns the update of the published exponential Runge-Kutta scheme evaluated with the exact psi functions, up to rounding. This holds mode by mode for real and complex eigenvalues of any magnitude: zero, tiny, around the series/direct switch-over, of order one and very stiff, mixed in one operator.",
  ["inputs", "configurations"],
  "all diagonal operators (real, complex, integer), states, step sizes h >= 0 and nonlinear functions; default and non-default coefficient settings",
  "Tests use a handful of operators and loose tolerances on the final solution; a wrong weight or a badly conditioned coefficient in one magnitude band of h*lambda survives them.",
  ["etd.py", "etd4.py", "etd5.py", "etd34.py", "etd35.py"],
  [("psi1/psi2/psi3 and contour averaging around small modes", "etd.py"), ("stage and weight coefficients per solver", "etd35.py")],
  ["step(u, h)", "arguments and values of nl_func"])
p("C02", "IF steps equal the published Lawson / Dormand-Prince scheme",
  "For every linear operator, one step of IF4, IF34 (fourth order Lawson Runge-Kutta) or IF45DP (integrating-factor Dormand-Prince) returns the update of the published scheme with exact exponentials, up to rounding. The embedded error estimate that drives IF34 and IF45DP is that of the published pair.",
  ["inputs", "configurations"],
  "all diagonal operators (and full matrices for IF4/IF34), states, step sizes and nonlinear functions",
  "Tests check global errors of a few problems; an error in a single exponential factor or tableau entry can hide below their tolerance.",
  ["if4.py", "if34.py", "if45dp.py"],
  [("exponential factors and Runge-Kutta weights", "if45dp.py"), ("stages", "if4.py")],
  ["step(u, h)", "h returned by adaptive step"])
p("C03", "Diagonal, full-matrix and diagonalized forms of one operator agree",
  "Giving the same linear operator as a 1-D diagonal, as the corresponding 2-D diagonal matrix, as the same operator in another basis, or with diagonalize=True yields the same new state up to rounding (transformed to that basis), for constant and adaptive solvers. For adaptive solvers the forms written in the same basis also accept the same step size and suggest the same next one.",
  ["inputs", "configurations"],
  "all operators for which the form is documented to apply (for full-matrix ETD: spectrum of h*L enclosed by the configured contour), all supported solvers, states, h",
  "Tests run each form on its own hand-picked problem and rarely compare forms, never the step sizes chosen.",
  ["etd4.py", "etd5.py", "etd34.py", "etd35.py", "if4.py", "if34.py"],
  [("one strategy class per operator form", "etd34.py"), ("eigen-decomposition", "if34.py"), ("contour integral of resolvents", "etd5.py")],
  ["step(u, h)", "evolve(...)"])
p("C04", "The linear part is propagated exactly for any step size",
  "When the nonlinear term is zero, every solver propagates the state by the exact exponential of the elapsed time times L, for any step size and any stiffness, in one step or many: decaying modes decay at their exact rate, purely oscillating modes keep their modulus, and zero modes stay put. Adaptive solvers complete such runs and reach the final time.",
  ["inputs", "histories"],
  "all operators and forms, all solvers, all h and step sequences, all initial states including zero",
  "Tests check one or two operators and step sizes; exactness for every stiffness is what makes the methods useful.",
  ALL + ["solveras.py", "solvercs.py"],
  [("exponential of h*L as the propagator", "if4.py"), ("zero error estimate handling", "solveras.py")],
  ["step", "evolve", "u", "t"])
p("C05", "Constant-step solutions converge to the true solution at full order",
  "As the step size is refined, the constant-step result converges to the exact solution of dU/dt = L U + N(U): with fourth order for ETD4 and IF4, and for ETD5 with fifth order where L commutes with the Jacobian of N (such as scalar problems) and at least fourth otherwise, in every supported operator form. The same holds for the adaptive solvers' steps when driven at fixed h (fourth order for ETD34 and IF34, ETD35 as ETD5, fifth for IF45DP).",
  ["inputs", "configurations"],
  "all smooth nonlinear terms and operators in the asymptotic regime; real and complex, diagonal and full",
  "Tests measure order on a few scalar or PDE problems with wide acceptance bands.",
  ALL,
  [("order conditions of the tableaux", "etd5.py")],
  ["evolve(...)", "step(...)"])
p("C06", "An adaptive step is accepted exactly when its error estimate meets the tolerance",
  "Every step an adaptive solver returns satisfies safety*(epsilon*|u_new|/|err|)^(1/q) >= 1, where err is the embedded error estimate of the step actually taken and both norms run over the entries whose magnitude exceeds adapt_cutoff times the largest (q = 4 for ETD34, ETD35, IF34; 5 for IF45DP). Conversely a proposed step that meets this is taken as proposed, including when the estimate is exactly zero.",
  ["inputs", "histories", "configurations"],
  "all problems, proposed step sizes, tolerances and cutoffs, after any history of accepted and rejected steps",
  "Tests use mocked estimates or single runs; they never recompute the estimate of the accepted step independently.",
  AS,
  [("computation of the scaling factor", "solveras.py"), ("embedded estimates", "if45dp.py")],
  ["step(u, h_suggest)", "evolve(...)", "config"])
p("C07", "Step-size control obeys its factors and always terminates",
  "A rejected attempt is retried with a step scaled by the estimated factor clamped to [0.25, decr_f] (0.25 when the estimate is not finite), an accepted step suggests the factor clamped to at most 4 when it exceeds incr_f and the same step otherwise. Every call ends after a bounded number of attempts, either with a positive step no larger than proposed or with MaxLoopsExceeded / MinimumStepReached, never by hanging or by returning an unaccepted state.",
  ["inputs", "configurations", "fault_sequences"],
  "all problems including those with NaN/Inf/blow-up/discontinuous nonlinear terms, all configurations and proposed steps",
  "Tests drive single branches with mocks; combinations of clamps, floors and non-finite estimates over multi-attempt steps are not covered.",
  AS,
  [("reject/accept rules and loop limits", "solveras.py")],
  ["step(u, h_suggest)", "attempt sizes seen through nl_func", "SolverError subclasses"])
p("C08", "Adaptive evolve covers exactly [t0, tf] and records what it did",
  "An adaptive evolve starts at t0, advances by the accepted steps in strictly increasing time without passing tf beyond rounding, ends at tf, and returns the state there. The stored times and states are the initial pair and every store_freq-th accepted step in order, each state being the one reached at its time, and nothing is stored with store_data=False.",
  ["inputs", "configurations", "histories"],
  "all problems, intervals (including negative and tf = 0), h_init (None, tiny, larger than the interval), store_freq and run lengths",
  "Tests check a few intervals; clamping, remainder steps and storage cadence interact with the step-size history.",
  AS,
  [("evolve loop and final-step clamping", "solveras.py")],
  ["t", "u", "return value of evolve"])
p("C09", "Constant-step evolve takes the right steps and records them",
  "A constant-step evolve with step h takes ceil((tf-t0)/h) steps, counted with tolerance for rounding, so that the last time is tf when h divides the interval and is less than one h beyond it otherwise; it returns the state after the last step and rejects with ValueError an h larger than the interval. The stored times are t0 + k*h for k a multiple of store_freq with the states reached there, and nothing is stored with store_data=False.",
  ["inputs", "configurations"],
  "all intervals (negative, offset, tf = 0), step sizes (divisors computed in floating point or not), store_freq, run lengths up to many thousand steps",
  "Tests use three or four steps; rounding of t0 + k*h against tf only bites for particular values and long runs.",
  ["solvercs.py"],
  [("evolve loop", "solvercs.py")],
  ["t", "u", "return value of evolve", "number of nl_func calls"])
p("C10", "evolve and reset leave no trace of earlier use",
  "The outcome of evolve, or of stepping after reset, depends only on the operator, nonlinear function, configuration and arguments: whatever was done with the solver before (runs with other states, step sizes, tolerances, failed or interrupted runs) it equals, bit for bit, that of a newly built solver. reset also empties the stored times and states.",
  ["histories", "fault_sequences"],
  "all sequences of evolve, step, reset, configuration changes and failures before the observed run; all solvers and operator forms",
  "Tests reuse a solver at most twice in a fixed pattern; leakage of cached stages, coefficients or flags depends on the history.",
  ALL + ["solveras.py", "solvercs.py"],
  [("reset of cached stages, coefficients and flags", "solveras.py")],
  ["evolve", "step", "reset", "t", "u"],
  [("cached coefficients and last step size", "valid for one h only", "etd4.py"), ("cached last nonlinear evaluation", "valid for the state just returned", "if45dp.py")])
p("C11", "Reuse of stages and coefficients between steps is invisible",
  "When each step starts from the state the previous one returned, the result of a sequence of steps, with any pattern of repeated or changing step sizes and of rejected attempts in between, equals the result of taking every step on a newly built solver, up to rounding. evolve equals the same loop of steps written by hand.",
  ["histories", "inputs"],
  "all sequences of step sizes (repeated, alternating, nearly equal) and of accept/reject outcomes; all solvers and operator forms",
  "Tests check that caches exist, not that every accept/reject/step-size history leaves them consistent.",
  ALL + ["solveras.py"],
  [("first-same-as-last reuse of the last nonlinear evaluation", "etd34.py"), ("coefficients recomputed only when h changes", "if34.py")],
  ["step(u, h) sequences", "evolve"])
p("C12", "A step interrupted by an exception can be repeated",
  "If a step is interrupted by an exception (raised by the nonlinear function at any call, or while coefficients are computed), the exception reaches the caller unchanged and repeating the step from the same state gives the result an uninterrupted solver gives. The same holds for an evolve that is interrupted and run again, and for a step repeated with a smaller size after MaxLoopsExceeded or MinimumStepReached.",
  ["fault_sequences", "crash_points"],
  "every call position of the nonlinear function as fault point, first or later steps, all solvers and operator forms, repeated faults",
  "Tests never raise from inside a step.",
  ALL + ["solveras.py", "solvercs.py"],
  [("order of cache updates within a step", "etd34.py"), ("step size recorded after coefficients are complete", "if45dp.py")],
  ["step", "evolve", "exceptions seen by the caller"])
p("C13", "Inputs are never modified and results never change afterwards",
  "No solver, grid, transform, derivative or model function modifies an array or configuration passed to it. States returned by step and evolve and the lists of times and snapshots stored during evolve keep their values whatever the solver is used for later, including a later evolve or reset.",
  ["inputs", "histories"],
  "all public functions and solvers, all array layouts and dtypes, any later use of the same solver",
  "Tests compare final values only; an in-place update shows only for particular dtypes, layouts or later calls.",
  ALL + ["solveras.py", "solvercs.py", "grids.py", "transforms.py", "derivatives.py", "models.py"],
  [("new arrays for each stage", "etd4.py"), ("copies handed out by the transform", "transforms.py")],
  ["arrays passed in (write-protected and fingerprinted)", "arrays returned and stored (fingerprinted)"])
p("C14", "Solver instances do not influence one another",
  "Any number of solver objects, of the same or different classes, sharing operator, state or nonlinear-function objects, used interleaved in any order or concurrently from several threads (one thread per solver), each give exactly the result they give alone. In particular changing the configuration of one solver built without an explicit configuration does not affect any other.",
  ["schedules", "histories", "configurations"],
  "all interleavings of steps of several solvers, at nonlinear-function granularity for threads; all classes and operator forms",
  "Tests run one solver at a time.",
  ALL + ["etd.py", "solveras.py", "solvercs.py", "solver.py"],
  [("per-instance state and default configuration", "solveras.py")],
  ["results of step/evolve per instance", "config of each instance"])
p("C15", "Configuration constraints are enforced and settings take effect",
  "SolverConfig and ETDConfig accept exactly the documented ranges (epsilon, minh, contour_radius > 0; incr_f > 1; decr_f, adapt_cutoff < 1; safety_f <= 1; 0 < modecutoff <= 1; contour_points an int > 1) at construction and at assignment, raise ValueError or TypeError otherwise including for NaN, and keep the previous value when an assignment is refused. A value assigned to an adaptive solver's configuration is used by its next step.",
  ["inputs", "configurations", "histories"],
  "all finite, infinite and NaN values, all sequences of accepted and refused assignments, changes before and between steps",
  "Tests check one bad value per field and do not check that refused assignments leave the old value or that settings are honoured later.",
  ["solveras.py", "etd.py", "etd34.py", "etd35.py", "if34.py", "if45dp.py"],
  [("validating property setters", "solveras.py"), ("validating property setters", "etd.py")],
  ["SolverConfig / ETDConfig attributes", "step results"])
p("C16", "ETD results do not depend on how the psi functions are evaluated",
  "For a diagonal operator the ETD result is independent, up to the accuracy of the chosen quadrature, of modecutoff, contour_points and contour_radius, and is continuous across the modecutoff switch; for a full operator it is independent of contour_points and contour_radius as long as the contour encloses the spectrum of h*L. The public psi functions equal their definitions away from zero for real and complex arguments of any shape.",
  ["inputs", "configurations"],
  "all admissible settings with adequate quadrature, all operators, all ETD solvers and forms",
  "Tests use one or two settings each and do not compare across settings.",
  ["etd.py", "etd4.py", "etd5.py", "etd34.py", "etd35.py"],
  [("contour averaging and the modecutoff switch", "etd.py")],
  ["step(u, h)", "psi1, psi2, psi3"])
p("C17", "Shifting the time interval does not change the solution",
  "Since the equation has no explicit time, evolving over [t0+c, tf+c] gives the same states as over [t0, tf] at correspondingly shifted times, for any c including those making an endpoint zero or negative, up to the effect of rounding in the times. This holds for runs of any number of steps, constant or adaptive.",
  ["inputs", "configurations"],
  "all shifts, interval signs, run lengths (past 100 and 1000 steps), solvers, storage settings",
  "Tests start at t0 = 0 with tf > 0 almost without exception.",
  ["solveras.py", "solvercs.py"],
  [("use of t0 and tf in the evolve loops", "solvercs.py")],
  ["t", "u", "return value of evolve"])
p("C18", "Storage and logging options never change the numerical result",
  "store_data, store_freq and any log level (at construction or changed at run time, string in any case or number) leave the states, times and step sizes of a run bit for bit unchanged. The logger of a solver is named after its class, has one handler however many solvers are built, carries the requested level, and an unknown level name raises ValueError leaving the level as it was.",
  ["configurations", "histories"],
  "all combinations of options and levels, long runs that reach every logging statement, all solvers",
  "Tests check logging and results separately, on runs too short to reach the progress messages.",
  ["solver.py", "solveras.py", "solvercs.py", "util/loghelper.py"],
  [("logging statements in step and evolve", "solveras.py"), ("logger set-up", "util/loghelper.py")],
  ["results of evolve", "logger", "log records"])
p("C19", "Unusable operators are refused and solver kinds are reported truthfully",
  "Every solver refuses with ValueError a linear operator that is not 1-D or square 2-D, IF45DP refuses any 2-D operator, and diagonalize=True refuses a singular matrix; every other operator is accepted whatever its dtype or memory layout, with the same results (to the precision of the dtype). The reported solver kind is adaptive exactly for ETD34, ETD35, IF34, IF45DP and constant for ETD4, ETD5, IF4, by property and by detection on any instance, with TypeError for other objects.",
  ["inputs", "configurations"],
  "all shapes, dtypes (int, float32/64, complex64/128), memory layouts (C, Fortran, strided, read-only), all solvers",
  "Tests check one bad shape per class and only C-contiguous float/complex operators.",
  ALL + ["solver.py", "util/solver_type.py"],
  [("operator validation", "solver.py"), ("kind detection", "util/solver_type.py")],
  ["constructors", "solver_type", "SolverType.from_solver"])
p("C20", "Finite problems stay finite and non-finite states are never accepted",
  "For operators with non-positive real parts of any magnitude (|h*L| up to 1e100), finite states and bounded nonlinear terms, every solver returns finite results without floating-point overflow, division or invalid-operation warnings. An adaptive solver never returns a state containing NaN or Inf: it shortens the step, and if that does not help raises one of its documented errors.",
  ["inputs", "fault_sequences"],
  "all stiff spectra with |h*L| up to 1e100, h from tiny to huge, nonlinear terms returning NaN/Inf at any call, persistently or transiently",
  "Tests treat floating-point warnings as errors only on the few problems they run.",
  ALL + ["etd.py", "solveras.py"],
  [("non-finite handling in step control", "solveras.py"), ("coefficient formulas", "etd.py")],
  ["step/evolve results", "floating-point warnings", "exceptions"])
p("C21", "Fourier grids match the discrete Fourier transform conventions",
  "For every even n > 2 and interval [a, b) the Fourier grids have exactly n equally spaced points from a with spacing (b-a)/n and the angular wavenumbers of numpy's rfft (n/2+1 of them) or fft (n of them) ordering, so that exp(i k (x-a)) is periodic and transforms to a single bin. Odd, too small or non-integer n is refused with ValueError or TypeError.",
  ["inputs"],
  "all even n up to large sizes, all intervals including those whose spacing is not representable",
  "Tests use a few n on round intervals; rounding of the spacing shows only for particular triples (n, a, b).",
  ["grids.py"],
  [("uniform grid and frequencies", "grids.py")],
  ["construct_x_kx_rfft, construct_x_kx_fft"])
p("C22", "Chebyshev grid and differentiation matrix are exact on polynomials",
  "For every n >= 2 and interval [a, b] the Chebyshev grid consists of the n+1 Gauss-Lobatto points mapped to the interval in increasing order with both endpoints, and the accompanying matrix differentiates every polynomial of degree up to n exactly at the nodes up to rounding, in particular constants to zero. n below 2 or non-integer is refused.",
  ["inputs"],
  "all n up to large sizes, all intervals, all polynomials of degree <= n",
  "Tests differentiate two or three functions on a few grids.",
  ["grids.py"],
  [("Gauss-Lobatto nodes and barycentric differentiation matrix", "grids.py")],
  ["construct_x_cheb, construct_x_dx_cheb"])
p("C23", "The Hankel transform is its stated formula and inverts itself",
  "For every nr >= 4 and rmax > 0 the transform's grids are the scaled zeros of J0, ht and iht apply the stated matrix with factors rmax^2/jN and its inverse linearly to vectors and columns of matrices, they invert each other to the accuracy of the quadrature, and Gaussians transform to Gaussians. After any sequence of changes to nr and rmax, accepted or refused, the object equals one newly built with the current values, and arrays it hands out are not affected.",
  ["inputs", "histories"],
  "all nr, rmax, real and complex data, all sequences of setter calls including refused ones",
  "Tests check a few sizes and single setter calls.",
  ["transforms.py", "grids.py"],
  [("matrix of Bessel values and scale factor", "transforms.py"), ("radial grids", "grids.py")],
  ["HankelTransform", "construct_r_kr_hankel"],
  [("grids and matrix", "must always belong to the current nr and rmax", "transforms.py")])
p("C24", "Spectral derivatives are exact on resolved functions",
  "For every order n >= 0 and grid, the FFT and real-FFT derivatives of every trigonometric polynomial below the Nyquist frequency, and the Chebyshev derivative of every polynomial resolved by the grid (vectors or columns of a matrix), equal the analytic n-th derivative up to rounding amplified by the largest wavenumber or the matrix. They are linear, compose (orders m then n give order m+n), keep the shape, and refuse negative or non-integer orders, complex input to the real version and mismatched shapes.",
  ["inputs"],
  "all grids and intervals, all resolved functions, all orders, real and complex data",
  "Tests use sine and exponential functions of order one to four on a few grids.",
  ["derivatives.py", "grids.py"],
  [("multiplication by (ik)^n", "derivatives.py"), ("matrix powers", "derivatives.py")],
  ["dx_rfft, dx_fft, dx_cheb"])
p("C25", "Model operators and soliton formulas represent their equations",
  "For every grid and state the linear and nonlinear operators of the KdV, Burgers and Allen-Cahn models together equal the right-hand side of the stated equation evaluated spectrally in physical space (for Allen-Cahn on interior points, with the linear profile of the boundary values separated), for any parameter values. The soliton formula satisfies the KdV equation for all amplitudes, positions and times, and the multi-soliton is the sum of its parts, with mismatched parameter lengths refused.",
  ["inputs", "configurations"],
  "all grids, parameters and resolved states",
  "Tests compare a few states against hand-written formulas of the same form.",
  ["models.py", "grids.py", "derivatives.py"],
  [("operator pairs", "models.py"), ("soliton formulas", "models.py")],
  ["kdv_ops, burgers_ops, allen_cahn_ops, kdv_soliton, kdv_multi_soliton"])
p("C26", "Full PDE simulations keep their invariants and match known solutions",
  "Simulations assembled from the grids, models, derivatives, transforms and any solver keep what the equation keeps: KdV conserves mass and energy and translates a soliton at its speed, Burgers conserves mass and never gains energy, Allen-Cahn keeps its boundary values, stays within its bounds and never gains free energy, and the cylindrical Schroedinger equation conserves power. All seven solvers agree with each other on the same problem to within the requested accuracy.",
  ["inputs", "configurations", "programs"],
  "all resolved initial data, parameters, domains and solver choices",
  "Tests run one initial condition per model and solver over short times.",
  ALL + ["models.py", "grids.py", "derivatives.py", "transforms.py"],
  [("the complete pipeline", "models.py")],
  ["u along the trajectory", "conserved functionals"])
p("C27", "Adaptive runs meet their tolerance at a sensible cost",
  "On smooth non-stiff or moderately stiff problems with every mode controlled (adapt_cutoff 0) the error of an adaptive run against the exact solution is bounded by a moderate multiple of epsilon times the solution size, shrinks as epsilon is tightened, and needs a number of steps that grows no faster than the method's order implies. The initial step size influences neither beyond that.",
  ["inputs", "configurations"],
  "all smooth non-chaotic problems (step counts judged on non-stiff ones), tolerances between 1e-3 and 1e-9, h_init from tiny to the whole interval, all adaptive solvers and operator forms",
  "Tests check one tolerance on one problem and never the number of steps.",
  AS,
  [("embedded estimate and controller working together", "solveras.py")],
  ["return value of evolve", "number of accepted steps and evaluations"])
p("C28", "Results commute with relabelling, conjugation, rescaling and padding of modes",
  "Permuting the entries of a problem permutes the result, conjugating the problem conjugates it, changing the unit of time or of the solution rescales the result (and the step sizes), and (constant-step) appending modes that do not interact with the others leaves those unchanged, all up to rounding. Real problems give real solutions and Hermitian-symmetric spectra stay so, to rounding, over whole runs.",
  ["inputs", "histories"],
  "all problems, permutations, paddings, solvers, operator forms and run lengths",
  "No test relates two different problems to each other.",
  ALL + ["solveras.py"],
  [("elementwise treatment of modes", "etd35.py"), ("selection of significant entries", "solveras.py")],
  ["step, evolve"])
p("C29", "The nonlinear term is evaluated the advertised number of times",
  "A continued constant step evaluates the nonlinear function 4 (ETD4, IF4) or 6 (ETD5) times and the first one once more; an adaptive attempt evaluates it 4 (ETD34, IF34), 5 (ETD35, plus one per new state) or 6 (IF45DP) times, plus one at the start, and retries after a rejection reuse the first evaluation. Each evaluation is made at a stage value of the current step.",
  ["histories", "inputs"],
  "all step sequences, accept/reject histories, solvers and operator forms",
  "Tests do not count evaluations.",
  ALL,
  [("first-same-as-last reuse", "if34.py"), ("recomputation only when h changes", "etd4.py")],
  ["calls of nl_func"])
p("C30", "Mirrored radial grids and data are symmetric",
  "Mirroring a radial grid gives the negated reversed grid followed by the grid, and mirroring data along the axis asked for gives an even extension aligned with it, for vectors and matrices, real and complex, of any length, leaving the inputs unchanged. Any other axis is refused with ValueError and omitted data yields None.",
  ["inputs"],
  "all grid sizes, data shapes, dtypes and axes",
  "Tests check one vector and one matrix.",
  ["grids.py"],
  [("flip and stack", "grids.py")],
  ["mirror_grid"])
p("C31", "Process-wide state is neither changed nor relied on",
  "Building, using, interrupting and dropping solvers, grids, transforms, derivatives and models leaves everything the process shares as it was: numpy's error state and print options, random generators, warning filters, the root logger and loggers of others, environment, working directory, threads, signal handlers and library functions; nothing is written to standard output or to files. Results do not depend on any of these either, and floating-point errors raised by the user's nonlinear term follow the caller's settings.",
  ["histories", "configurations"],
  "all sequences of uses including failures and exceptions, under all settings of the named process-wide state that do not change what numpy computes",
  "Tests run in one process state and look at return values only.",
  ALL + ["solveras.py", "solvercs.py", "solver.py", "etd.py", "util/loghelper.py", "grids.py", "models.py", "transforms.py", "derivatives.py"],
  [("logger set-up limited to rkstiff's own loggers", "util/loghelper.py"), ("no global state in the numerical code", "solveras.py")],
  ["numpy, logging, warnings, random, os and sys state before and after", "results under altered state", "standard output and files"])
p("C32", "Coefficients are reused and memory and cost stay bounded",
  "Coefficients are computed only when the step size changes: attempts repeated with the same size evaluate no exponentials, inverses or psi functions and cost much less where these are expensive. Memory does not grow with the number of steps, step sizes, rejections or solvers used, except for the snapshots a run was asked to store, which reset releases; processor time is linear in the number of steps, and a dropped solver is freed together with what it refers to.",
  ["histories"],
  "all run lengths, step-size sequences, storage settings, numbers of solvers and ways in which their use ends",
  "Tests do not look at memory or cost and run few steps.",
  ALL + ["solveras.py", "solvercs.py", "solver.py"],
  [("recomputation only when h changes", "if45dp.py"), ("one set of coefficient arrays per solver", "etd35.py"), ("stored times and states", "solver.py")],
  ["allocated bytes", "calls of exponential and inverse primitives", "object lifetimes", "processor time"])
p("C33", "The type and layout in which states and times are given do not matter",
  "Initial states given as integers or booleans, in half, single or double precision, real or complex, byte-swapped, strided, reversed, unaligned, read-only or of an array subclass, and times and step sizes given as int, float, numpy scalar or 0-d array, give the same states, times and step sizes as the equal values in plain double arrays and floats, up to rounding, and the results are in double precision.",
  ["inputs"],
  "all solvers, operator forms, problems, representations of the same values (times and steps in double precision or as integers), by steps and by evolve",
  "Tests always pass double precision or complex arrays and floats.",
  ALL + ["solveras.py", "solvercs.py"],
  [("promotion to the dtype of the coefficients", "etd4.py"), ("promotion in integrating-factor stages", "if34.py")],
  ["step, evolve", "dtype of results"])
p("C34", "Copied and pickled solvers continue like the original and independently",
  "A deep copy of a solver, or one pickled and loaded in the same or another process, made at any moment of its history, continues bit for bit as the original does, and from then on neither is influenced by what is done with the other. Configurations, transforms, solver kinds and the documented exceptions survive copying and pickling with their values.",
  ["histories", "schedules"],
  "all solvers, operator forms, histories (including interrupted and failed runs), moments of copying, pickle protocols and interleavings of later uses",
  "Tests never copy a solver; distributing solvers to worker processes depends on it.",
  ALL + ["solveras.py", "solvercs.py", "solver.py", "transforms.py", "etd.py"],
  [("solver state held in plain attributes", "solver.py"), ("cached stages and coefficients", "etd34.py"), ("nested exception classes", "solveras.py")],
  ["results of steps and runs of copy and original"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
