"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
OD = "torchdyn/numerics/odeint.py"; SO = "torchdyn/numerics/solvers/ode.py"; NU = "torchdyn/numerics/utils.py"
p("C01", "Adaptive solves return exactly the requested times, each with its own state",
  "An adaptive-step solve returns exactly the time points the caller asked for, bit for bit, in the caller's order and each once, starting with the initial time and the unmodified initial state, whatever step sizes and rejections the error controller goes through, and with or without an interpolator. The state returned next to a time is the solution at that time: the state the accepted steps reached there, or, with an interpolator, the interpolant of the accepted step that contains it. When all evaluated points are asked for, the accepted step ends are added in increasing time order, and every requested point is still present exactly once.",
  ["inputs", "schedules", "configurations"],
  "all time grids (uneven, tiny gaps, spans crossing zero, float32/float64), all accept/reject/step-size schedules of the controller, with and without interpolator and return_all_eval",
  "The tests solve a handful of smooth problems on linspace(0,1,n) and compare end values; they never enumerate the interleavings of a rejected trial, a clipped step and a checkpoint, nor grids whose floating-point sums miss the target by one ulp.",
  [OD], [("checkpoint clipping and checkpoint counter", OD + ":_adaptive_odeint"), ("interpolated checkpoints", OD + ":_adaptive_odeint")],
  ["return value of odeint", "calls of solver.step"],
  [("ckpt_counter", "next requested time not yet emitted", OD), ("dt_old/ckpt_flag", "step size saved while clipped to a requested time", OD)])
p("C02", "Adaptive error control keeps only steps within tolerance; rejects leave no trace",
  "An adaptive solve advances only over trial steps whose error estimate, divided elementwise by atol + rtol*max(|state before|,|state after|), has root-mean-square at most 1 (over the leading entries only when a seminorm is requested); a rejected trial changes neither time, state nor the derivative carried into the next trial, and the proposed step shrinks. The step size is changed by the factor safety/ratio^(1/order) clamped to the solver's minimum and maximum factor (never below 1 when the ratio is below 1), is cut only to land on a requested time or the end, and never overshoots the end. The solve ends with the end time reached, after finitely many trials.",
  ["schedules", "inputs", "configurations"],
  "all sequences of error ratios (zero, below, exactly and above one), tolerances, solver factors and orders, requested-time grids, and seminorm settings",
  "The tests only observe final accuracy on smooth problems, where almost every trial is accepted; a controller that keeps a rejected state, stale derivative or the wrong norm still passes their loose end-value tolerances.",
  [OD, NU], [("accept test", OD + ":_adaptive_odeint"), ("adapt_step, hairer_norm, init_step", NU)],
  ["calls of solver.step with their arguments", "return value of odeint"],
  [("t, x, k1, dt", "controller state carried between trials", OD)])
p("C03", "Every Runge-Kutta solver attains its advertised order on every vector field",
  "One step of each explicit solver (euler 1, midpoint 2, rk4 4, dopri5 and tsit5 5), under each of its accepted names and in either float precision, reproduces the Taylor expansion of the true solution through its advertised order for every vector field, time-dependent ones included. The error estimate of the adaptive solvers vanishes to the order of their embedded method and is not identically zero beyond it. The slope an adaptive solver hands to the next step is the vector field at the end of the step.",
  ["inputs", "programs"],
  "all smooth vector fields f(t,x): equivalently, all rooted-tree order conditions up to the order, for the autonomous and time-dependent forms",
  "Tests integrate three autonomous or weakly time-dependent systems on fine grids with loose tolerances; a wrong coefficient that loses one or two orders is invisible there.",
  [SO, "torchdyn/numerics/solvers/_constants.py"], [("Butcher tableaus", "torchdyn/numerics/solvers/_constants.py"), ("step functions", SO)],
  ["odeint over one step", "solver.step"])
p("C04", "Interpolated outputs are fourth-order accurate and do not change the integration",
  "With the fourth-order interpolator, states requested strictly inside a step are fourth-order accurate: exact (to rounding) whenever the solution over the step is a polynomial in time of degree at most four, and in general within a fifth-order power of the step of the true solution. The interpolant agrees with the step's end states and end slopes. Turning interpolation on or adding interpolated output times does not change which steps are taken or the states at step ends.",
  ["inputs", "schedules"],
  "all vector fields (order conditions for every rooted tree up to order 4 at every position inside the step), all placements and numbers of requested times inside a step",
  "No test looks at an interpolated interior value at all; the only use is inside an adjoint test with a loose gradient tolerance.",
  ["torchdyn/numerics/interpolators.py", OD, "torchdyn/numerics/solvers/_constants.py"],
  [("quartic Hermite-midpoint fit and evaluation", "torchdyn/numerics/interpolators.py:FourthOrder")], ["odeint(..., interpolator='4th')"])
p("C05", "Fixed-step solves step exactly on the given grid and save exactly what was asked",
  "A fixed-step solve takes exactly one solver step per interval of the time grid, from each grid point to the next, carrying the state, and passing the caller's extra arguments to every step. It returns the requested save times (by default the whole grid) and, aligned with them one to one, the states at those times; requesting a time that is not on the grid is refused rather than answered with another time's state. Dictionary states are returned as dictionaries with each entry stacked over the same times.",
  ["inputs", "configurations"],
  "all strictly monotone grids (uneven included), all subsets and orders of save times, tensor and dictionary states, any step rule",
  "Tests use one uniform grid, with save_at either the whole grid or one lucky subset; alignment, off-grid requests and uneven grids are never compared with the step history.",
  [OD], [("stepping loop and save_at selection", OD + ":_fixed_odeint")], ["odeint with a fixed-step solver", "calls of solver.step"])
p("C06", "Integrating over a decreasing time span follows the same ODE backwards",
  "For a decreasing time span the solve follows the same differential equation backwards in time: the vector field is only ever evaluated at times within the span, the returned times are the caller's decreasing times, and the states are those of the forward solve of the time-reflected problem. Saving, dense output, fixed and adaptive stepping behave as they do for an increasing span. Integrating forward and then back over the same span returns to the initial state within the solver's accuracy.",
  ["inputs", "configurations"],
  "all decreasing grids, time-dependent vector fields (including ones undefined outside the span), every solver, save_at, interpolator and both state dtypes",
  "No test integrates a time-dependent field backwards or looks at the returned times of a reversed solve.",
  [OD], [("time reflection of field and span", OD + ":odeint")], ["return value of odeint", "arguments the vector field is called with"])
p("C07", "Hybrid solves localise each event, jump once per event, and keep the flow exact",
  "A hybrid solve follows the flow between events; when a callback's condition changes from false to true in a step, the event is located to within the event tolerance on the time side where the condition is still false, both the state just before and the state after that callback's jump map (lowest-numbered triggered callback first) are recorded at that same time, and the flow continues from the jumped state. At most the allowed number of jumps is made, the recorded times never decrease, an event already true at the start is applied first when jumps have priority, and a condition that stays true is not fired again until it has been false. Times requested before the solve ends all appear in the recorded times, and the solve ends at the end time or when the jump budget is used up.",
  ["inputs", "schedules", "histories"],
  "all event sequences (several callbacks, simultaneous, at the start, at a requested time, repeated), jump budgets, requested grids, tolerances and accept/reject schedules",
  "The one hybrid test simulates a bouncing ball and checks nothing but that it runs; multi-event schedules and budgets are never sampled.",
  [OD, NU], [("event detection, bisection and jump", OD + ":odeint_hybrid")], ["return value of odeint_hybrid", "calls of callbacks and solver.step"],
  [("event_states/jnum", "previous event flags and jumps made", OD)])
p("C08", "Parallel-in-time solves agree with the sequential fine solve",
  "On an evenly spaced grid and for a time-invariant field, a parallel-in-time (multiple-shooting) solve with fixed-step methods keeps the initial state as its first point and, after k update rounds, its first k+1 points equal, to rounding, the sequential solve with the fine method on the same sub-grid; with at least as many rounds as intervals the whole result equals that sequential solve. Any number of rounds and any number of intervals is accepted, for string or object solver choices and for a caller-supplied initial guess. Intermediate rounds apply the advertised update (coarse-correction for the zero-order method, exact first-order correction for the derivative-based one).",
  ["inputs", "configurations"],
  "all time-invariant vector fields, evenly spaced grids, fixed-step methods, numbers of intervals, rounds, fine steps, batches, initial guesses and coarse/fine method pairs",
  "One test compares mszero with odeint on one grid at tolerance 1e-4; the backward variant and small interval/round combinations crash unnoticed.",
  [SO, OD, "torchdyn/core/problems.py"], [("parareal / discrete-adjoint correction", SO + ":MSZero, MSBackward")], ["odeint_mshooting", "MultipleShootingLayer"])
p("C09", "All sensitivity methods return the true gradient of the solve",
  "For any loss on any of the returned states (final, intermediate or all), the gradients with respect to the initial state and to every parameter of the vector field are the true sensitivities of the differential equation, to the solver's accuracy, whichever of direct back-propagation, adjoint or interpolated adjoint is chosen. This holds for increasing and decreasing spans, several output times, every solver, parameters of any shape, parameters the vector field does not use (zero gradient), and vector fields that ignore the state or the time. Where the time span requires gradients, direct back-propagation and the adjoint return the true gradient with respect to each of its points. The forward values do not depend on the sensitivity method.",
  ["inputs", "programs", "configurations"],
  "all vector fields, losses over any subset of output times, parameter shapes, spans, forward/adjoint solver pairs",
  "The adjoint tests look at one network and a loss at the final time, comparing methods with each other at loose tolerance; interior losses, unused parameters, reversed spans and fixed-step solvers are not sampled.",
  ["torchdyn/numerics/sensitivity.py", "torchdyn/core/problems.py"], [("adjoint systems", "torchdyn/numerics/sensitivity.py")], ["ODEProblem / NeuralODE forward + backward"])
p("C10", "Integral losses are integrated along the trajectory and differentiated correctly",
  "With an integral loss l and direct back-propagation, the extra leading coordinate of the solution grows by exactly the integral of l(t, x(t)) along the trajectory, whatever the order of the equation, and the remaining coordinates are those of the solve without it. With an adjoint method, the gradients include the gradient of that integral, so the same total loss gives the same initial-state and parameter gradients under all sensitivity methods. The dynamics themselves are not altered by the integral loss.",
  ["inputs", "programs", "configurations"],
  "all integral losses (scalar per sample or column shaped, time-dependent), vector fields, orders and sensitivity methods",
  "One test compares two methods on one quadratic loss, and only the first coordinate of the gradient's mean error.",
  ["torchdyn/core/defunc.py", "torchdyn/numerics/sensitivity.py", "torchdyn/core/neuralde.py"], [("loss propagated in x[:,0]", "torchdyn/core/defunc.py:DEFunc.forward"), ("-dl/dx term of the adjoint", "torchdyn/numerics/sensitivity.py")], ["NeuralODE(..., integral_loss=...)"])
p("C11", "A solve depends only on its arguments, never on what was solved before",
  "The result of a solve is a function of its arguments alone: repeating it, or running any other solves in between with the same solver object, interpolator, problem or model (other shapes, float precisions, spans, directions, data), gives the bit-identical result a fresh object gives. No solve modifies its inputs: initial state, time span, save times and parameters are unchanged. Samples of a batch solved on a fixed grid do not influence each other.",
  ["histories", "inputs"],
  "all interleavings of solves over shared solver, interpolator, problem and model objects, mixed precisions and batch compositions",
  "Each test builds fresh objects and solves once; state left behind in a reused solver, tableau or module shows only over a history of calls.",
  [SO, OD, "torchdyn/numerics/solvers/templates.py", "torchdyn/core/neuralde.py", "torchdyn/core/problems.py"], [("sync_device_dtype of tableaus and factors", "torchdyn/numerics/solvers/templates.py")], ["repeated odeint / model calls"],
  [("tableau, safety, min/max factor", "solver state mutated by each solve", SO)])
p("C12", "Vector-field adapters give the model the right time, state, args and control",
  "Whatever its signature (state only; time and state; with extra arguments; plain function or module), the user's vector field sees exactly the current time and state of each evaluation, and the extra arguments it was given, and every depth-aware submodule sees the same time as the field. An order-n equation is integrated as its first-order system in blocks: each block's derivative is the next block, the last block's is the field's output. Data-control inputs are the current call's initial state, refreshed on every call and constant during it.",
  ["inputs", "programs", "histories"],
  "all vector-field signatures and module trees, orders, state widths, and sequences of calls with different data",
  "Tests run such models for shape only; they never compare the times or controls the submodules saw with the integration times.",
  ["torchdyn/core/defunc.py", "torchdyn/core/utils.py", "torchdyn/core/neuralde.py", "torchdyn/nn/node_layers.py"], [("DEFunc time routing and higher order", "torchdyn/core/defunc.py"), ("signature standardisation", "torchdyn/core/utils.py"), ("control refresh", "torchdyn/core/neuralde.py:_prep_integration")], ["calls received by the user's vector field", "DepthCat / DataControl outputs"])
p("C13", "Normalizing flows integrate the exact (or unbiased) negative Jacobian trace",
  "A continuous normalizing flow's field returns, in its first coordinate, minus the trace of the Jacobian of the data dynamics at the current point - exactly with the brute-force estimator, and as minus e^T J e for the noise vector e with the stochastic one - and in the others the data dynamics unchanged. The noise vector is drawn once per solve and sample, and stays the same for every evaluation of that solve, and a new one is drawn for the next. Hence the first coordinate of the solve changes the log-density consistently with the flow, and no gradient path to parameters or data is lost.",
  ["inputs", "programs", "histories"],
  "all smooth maps, dimensions, batches, noise draws, and evaluation sequences of a solve",
  "Tests compare densities only loosely after training or just run; a resampled noise, transposed Jacobian or dropped dimension is within their slack.",
  ["torchdyn/models/cnf.py", "torchdyn/core/neuralde.py"], [("autograd_trace, hutch_trace", "torchdyn/models/cnf.py"), ("noise sampling", "torchdyn/core/neuralde.py:_prep_integration")], ["CNF.forward", "NeuralODE(CNF)"])
p("C14", "Energy-based models produce the field of their energy",
  "The Hamiltonian model's field is (dH/dp, -dH/dq), so the energy is constant along exact flows; the gradient-flow model's field is minus the energy gradient, so energy never increases; the Lagrangian model's accelerations satisfy the Euler-Lagrange equations of its network; the conservative flow model's field is its skew-symmetric matrix applied to the energy gradient, so the energy is constant. Each holds for every energy function, dimension and every sample of a batch, independently of the other samples. The fields stay differentiable with respect to parameters and state.",
  ["inputs", "programs"],
  "all energies (polynomials suffice to separate any two formulas up to their degree), dimensions and batches",
  "Tests train the models for a few steps and check shapes or a loss threshold; sign, block or transposition errors in the field are not compared with the energy.",
  ["torchdyn/models/energy.py"], [("HNN, GNF, LNN, ConservativeLinearSNF", "torchdyn/models/energy.py")], ["model.forward"])
p("C15", "Galerkin layers apply the weights of their basis expansion at the current depth",
  "A Galerkin layer's output is the linear (or convolutional) map whose weight and bias are, entry by entry, the sum over basis functions of its coefficients times the basis evaluated at dilation*t+shift, where t is the depth appended to its input and is removed from it. Each basis family evaluates its documented functions (cosine and sine of n t, powers t^n, radial functions) at the layer's frequency grid. A layer without bias adds none, and each sample of a batch gets the same map.",
  ["inputs", "configurations"],
  "all coefficient values, depths, basis families, degrees, layer sizes and batches",
  "Tests run the layers on zero-initialised coefficients, for which the output is zero whatever the expansion does.",
  ["torchdyn/nn/galerkin.py", "torchdyn/nn/node_layers.py"], [("calculate_weights and basis modules", "torchdyn/nn/galerkin.py")], ["GalLinear / GalConv2d forward"])
p("C16", "Root finding follows its update rule and stop test, and solves linear systems",
  "Each root-finding iterate is the previous one minus the step length times the inverse-Jacobian estimate applied to the current residual, the estimate starting as the true inverse Jacobian of each sample and then following the chosen Broyden update computed from the actual change of point and residual. With no line search and full steps, a linear system is solved by the first step, and the iteration stops early only when residual and step are within all the given absolute and relative tolerances for every sample, and otherwise after the iteration limit. A line search, where one is chosen, picks the length of a step along that step's own direction and never one that gives a larger residual than both no step at all and a step of the shortest length it tries.",
  ["inputs", "histories"],
  "all residual maps (polynomial families), batches of samples, tolerances, methods, search methods and iteration limits",
  "Tests check that iterations converge on one implicit-layer problem at loose tolerance; wrong update formulas converge too, only more slowly.",
  ["torchdyn/numerics/solvers/root.py"], [("BroydenFull/BroydenBad update, TerminationCondition, line searches", "torchdyn/numerics/solvers/root.py")], ["root_find", "points at which the residual map is evaluated"])
p("C17", "SDE solves apply their scheme to the given noise path; wrong calculus is refused",
  "Each SDE solver step equals its scheme's formula (Euler-Maruyama, Euler-Heun, derivative-free Milstein in Ito and Stratonovich form) in terms of drift, diffusion, step length and the increment of the supplied Brownian path over exactly that step. The intervals on which the noise is queried tile the time grid with no gap and no overlap, so the whole path is used once; outputs and save times follow the grid as for fixed-step ODE solves. A solver refuses an SDE declared for the other calculus or for a noise type it does not support.",
  ["inputs", "configurations", "histories"],
  "all drifts, diffusions, noise paths, time grids, save times, solver names, declared SDE and noise types",
  "There is one SDE smoke test outside the stable set; nothing compares steps with the noise path.",
  ["torchdyn/numerics/sdeint.py", "torchdyn/numerics/solvers/sde.py"], [("solver steps, _check_types", "torchdyn/numerics/solvers/sde.py"), ("stepping loop", "torchdyn/numerics/sdeint.py")], ["sdeint", "queries of the Brownian path"])
p("C18", "Hypersolver, leapfrog and implicit steps obey their defining equations",
  "A hypersolver step equals its base solver's step plus step^(order+1) times the correction network at the step's start time and state, so a zero network gives the base solver exactly. The fixed-step asynchronous leapfrog step is its documented half-drift / velocity-reflection / half-drift map, is undone by the same step with negated step size, and is second-order accurate when started with the consistent velocity. The implicit Euler step solves x_new = x + dt*f(t+dt, x_new), and the parallel implicit Euler solves the same equations for all grid points at once.",
  ["inputs", "programs"],
  "all vector fields, correction networks, steps, states and batches",
  "Tests only run these steppers or compare one of them with odeint at a loose tolerance.",
  ["torchdyn/numerics/solvers/hyper.py", SO, OD], [("Hyper*, AsynchronousLeapfrog, ImplicitEuler, ParallelImplicitEuler", SO)], ["solver.step", "odeint", "odeint_symplectic", "odeint_mshooting"])
p("C19", "Datasets and augmenters produce the documented counts, labels and geometry",
  "Every dataset generator returns, for every admissible size and dimension, the documented number of points and labels (n points in all for spheres, moons and the logo, n per spiral, n per Gaussian), aligned, with each class's points on its documented geometry (spheres of the two radii, the two half circles, the two opposite spirals, Gaussian centres on the ring or spiral in the first two coordinates) up to the requested noise. Augmentation adds the requested number of zero (or function-produced) coordinates before or after the data along the chosen dimension and leaves the data unchanged. The by-name generator passes every option to the same generator.",
  ["inputs", "configurations"],
  "all sizes (odd included), dimensions, radii, numbers of clusters, noise levels and augmentation settings",
  "Tests call a few generators with one size and default dimension and check shapes.",
  ["torchdyn/datasets/static_datasets.py", "torchdyn/nn/node_layers.py"], [("generators", "torchdyn/datasets/static_datasets.py"), ("Augmenter", "torchdyn/nn/node_layers.py:Augmenter")], ["generator return values", "Augmenter output"])
p("C20", "Solutions converge to the true solution as tolerances or steps shrink",
  "On every problem with a known closed-form solution, the error of a solve at every returned time is bounded by a modest multiple of the tolerance (amplified as the problem amplifies perturbations) for adaptive solvers, and shrinks with the advertised power of the step for fixed-step solvers, over the whole span and not only its end. Conserved quantities of a problem are conserved to the same accuracy. This holds for stiffness, magnitudes and time scales within the solver's range, both precisions, both time directions and any batch composition.",
  ["inputs", "configurations"],
  "closed-form problem families (polynomial, exponential, oscillatory, logistic, time-dependent) with parameters, tolerances, grids, precisions and solvers",
  "Tests compare one or two systems with torchdiffeq at 1e-3; error growth with tolerance and intermediate times is not examined.",
  [OD, SO, NU], [("whole solve pipeline", OD)], ["odeint", "NeuralODE.trajectory"])
p("C21", "Model and problem wrappers return what the functional solver returns",
  "Calling a problem or neural-ODE object returns the same times and states as the functional solver given the same field, solver, tolerances, interpolator, save times and extra arguments; asking only for the solution returns just the states, and the trajectory call returns the states of the functional solve over its span with the same solver and tolerances. With no time span, the span is the one assigned to the model, or otherwise zero to one; options given at construction (solver, tolerances, order, interpolator, sensitivity) are the ones used, in every combination. Each field evaluation is counted exactly once.",
  ["configurations", "inputs", "histories"],
  "all combinations of constructor options and call arguments, and sequences of calls on one object",
  "Tests construct a few default combinations and check that they run; an option silently dropped or replaced is not compared with the functional call.",
  ["torchdyn/core/problems.py", "torchdyn/core/neuralde.py", "torchdyn/core/defunc.py"], [("dispatch to the functional solver", "torchdyn/core/problems.py:odeint"), ("span defaulting", "torchdyn/core/neuralde.py:_prep_integration")], ["forward, trajectory, nfe"])
p("C22", "Benchmark systems evaluate the vector fields they name, at every time and state",
  "Each benchmark system's field is its documented formula at the time and state it is given, for states of any batch shape, sample by sample and in the state's precision; the forcing systems answer a vector of times with the stack of their answers at each time, independently of the state. Drawing the parameters again replaces all of them, with the same shapes and from the distributions the system was built with, and later evaluations use the new ones. A system's own evaluation counter counts each evaluation once.",
  ["inputs", "histories"],
  "all states, batch shapes, scalar and vector times, dimensions, distributions and sequences of evaluations, solves and redraws",
  "Tests solve Lorenz and Van der Pol and compare solvers with each other, so a wrong field still passes; the forcing and matrix systems are not evaluated at all.",
  ["torchdyn/numerics/systems.py"], [("fields and redraws", "torchdyn/numerics/systems.py")], ["forward, randomize_parameters, nfe of the systems"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        fh.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
