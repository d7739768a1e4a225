NOT_APPLICABLE = {}
p("C01", "TLA+ step-control automaton (TLC) + trace validation of recorded adaptive solves",
  "TLC explores the automaton exhaustively on small grids; the real controller is driven with TLC-written schedules and real fields, and TLC replays every recorded solve, emission by emission. Trusts the recorder (a solver subclass) and the exact-rational module override.")
p("C02", "TLA+ step-control automaton (TLC) + trace validation of recorded adaptive solves",
  "As C01, judging the accept test, the carried state, slope and time, the proposals and the cuts of every recorded trial; error ratios are recomputed in exact rationals. Borderline ratios (within 1e-5 of one) may go either way.")
p("C03", "TLA+ rooted-tree flows (TLC) + trace validation of recorded Runge-Kutta steps",
  "TLC checks on every tree of up to six nodes that the specified flow has Butcher's density and that reference methods meet exactly their order conditions; the real methods run on the TLC-written systems (all trees to order five, time leaves included) and TLC compares every recorded state, error estimate and slope with the exact rational flow. Complete for one-step methods with a B-series, up to rounding (2000 eps).")
p("C04", "TLA+ rooted-tree flows (TLC) + trace validation of recorded interpolated solves",
  "As C03, for states returned through the interpolant at arbitrary positions (all trees to order four), the interpolant's defining quartic, and equality of the recorded steps with and without interpolation. The documented midpoint weights are only accurate to 1e-10, hence a 1e-8 relative tolerance.")
p("C05", "TLA+ grid-stepping automaton (TLC) + trace validation of recorded fixed-step solves",
  "TLC explores every save request on grids of up to five points; real solves (scripted rules, real methods, tensor and dictionary states) on TLC-written grids and requests are recorded step by step and replayed on the automaton, states compared bit for bit.")
p("C06", "TLA+ refinement: the decreasing automaton reflects to the increasing one (TLC) + trace validation of recorded backward solves",
  "TLC checks the reflection as an action property; recorded backward solves are judged against exact rational flows run backwards, the caller's times, the evaluation times and the reflected forward solve.")
p("C07", "TLA+ hybrid automaton with event flags (TLC) + trace validation of recorded hybrid solves",
  "TLC explores an automaton of flags, bisection and jump budgets; real hybrid solves of exactly solvable systems with half-space conditions are replayed event by event: flow exact in rationals, event side and distance, which condition fires, budgets, requested times. Conditions within rounding of their boundary may be read either way.")
p("C17", "TLA+ SDE schemes on a noise-path automaton (TLC) + trace validation of recorded SDE solves",
  "TLC explores the tree of two-point noise paths on small grids (tiling, conditional means of both calculi, strong-order terms); real solves on scripted dyadic noise paths are replayed interval by interval, each state compared with the scheme's formula in exact rationals, noise queries with the grid, saved states bit for bit; the acceptance table is checked over all declared types.")
p("C18", "TLA+ step equations (TLC) + trace validation of recorded hypersolver, leapfrog and implicit steps",
  "TLC checks reversibility and order of the specified leapfrog on polynomial fields and the consistency of the other step equations; recorded steps and solves of the real steppers on random polynomial fields and correction networks are compared with the equations in exact rationals. Implicit equations are judged to the accuracy of the built-in optimiser (1e-4 / 1e-3).")
p("C08", "TLA+ parareal / exact multiple shooting automaton (TLC) + trace validation of recorded multiple-shooting solves",
  "TLC explores the update rounds over polynomial maps and checks finite exactness (k rounds give k+1 exact points); real solves of MSZero and MSDirect on random polynomial fields are recorded and each round is recomputed in exact rationals, then compared with the sequential fine solve. The adjoint-based interactive variants are not judged.")
p("C16", "TLA+ quasi-Newton iteration (TLC) + trace validation of recorded root findings",
  "TLC checks secant equation, one-step solution and finite termination of the specified updates on all small linear maps; root findings of random polynomial maps, run for every iteration limit, are replayed iterate by iterate in exact rationals with a propagated rounding bound (iterates are judged while the bound is below a thousandth). The unimplemented Newton and chord methods are not judged.")
p("C19", "TLA+ index map and geometry of datasets (TLC) + trace validation of recorded datasets and augmentations",
  "TLC walks every entry of all small augmented tensors and checks the geometry predicates on rational points; recorded generator outputs (direct and by name from the same random state) and augmentations are judged entry by entry, class by class, cosines and square roots in rational arithmetic. Random spread is judged within seven standard deviations.")
p("C15", "TLA+ basis expansion of Galerkin layers (TLC) + trace validation of recorded layer calls",
  "TLC checks the row layout of small layers, basis identities and that a layer has no memory; recorded calls of GalLinear / GalConv2d with arbitrary coefficients at several depths and of the basis modules are recomputed in rational arithmetic (cos, sin, exp, roots to 80 bits). Trainable radial centers are accepted in either reading of the documentation.")
p("C14", "TLA+ fields of polynomial energies (TLC) + trace validation of recorded model calls",
  "TLC checks conservation / descent of the specified fields on all small plane energies and along exact implicit-midpoint walks; recorded calls of HNN, GNF, LNN and ConservativeLinearSNF on random polynomial energies are compared per sample with the fields and with their exact gradients in state and coefficients. Lagrangians are drawn with well-conditioned mass matrices.")
p("C13", "TLA+ noise-per-solve automaton and flow field (TLC) + trace validation of recorded CNF calls and solves",
  "TLC explores interleavings of solves, draws and evaluations and checks the trace identities on small maps; histories of real calls, solves and trajectories with polynomial data dynamics and a scripted noise source are replayed event by event: draws per solve, field per sample, and gradients in state and parameters, all in exact rationals.")
p("C12", "TLA+ automaton of evaluations through an adapter (TLC) + trace validation of recorded evaluations",
  "TLC explores solves and evaluations over shared depth-aware and data-control submodules and checks the block form of order-n equations on polynomial solutions; real solves, trajectories and direct calls with fields of every signature (functions, lambdas, partials, bound methods, callables, modules, containers) are replayed evaluation by evaluation, bit for bit. A user-defined solver step, which evaluates where it likes, gives the ground truth.")
p("C09", "TLA+ backward pass of a solve (TLC) + trace validation of recorded gradients against exact sensitivities",
  "TLC explores the adjoint's backward pass over all small sets of loss times and shows it equals the forward sensitivities and the exact derivatives of the loss, in the times too; gradients recorded from real solves (all three methods, functional / problem / model / parallel in time, explicit and implicit solvers, random parameter shapes, directions, read times) of triangular polynomial systems behind changes of coordinates are compared with the exact rational ones, as are the gradients in the points of the time span, states across methods bit for bit. Tolerances follow the order of the methods involved.")
p("C10", "TLA+ backward pass of a solve (TLC) + trace validation of recorded integrals and gradients against exact ones",
  "As C09, with the integral loss as one more coordinate of the exact system: growth of the leading coordinate under direct back-propagation, unchanged dynamics, and equal exact gradients under all methods, for orders one and two and losses that share parameters with the field.")
p("C11", "TLA+ histories over objects with hidden storage (TLC) + trace validation of recorded histories of solves",
  "TLC explores solves, interrupted solves and leftover storage and shows what makes a result a function of its arguments; TLC-written histories (precision, direction, shape, failing fields; training in between) run on shared solvers, problems, models, callbacks and noise, each solve bit-compared with fresh objects, with its earlier repetitions, its inputs before and after, and (fixed grids) each sample on its own.")
p("C20", "TLA+ closed forms and accumulation of local errors (TLC) + trace validation of recorded whole solves against exact solutions",
  "Closed forms of nine families and conserved quantities of five systems are part of the specification (exp, cos, sin to 90 bits); TLC checks that they satisfy their equations and that any sequence of local errors of one tolerance stays within steps x tolerance x amplification. Recorded solves are judged at every returned time: adaptive errors in amplified tolerances per characteristic time (limits from 1 to 20, three times what 20,000 solves show), fixed-step errors and drifts over seven halvings of the step against the advertised power.")
p("C21", "TLA+ automaton of wrapper calls (TLC) + trace validation of recorded calls against functional solves",
  "TLC explores histories of span assignments and calls (span resolution, answers, counts); random histories of real problem and model objects in every combination of options (solver, tolerances, order, interpolator, sensitivity, integral loss, return of times, spans, save times, args, shooting parameters) are compared bit for bit with the functional solvers; backward passes are judged by which solver steps and by the effect of each adjoint option.")
p("C22", "TLA+ fields of the benchmark systems (TLC) + trace validation of recorded evaluations and redraws",
  "TLC steps pairs of states related by each system's symmetry and checks divergences, equilibria, superposition and periods of the specified fields; histories of evaluations, solves and redraws of the real systems are recomputed in rational arithmetic (cos, sin, exp to 90 bits). The depth and activation arguments of the matrix systems, which the code ignores, are not judged.")
