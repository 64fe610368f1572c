#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

DP = "src/dorm_prince/dp5/"
RA = "src/radau/"
prop("C01", "Explicit solver meets its tolerance on well-conditioned problems",
  "For every smooth, non-stiff initial value problem whose solutions do not spread apart, integrating with DormandPrince5 reports Success, and every recorded state lies within a modest multiple of abstol + reltol*|u| of the exact solution at its recorded time. This holds for any system size, state magnitude, start time, direction of integration, tolerance pair and valid controller settings.",
  ["inputs", "configurations"], "all contractive or neutral smooth problems x tolerances x directions x valid options",
  "The tests run one harmonic oscillator and one ball drop at default tolerances, forward in time only, and only the first is compared with a solution.",
  [DP+"algorithm.rs", DP+"stages.rs", DP+"error.rs", DP+"prepare.rs", DP+"constants.rs"],
  [("Dormand-Prince stages and embedded error", DP+"stages.rs:7"), ("weighted error norm", DP+"error.rs:7"), ("accept/reject and step size", DP+"prepare.rs:7")],
  ["sol.ts, sol.us, sol.retcode after integrate()"])
prop("C02", "Implicit solver meets its tolerance, stiff problems included",
  "For every smooth initial value problem whose solutions do not spread apart, however stiff, integrating with Radau5 from a first step that resolves the initial transient reports Success and every recorded state lies within a modest multiple of abstol + reltol*|u| (the tolerances the built integrator reports) of the exact solution at its recorded time. This holds with a user supplied Jacobian and without one, in both directions of time and for valid controller settings.",
  ["inputs", "configurations"], "all contractive or neutral smooth problems, stiffness ratios 1..1e7 x tolerances x directions x valid options x Jacobian supplied or not",
  "The single Radau5 test prints a van der Pol solution and asserts nothing.",
  [RA+"algorithm.rs", RA+"newton.rs", RA+"error_estimate.rs", RA+"step_size_control.rs", RA+"dec.rs", RA+"linear_solve.rs", "src/ode/jacobian.rs"],
  [("simplified Newton iteration", RA+"newton.rs:54"), ("error estimate", RA+"error_estimate.rs:8"), ("step acceptance", RA+"step_size_control.rs:5"), ("decompositions follow the step size", RA+"algorithm.rs:106")],
  ["sol.ts, sol.us, sol.retcode after integrate()"])
prop("C03", "Each accepted explicit step is a Dormand-Prince 5(4) step within tolerance",
  "In every DormandPrince5 run, each recorded point equals, up to rounding, one fifth-order Dormand-Prince step of the given right-hand side from the preceding state over the recorded time difference. The embedded error estimate of that step, in the root-mean-square norm weighted by abstol + reltol*max(|u before|, |u after|), is at most 1.",
  ["inputs", "configurations", "histories"], "every accepted step of every run over smooth problems, linear or not, autonomous or not, any size, direction and options",
  "No test looks at an individual step or at the error estimate; a wrong coefficient or norm only degrades accuracy within the tests' slack.",
  [DP+"stages.rs", DP+"constants.rs", DP+"error.rs", DP+"prepare.rs"],
  [("tableau constants", DP+"constants.rs:3"), ("stage evaluation", DP+"stages.rs:7"), ("reuse of the last derivative as the first stage", DP+"prepare.rs:64"), ("acceptance test", DP+"prepare.rs:26")],
  ["consecutive entries of sol.ts / sol.us"], state=[("first-stage derivative", "f at the current point, saved from the previous step", DP+"cache.rs:21")])
prop("C04", "Each accepted implicit step solves the Radau IIA equations within tolerance",
  "In every Radau5 run, each recorded point equals one three-stage Radau IIA (order 5) step from the preceding state over the recorded time difference, up to what the Newton stopping criterion leaves: next to nothing where the right-hand side is linear, and except for a small share of steps a small fraction of the tolerance scale where it is not. Where the Jacobian is constant, the step's error estimate in the tolerance-weighted root-mean-square norm is below 1.",
  ["inputs", "configurations", "histories"], "every accepted step of every run over smooth stiff and non-stiff problems, including steps that follow Newton failures, rejections, kept step sizes and reused factorizations",
  "The only test asserts nothing, and never reaches the paths where the factorization is reused or Newton fails after reuse.",
  [RA+"newton.rs", RA+"linear_solve.rs", RA+"dec.rs", RA+"constants.rs", RA+"error_estimate.rs", RA+"step_size_control.rs", RA+"algorithm.rs"],
  [("transformation constants", RA+"constants.rs:4"), ("Newton iteration", RA+"newton.rs:54"), ("linear systems", RA+"linear_solve.rs:7"), ("factorizations match the step size", RA+"dec.rs:48")],
  ["consecutive entries of sol.ts / sol.us"])
prop("C05", "Recorded times run strictly from start to end and never outside",
  "For every run that reports Success, recorded times start exactly at the requested start, move strictly monotonically in the direction of the requested end and finish at it up to rounding, with one state of the right length per time and the initial state unchanged as the first. The right-hand side and the Jacobian are never evaluated at a time outside the requested interval.",
  ["inputs", "configurations"], "all problems, both directions, any start time and span, any initial step and limits, both algorithms",
  "Tests only integrate forward from t=0 and never inspect the recorded times.",
  ["src/ode/integrator.rs", DP+"algorithm.rs", RA+"algorithm.rs", RA+"step_size_control.rs"],
  [("direction and initial step", "src/ode/integrator.rs:209"), ("final step clamp (explicit)", DP+"algorithm.rs:61"), ("final step clamp (implicit)", RA+"algorithm.rs:101"), ("final step prediction (implicit)", RA+"step_size_control.rs:92")],
  ["sol.ts, sol.us", "times passed to the right-hand side"])
prop("C06", "Integration always ends, with an honest return code",
  "For every right-hand side, including ones that return NaN or infinity, blow up in finite time or jump, driving an integration to its end takes a bounded number of right-hand side evaluations and does not panic. The return code is Success exactly when the end time was reached, the too-small-step code only when the step shrank to rounding level, the iteration-limit code only when the step limit was used up, every recorded state is finite, and no step is accepted from a point where the right-hand side is not finite.",
  ["inputs", "configurations"], "all right-hand sides, hostile ones included, x both algorithms x options (including degenerate limits)",
  "Tests use well-behaved problems; none fails to reach the end time.",
  [DP+"algorithm.rs", DP+"prepare.rs", RA+"algorithm.rs", RA+"newton.rs", RA+"dec.rs", "src/ode/code.rs"],
  [("too-small-step exit (explicit)", DP+"algorithm.rs:76"), ("step limit (explicit)", DP+"algorithm.rs:95"), ("error estimate that is not a number", RA+"error_estimate.rs:37"), ("step limit and too-small step (implicit)", RA+"algorithm.rs:120"), ("singular matrix exit", RA+"dec.rs:63")],
  ["sol.retcode, sol.us, stats", "number of right-hand side calls"])
prop("C07", "Step sizes obey the configured limits",
  "Every accepted step respects the configured maximum step (apart from the stretch that lets the final step meet the end), grows over its predecessor by no more than the configured growth factor and, when nothing was rejected in between, shrinks by no more than the configured shrink factor. The first attempted step has the configured initial size (of either sign) in the direction of integration, limited by the maximum step and the interval, and no run takes more steps than the configured maximum.",
  ["inputs", "configurations", "histories"], "all problems x initial step, maximum step, growth and shrink factors, step limits, both directions and algorithms",
  "No test sets any of these options.",
  ["src/ode/integrator.rs", "src/ode/options.rs", DP+"prepare.rs", DP+"algorithm.rs", RA+"step_size_control.rs", RA+"algorithm.rs"],
  [("initial step", "src/ode/integrator.rs:209"), ("controller limits (explicit)", DP+"prepare.rs:23"), ("maximum step (explicit)", DP+"prepare.rs:70"), ("controller limits (implicit)", RA+"step_size_control.rs:14"), ("maximum step (implicit)", RA+"step_size_control.rs:86")],
  ["sol.ts differences", "stats"])
prop("C08", "All ways of driving an integration agree, and a finished one stays finished",
  "Stepping by hand, integrating in one call, the consuming iterator, the borrowing iterator, and any mixture or interleaving with other integrators visit exactly the same times and states, and the iterators yield every recorded point after the initial one, the last included. Once an integration has ended, further stepping, iterating or integrating changes neither the solution nor the return code. Iterating over the solution yields its recorded points in order.",
  ["histories", "inputs", "configurations"], "all sequences of step / integrate / iterate calls on one or several integrators, before and after the end",
  "Each test drives its integrator in one way, once, and never touches it after the end.",
  ["src/ode/integrator.rs", "src/ode/solution.rs"],
  [("step", "src/ode/integrator.rs:242"), ("integrate", "src/ode/integrator.rs:255"), ("iterators", "src/ode/integrator.rs:299"), ("solution iterators", "src/ode/solution.rs:26")],
  ["values yielded by the iterators", "sol.ts, sol.us, sol.retcode"])
prop("C09", "Statistics count what actually happened",
  "After any number of steps, the reported accepted-step count equals the number of recorded points after the initial one; the reported function and Jacobian evaluation counts equal the evaluations made since construction, an approximated Jacobian costing one plus the system size function calls that are not counted as function evaluations. Rejections after the first accepted step, attempts, factorizations and linear solves are likewise consistent with the evaluations observed.",
  ["histories", "inputs", "configurations"], "every prefix of every run, both algorithms, Jacobian supplied or not, with and without callback",
  "No test reads the statistics.",
  ["src/ode/statistics.rs", DP+"stages.rs", DP+"prepare.rs", RA+"newton.rs", RA+"dec.rs", RA+"error_estimate.rs", RA+"step_size_control.rs"],
  [("explicit counters", DP+"stages.rs:105"), ("accept/reject counters", DP+"prepare.rs:30"), ("implicit counters", RA+"newton.rs:114")],
  ["stats", "calls to the right-hand side and Jacobian"])
prop("C10", "Reversing time mirrors the trajectory",
  "Integrating a problem from t0 to t1 and integrating its time-reversed problem from -t0 to -t1 record the same states at mirrored times with the same return code and work. Direction is not special for either algorithm, with or without a user supplied Jacobian.",
  ["inputs", "configurations"], "all problems, intervals, options; both algorithms",
  "No test integrates backward.",
  ["src/ode/integrator.rs", DP+"algorithm.rs", DP+"prepare.rs", RA+"algorithm.rs", RA+"step_size_control.rs"],
  [("direction sign", "src/ode/integrator.rs:227"), ("direction-aware clamps", DP+"algorithm.rs:61"), ("direction-aware clamps", RA+"step_size_control.rs:92")],
  ["sol.ts, sol.us, sol.retcode, stats of both runs"])
prop("C11", "Solutions transform with the problem",
  "Rescaling the state (with abstol), rescaling time (with the step options), negating the state, reordering the components, stacking several copies of the system, or shifting the start time of an autonomous system transforms the recorded trajectory in the same way and leaves return code and work unchanged.",
  ["inputs", "configurations"], "all problems and options x all such transformations; both algorithms",
  "Tests never compare two runs.",
  [DP+"error.rs", DP+"stages.rs", RA+"newton.rs", RA+"error_estimate.rs", "src/linalg/dec.rs", "src/linalg/sol.rs"],
  [("weighted norms", DP+"error.rs:7"), ("Newton norms", RA+"newton.rs:128"), ("pivoted factorizations", "src/linalg/dec.rs:10")],
  ["sol.ts, sol.us, sol.retcode of both runs"])
prop("C12", "Passive options do not change the solution",
  "Requesting dense output, installing a callback that changes nothing, supplying derivative functions the algorithm does not need, or changing an option that only concerns the other algorithm leaves every recorded time and state and the return code exactly as they were.",
  ["configurations", "inputs"], "all problems and base options x all subsets of passive options",
  "Tests never compare two runs.",
  ["src/ode/integrator.rs", DP+"prepare.rs", DP+"dense.rs", RA+"step_size_control.rs"],
  [("dense preparation (explicit)", DP+"prepare.rs:60"), ("dense preparation (implicit)", RA+"step_size_control.rs:63"), ("callback dispatch", "src/ode/integrator.rs:244")],
  ["sol.ts, sol.us, sol.retcode of both runs"])
prop("C13", "Callbacks see consistent state and their changes are honoured",
  "A callback runs exactly once after each step and sees the new time and state together with the previous time, state and step size that led to it. Whatever it changes in the state or the parameters takes effect at once: every following step is a full-accuracy step of the method from the changed state under the changed parameters, with the error still controlled.",
  ["histories", "inputs", "configurations"], "all sequences of state or parameter changes made by a callback during a run; both algorithms",
  "One test installs a callback but asserts nothing about its effect.",
  ["src/ode/integrator.rs", DP+"algorithm.rs", DP+"prepare.rs", RA+"algorithm.rs", RA+"step_size_control.rs"],
  [("callback dispatch", "src/ode/integrator.rs:244"), ("saved derivative", DP+"prepare.rs:64"), ("previous state bookkeeping", DP+"prepare.rs:65"), ("previous state bookkeeping (implicit)", RA+"step_size_control.rs:40")],
  ["arguments of the callback", "sol.ts, sol.us"])
prop("C14", "Omitting the Jacobian costs accuracy and work next to nothing",
  "For every smooth problem, Radau5 without a user supplied Jacobian succeeds whenever it succeeds with the exact one, agrees with that run to within the tolerance and takes a comparable number of steps. This holds for states of either sign and any magnitude.",
  ["inputs", "configurations"], "all smooth problems, stiff or not, states of either sign with magnitudes 1e-3..1e6",
  "No test runs Radau5 without a Jacobian.",
  ["src/ode/jacobian.rs", RA+"algorithm.rs", RA+"newton.rs", RA+"step_size_control.rs"],
  [("difference quotient", "src/ode/jacobian.rs:22")],
  ["sol.us, sol.retcode, stats of both runs"])
prop("C15", "Difference quotients approximate the true derivatives",
  "For every smooth function, the approximated state Jacobian and time derivative equal the true derivatives up to the truncation and rounding error of a one-sided difference with a well-chosen increment, for arguments of either sign and any magnitude. A supplied derivative function is used as given.",
  ["inputs"], "all smooth functions, arguments of either sign, magnitudes 1e-6..1e8",
  "No test calls the approximation.",
  ["src/ode/jacobian.rs"], [("state Jacobian", "src/ode/jacobian.rs:3"), ("time derivative", "src/ode/jacobian.rs:36")],
  ["returned matrix / vector"], hook="the approximations are crate-private")
prop("C16", "Dense real and complex linear systems are solved, singular ones reported",
  "For every nonsingular real or complex square matrix and right-hand side, factorizing and solving returns a solution whose residual is at rounding level, whatever row exchanges that takes, and touches nothing beyond the solution's entries. A matrix with a zero column, the first included, is reported as singular by a non-zero code, and a nonsingular one never is. The code is the number, counted from one, of the first stage of the elimination at which no pivot is left.",
  ["inputs"], "all sizes 1..14, all pivot patterns, badly scaled and exactly singular matrices",
  "Two 3x3 systems are solved, and singular matrices never.",
  ["src/linalg/dec.rs", "src/linalg/sol.rs"], [("real LU", "src/linalg/dec.rs:10"), ("complex LU", "src/linalg/dec.rs:126"), ("real solve", "src/linalg/sol.rs:6"), ("complex solve", "src/linalg/sol.rs:65")],
  ["residual of the returned solution", "returned code"], hook="the linear algebra is crate-private")
prop("C17", "Hessenberg and banded linear systems are solved like dense ones",
  "For every nonsingular Hessenberg or banded matrix, real or complex, of any size and any bandwidths, the structured factorization and solve return a solution whose residual is at rounding level, and an exactly singular one is reported by a non-zero code: the number, counted from one, of the first stage at which no pivot is left. Reduction to Hessenberg form yields a matrix similar to the original, through the row exchanges and multipliers it records.",
  ["inputs"], "all sizes 1..12, all bandwidths 0..n-1, all pivot patterns",
  "One real 4x4 Hessenberg system is solved; the banded, complex Hessenberg and reduction routines are never called.",
  ["src/linalg/dec.rs", "src/linalg/sol.rs"], [("Hessenberg LU", "src/linalg/dec.rs:65"), ("banded LU", "src/linalg/dec.rs:306"), ("banded complex LU", "src/linalg/dec.rs:389"), ("reduction", "src/linalg/dec.rs:500"), ("structured solves", "src/linalg/sol.rs:31")],
  ["residual of the returned solution", "returned code", "similarity invariants"], hook="the linear algebra is crate-private")
prop("C18", "Dense output interpolates each accepted step",
  "With dense output requested, the continuous extension of each accepted step reproduces the step's start and end states and, in between, the method's own interpolant: the fourth-order Dormand-Prince one for the explicit method, the collocation polynomial for the implicit one.",
  ["inputs", "configurations", "histories"], "every accepted step, every point inside it, both directions and algorithms",
  "No test requests dense output.",
  [DP+"dense.rs", RA+"continuous_output.rs", RA+"step_size_control.rs"], [("explicit interpolant", DP+"dense.rs:8"), ("implicit interpolant", RA+"continuous_output.rs:7"), ("interpolation coefficients", RA+"step_size_control.rs:46")],
  ["interpolated states"], hook="the interpolants are crate-private")
prop("C19", "The explicit step size follows the error tolerance",
  "On smooth problems without a step limit in force, DormandPrince5 keeps steps close to the largest the tolerance allows: once past the initial transient the error estimates of accepted steps are not systematically far below 1, and rejected attempts are a minority. Loosening the tolerance never makes a run substantially more expensive.",
  ["inputs", "configurations"], "smooth problems x tolerances x directions with default controller settings",
  "Tests check neither the number of steps nor the error estimates.",
  [DP+"prepare.rs", DP+"error.rs"], [("controller", DP+"prepare.rs:18")], ["sol.ts, stats"])
prop("C20", "Linear conservation laws hold to rounding",
  "Whenever some fixed linear combination of the right-hand side vanishes identically, the same combination of the recorded states stays constant to rounding accuracy throughout the run, for both algorithms and any tolerance.",
  ["inputs", "configurations", "histories"], "all systems with a linear first integral, any size, tolerance, direction",
  "No test checks a conserved quantity.",
  [DP+"stages.rs", RA+"newton.rs", RA+"linear_solve.rs", RA+"step_size_control.rs"], [("linear stage combination", DP+"stages.rs:78"), ("Newton updates", RA+"newton.rs:201")], ["sol.us"])
prop("C21", "Every builder setting reaches the integrator, in any order",
  "After any sequence of builder calls, the built integrator carries for each option the last value set (the tolerances of Radau5 in the form it derives from them), the algorithm's default for options never set, and the given initial state, interval, parameters and functions. The order of calls setting different options does not matter, and of repeated calls the last wins.",
  ["configurations", "histories"], "all sequences of builder calls with arbitrary values; both algorithms",
  "Tests set two options in one order and never read one back.",
  ["src/ode/integrator.rs", "src/ode/options.rs", DP+"algorithm.rs", RA+"algorithm.rs"], [("builder methods", "src/ode/integrator.rs:119"), ("build", "src/ode/integrator.rs:209"), ("defaults", "src/ode/options.rs:48")], ["public fields of the built integrator", "effect of a run"])
prop("C22", "Implicit step count depends on the solution, not on the stiffness",
  "For problems that relax onto a slowly varying solution, the number of steps Radau5 needs does not grow with the stiffness, and the step sizes follow the smooth solution once the transient has decayed. This holds with and without a user supplied Jacobian and in both directions.",
  ["inputs", "configurations"], "relaxation problems with rates 1e2..1e7 x tolerances x directions",
  "The van der Pol test only has to end within 100000 steps.",
  [RA+"newton.rs", RA+"step_size_control.rs", RA+"error_estimate.rs", "src/ode/jacobian.rs"], [("Newton convergence control", RA+"newton.rs:137"), ("step size control", RA+"step_size_control.rs:9")], ["stats, sol.ts"])
prop("C23", "Explicit step sizes follow the proportional-integral control law",
  "Every attempt of DormandPrince5 is accepted exactly if its weighted embedded error estimate e is at most one. The size proposed after an accepted step is h / clamp(e^(1/5 - 3/4 beta) / (max(e_previous, 1e-4)^beta safe)), clamped to the configured growth and shrink limits, capped by dtmax and not larger than h after a rejected attempt; after a rejection the next attempt has h / min(e^(1/5 - 3/4 beta) / safe, 1/shrink limit). The step that would come within one percent of the end is stretched onto it.",
  ["inputs", "configurations"], "all problems with a known right-hand side x tolerances x controller settings x directions",
  "No test looks at a step size; a wrong exponent, memory or clamp still gives correct solutions.",
  [DP+"prepare.rs", DP+"algorithm.rs", DP+"error.rs"], [("control law", DP+"prepare.rs:7"), ("stretching of the last step", DP+"algorithm.rs:70")], ["it.dt after every step(), times of right-hand side evaluations"])
prop("C24", "Implicit step sizes follow the predictive control law",
  "Every attempt of Radau5 is accepted exactly if its error estimate e is below one, where the estimate is refined by a second filtering only for the first step and for retries whose first estimate is at least one. The next size is h / max(quot, predicted quot), with quot = e^(1/4) / fac, fac = min(safe, safe (1 + 2 m) / (newt + 2 m)), the Gustafsson prediction from the previous accepted step unless it is switched off, both clamped to the limits, capped by dtmax and not growing after a failed attempt. The size is kept while the change lies between quot1 and quot2, and the remaining interval is taken at once when the proposed step reaches the end.",
  ["inputs", "configurations"], "linear problems of any stiffness with the exact Jacobian x tolerances x controller settings x directions",
  "No test looks at a step size; a wrong memory, clamp or norm still gives acceptable solutions.",
  [RA+"step_size_control.rs", RA+"error_estimate.rs", RA+"algorithm.rs"], [("control law", RA+"step_size_control.rs:5"), ("error estimate", RA+"error_estimate.rs:8")], ["it.dt after every step(), times of right-hand side evaluations"])
prop("C25", "Linear problems need no more Newton work than necessary",
  "On a linear problem with the exact Jacobian, where the simplified Newton iteration is exact after one correction, Radau5 takes at most two iterations per attempt, evaluates the Jacobian again only after a rejected attempt, and factorizes its matrices again only when the step size has changed or an attempt was rejected.",
  ["inputs", "configurations"], "linear problems of any stiffness x tolerances x options x directions",
  "The tests compare no counts; an iteration that converges slowly or a refactorization at every step leaves the solution right.",
  [RA+"newton.rs", RA+"dec.rs", RA+"linear_solve.rs", RA+"step_size_control.rs"], [("Newton iteration", RA+"newton.rs:54"), ("reuse of the factorization", RA+"algorithm.rs:123")], ["stats and evaluation counts of every step()"])
prop("C26", "Settings changed by a callback govern the following steps",
  "A callback may change the step size, the tolerances, the maximum step or the end of the integration. The next attempt has the size the callback left, following steps are accepted with errors below the changed tolerances, sizes found after the change respect the changed maximum step, and the run ends with Success exactly at the changed end, neither before nor after it.",
  ["histories", "inputs", "configurations"], "all sequences of changes to dt, reltol, abstol, dtmax and tfinal made by a callback during a run; both algorithms; both directions",
  "The one test with a callback changes the state only.",
  ["src/ode/integrator.rs", DP+"algorithm.rs", DP+"prepare.rs", RA+"algorithm.rs", RA+"step_size_control.rs"], [("start of a step", RA+"algorithm.rs:100"), ("start of a step (explicit)", DP+"algorithm.rs:60")], ["arguments of the callback, sol.ts, sol.us, sol.retcode, times of right-hand side evaluations"])
prop("C27", "The implicit iteration follows the published convergence control",
  "Every attempt of a Radau5 step starts its simplified Newton iteration from zero or from the extrapolated collocation polynomial of the previous step, corrects all stages with one fixed Jacobian and stops exactly when contraction factor times correction falls below fnewt. It gives up and shortens the step by the published factors when it diverges, would not converge in the remaining iterations or runs out of them. Every retry uses the Jacobian at the start of the step, and after an accepted step the Jacobian is renewed exactly if the contraction was worse than theta.",
  ["inputs", "configurations"], "all smooth problems, linear or not, of any stiffness, with supplied or approximated Jacobian x tolerances x Newton and controller settings x directions",
  "The tests only look at final values of two problems, which come out right with almost any iteration control.",
  [RA+"newton.rs", RA+"algorithm.rs", RA+"linear_solve.rs", RA+"error_estimate.rs", RA+"step_size_control.rs"], [("Newton iteration", RA+"newton.rs:54"), ("starting values", RA+"newton.rs:6"), ("renewal of the Jacobian", RA+"step_size_control.rs:111")], ["arguments of all right-hand side and Jacobian evaluations of every step()", "it.dt, it.dtprev, it.u"])
prop("C28", "Singular iteration matrices shorten the step and are survived",
  "When the real or the complex matrix Radau5 has to factorize for a step is singular, no attempt is made with it. The step size is halved, the Jacobian at the start of the step is used, and the integration goes on from the same point: earlier points are unaffected, the first attempt has the halved size, the size does not grow right after it, the following steps are steps of the method within tolerance, and the run reaches the end with Success even if it was the step onto the end that had to be halved. The fifth singular matrix of a run ends it with SingularMatrix, and nothing is recorded or attempted after it.",
  ["inputs", "configurations"], "smooth problems with supplied Jacobian to which decoupled unstable modes at rest are added whose eigenvalues make the matrices of a chosen step singular: any step of the run, real or complex matrix, one to six in a row; both directions",
  "No test has a singular iteration matrix, and no sampled problem meets one by chance.",
  [RA+"dec.rs", RA+"algorithm.rs", "src/linalg/dec.rs"], [("singular matrices", RA+"dec.rs:48"), ("loop of attempts", RA+"algorithm.rs:122")], ["times of all right-hand side and Jacobian evaluations of every step()", "it.dt, sol.ts, sol.us, sol.retcode, stats"])
prop("C29", "Equilibria are kept exactly and crossed with the largest steps allowed",
  "Where the right-hand side vanishes at the initial state for all times, every recorded state equals the initial state exactly, whatever the tolerances, Jacobian, direction and other settings. The run ends with Success and no attempt is rejected; every step except the last exceeds its predecessor by the configured growth factor until the maximum step is reached (Radau5 keeps a step size whose change would lie within its window), DormandPrince5 spends six evaluations on each step and Radau5 exactly one iteration.",
  ["inputs", "configurations"], "all problem families shifted so that a generated state is an equilibrium, all settings, both algorithms and directions, supplied and approximated Jacobians",
  "No test starts at an equilibrium; a drift of one unit in the last place or a step growing by less than allowed is visible only there.",
  [DP+"stages.rs", DP+"error.rs", DP+"prepare.rs", DP+"algorithm.rs", RA+"newton.rs", RA+"error_estimate.rs", RA+"step_size_control.rs", RA+"algorithm.rs"], [("error estimate (explicit)", DP+"error.rs:6"), ("controller (implicit)", RA+"step_size_control.rs:14"), ("iteration", RA+"newton.rs:54")], ["sol.ts, sol.us, sol.retcode, stats, right-hand side calls"], )
prop("C30", "Polynomial solutions within the order of the methods are reproduced to rounding",
  "Where the right-hand side is a polynomial of degree at most four in time alone, both algorithms reproduce the solution at every recorded time to rounding, however loose the tolerances and however large the steps. Radau5 likewise follows a polynomial solution of degree at most three of a stiff linear system, to rounding with the Jacobian supplied and to the accuracy of its iteration without. For solutions of degree at most four (explicit) or three (implicit) the error estimate vanishes too: nothing is rejected and the steps grow as fast as the limits allow.",
  ["inputs", "configurations"], "polynomials with generated coefficients for each component, alone or as solution of generated linear systems with rates up to 1e4, relative tolerances from 1e-10 to 1, all settings, both directions",
  "The tests compare one trajectory to within the tolerance; an error in a coefficient that shows below the tolerance is not seen.",
  [DP+"stages.rs", DP+"error.rs", DP+"constants.rs", RA+"constants.rs", RA+"newton.rs", RA+"error_estimate.rs", RA+"step_size_control.rs", RA+"algorithm.rs"], [("stages", DP+"stages.rs:7"), ("iteration", RA+"newton.rs:54"), ("error estimate (implicit)", RA+"error_estimate.rs:8")], ["sol.ts, sol.us, sol.retcode, stats"])
prop("C31", "The end of the interval influences only the steps that could reach it",
  "Two integrations of the same problem with the same settings (maximum step included) that differ only in how far away their end lies, up to a million times or infinitely far, agree bit for bit in times, states, step sizes and work done, up to the point from which the next step, stretched as far as the method allows for meeting the end, reaches the nearer end. A run that gives up before does so in the same way whatever its end.",
  ["inputs", "configurations", "histories"], "all problem families x settings x pairs of ends, both directions and algorithms",
  "No test integrates a problem twice.",
  [DP+"algorithm.rs", DP+"prepare.rs", RA+"algorithm.rs", RA+"step_size_control.rs", "src/ode/integrator.rs"], [("end in reach (explicit)", DP+"algorithm.rs:71"), ("end in reach (implicit)", RA+"step_size_control.rs:93"), ("last attempt (implicit)", RA+"algorithm.rs:117")], ["sol.ts, sol.us, dt, stats after every step"])
prop("C32", "Right-hand sides undefined away from the solution are integrated all the same",
  "Where the right-hand side has values only within some distance of the solution (wide compared with the tolerance) and returns NaN or infinities beyond, in all or in single components, an integration still reaches its end with Success and within tolerance. No step is accepted that used an undefined value. An attempt that met one is repeated with a smaller step: the explicit method reduces by the largest reduction configured (facl); the implicit method halves the step when the value arose in the iteration, and when it arose in the second evaluation of the error estimate it takes a tenth on the very first step and the largest reduction configured later.",
  ["inputs", "configurations", "histories"], "problems with known solutions x margins from 1e-4.5 to 0.1 of the solution x NaN, +inf, -inf x restricted components x settings, both algorithms and directions",
  "All tests use right-hand sides defined everywhere.",
  [DP+"error.rs", DP+"prepare.rs", DP+"algorithm.rs", RA+"newton.rs", RA+"error_estimate.rs", RA+"step_size_control.rs", RA+"algorithm.rs"], [("rejection (explicit)", DP+"prepare.rs:80"), ("failed iteration", RA+"newton.rs:185"), ("rejection (implicit)", RA+"step_size_control.rs:124")], ["times and states of all right-hand side calls, sol.ts, sol.us, sol.retcode"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
