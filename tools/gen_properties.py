#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept here because JSON lines are unpleasant to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))
DN = "crates/linear/src/dense.rs"; NW = "crates/nonlinear/src/newton.rs"; NT = "crates/nonlinear/src/traits.rs"
NO_RUN = "The integrator sources are not part of any crate that the workspace builds today, so no test runs them at all; "

# ------------------------------------------------------------------ integrator
p("I01", "Normal mode delivers the solution exactly at the requested time",
  """Whenever an integration call in normal mode reports success, the returned time equals the requested output time and the
  solution and derivative made available are the integrator's own interpolant at that time. The internal time has then reached or
  passed the requested time in the direction of integration, and over any sequence of calls internal time never moves backwards and
  no call returns a time beyond the internal time.""",
  ["inputs", "histories"], "all problems, tolerances, output-time sequences (increasing, repeated, inside or far beyond the last step), both directions, with and without events",
  NO_RUN + "the unit tests beside them probe single internal routines from one frozen state, never a sequence of calls.",
  ["src/impl_solve.rs", "src/impl_stop_test.rs", "src/lib.rs"],
  [("internal time", "time reached by the step loop", "src/ida_nls.rs ida_tn"), ("last returned time", "value handed to the caller by the previous call", "src/lib.rs ida_tretlast")],
  [("stop tests before and after a step", "src/impl_stop_test.rs"), ("interpolation", "src/lib.rs get_solution"), ("main driver", "src/impl_solve.rs solve")],
  ["return of every solve call: status, tret, get_current_time, get_yy, get_yp"])
p("I02", "One-step mode advances by exactly one internal step",
  """A one-step call that reports success without an intervening event takes exactly one accepted internal step and returns the
  internal time, which differs from the previous internal time by the reported last step size. If an event interrupted the previous
  call inside a step, the next call finishes delivering that same step before a new one is taken.""",
  ["inputs", "histories"], "all problems and mixes of one-step and normal calls, with and without events",
  NO_RUN + "no test calls the driver in one-step mode.",
  ["src/impl_solve.rs", "src/impl_stop_test.rs"], [("step counter", "accepted steps so far", "src/lib.rs counters.ida_nst")],
  [("one-step branches of the stop tests", "src/impl_stop_test.rs"), ("event re-entry", "src/impl_solve.rs")],
  ["return of every solve call: tret, get_current_time, get_num_steps, get_last_step"])
p("I03", "Dense output agrees with the accepted steps",
  """Inside the last accepted step, the interpolated value, and each derivative up to the order last used, are those of the polynomial
  of that degree passing through the most recently accepted solution values. Requests earlier than the last step, or for a
  derivative above the order last used, are rejected with an error; every other request succeeds and alters nothing that later steps
  depend on.""",
  ["inputs", "histories"], "all step and order histories (orders 1 to 5), all evaluation points in and before the last step, all derivative orders",
  NO_RUN + "one unit test evaluates the interpolant of one frozen state, at its right end point only; derivatives are untested.",
  ["src/lib.rs"], [("modified divided differences", "history array from which values are interpolated", "src/lib.rs ida_phi, ida_psi")],
  [("get_solution", "src/lib.rs"), ("get_dky", "src/lib.rs")], ["get_solution/get_dky return values, get_yy, get_yp"])
p("I04", "Every step attempt extrapolates exactly the accepted history",
  """The predicted solution and derivative of every step attempt are the value and derivative, at the attempted time, of the
  polynomial of the current order through the most recent accepted solutions (on the very first step: the straight line through the
  initial value with the initial derivative). Attempts that fail, for whatever reason and however often, leave no trace in later
  predictions.""",
  ["inputs", "histories", "fault_sequences"], "all histories of step sizes and orders and all sequences of error-test and convergence failures",
  NO_RUN + "the unit tests check coefficient set-up, restore and completion separately on a few captured numbers; that a failed attempt followed by a retry reproduces the history is a property of their composition over histories.",
  ["src/lib.rs", "src/impl_complete_step.rs"], [("modified divided differences", "history array, rescaled in place by each attempt", "src/lib.rs ida_phi, ida_psi, ida_beta")],
  [("set_coeffs / predict / restore / reset", "src/lib.rs"), ("history update", "src/impl_complete_step.rs complete_step")],
  ["arguments of the first residual evaluation of every attempt"])
p("I05", "Residual and Jacobian are evaluated consistently with the BDF formula",
  """In every evaluation during a step attempt of order k and size h, the time passed to the user's residual and Jacobian functions is
  the attempted time, and the derivative differs from the predicted derivative by exactly (1 + 1/2 + ... + 1/k)/h times the
  difference between the value and the predicted value. The Jacobian function is given that same factor and the same value and
  derivative at which the residual was last evaluated.""",
  ["inputs", "histories"], "all problems (autonomous or not), orders, step sizes and Newton iterates",
  NO_RUN + "the sample problems ignore the time argument, so they could not notice a wrong one.",
  ["src/ida_nls.rs", "src/ida_ls.rs", "src/lib.rs"], [("leading coefficient", "factor in y' correction and system Jacobian", "src/ida_ls.rs ida_cj")],
  [("residual wrapper", "src/ida_nls.rs sys"), ("Jacobian wrapper", "src/ida_ls.rs setup")], ["arguments of user residual and Jacobian functions"])
p("I06", "A step is accepted exactly when its local error estimate passes",
  """An attempt whose nonlinear solve succeeded is accepted if and only if the weighted RMS norm of its correction, times the
  variable-step error coefficient of the current step-size history, is at most one; otherwise it is counted as an error-test failure
  and retried or reported. The accepted solution is the prediction plus the correction.""",
  ["inputs", "histories"], "all step-size and order histories, corrections and weights",
  NO_RUN + "two captured states are tested for the estimator alone.",
  ["src/lib.rs"], [("error coefficient", "function of the recent step sizes", "src/lib.rs set_coeffs")], [("error test", "src/lib.rs test_error")],
  ["corrections returned by the nonlinear solver, get_num_steps, get_num_err_test_fails, first residual arguments of the next attempt"])
p("I07", "Failed attempts shrink the step as prescribed and are bounded",
  """After an error-test failure the next attempt's step is reduced by a factor in [1/4, 9/10] (exactly 1/4 from the second failure
  on) with the order kept or lowered by one, and set to one from the third failure on; after a recoverable convergence failure the
  step is reduced by exactly 1/4 at unchanged order. Ten failures of one kind in one step, or any unrecoverable failure, end the call
  with an error at the last accepted time, and every failure increments its counter exactly once.""",
  ["fault_sequences", "histories"], "all interleavings of error-test failures, convergence failures and unrecoverable failures within and across steps",
  NO_RUN + "no test makes an attempt fail.",
  ["src/lib.rs"], [("per-step failure counts", "error-test and convergence failures of this step", "src/lib.rs step")], [("failure handler", "src/lib.rs handle_n_flag")],
  ["time and derivative factor of successive attempts, counters, returned errors"])
p("I08", "Order and step-size selection follow the local error estimates",
  """Orders stay between one and five and change by at most one per accepted step; while no attempt has failed and the order has
  neither been lowered nor reached five, the order rises and the step doubles with every step after the first. Afterwards the order
  moves to a neighbouring order only as the error estimates at the neighbouring orders dictate and never upward before enough equal
  steps were taken, and the step is doubled, kept, or multiplied by a factor in [1/2, 9/10] according to the estimate at the chosen
  order.""",
  ["inputs", "histories"], "all sequences of corrections, weights and failures",
  NO_RUN + "four captured states are tested for step completion alone.",
  ["src/impl_complete_step.rs", "src/lib.rs"], [("order, phase, equal-step counter", "selection state", "src/lib.rs ida_kk, ida_phase, ida_ns, ida_knew")],
  [("complete_step", "src/impl_complete_step.rs"), ("order-decrease suggestion", "src/lib.rs test_error")], ["get_current_order, get_last_order, get_current_setp, get_last_step after each step"])
p("I09", "No event is skipped",
  """Between two consecutive returned points with no event reported in between, no monitored event function has opposite signs at the
  two points, and an event function that is exactly zero at an accepted point is reported there. This includes crossings in the very
  first step; functions that are zero at the start are exempt until they become nonzero.""",
  ["inputs", "histories"], "all event functions and numbers of them, sign patterns, crossings in the same step, calls in either mode and direction",
  NO_RUN + "the event code has no test.",
  ["src/impl_r_check.rs", "src/impl_solve.rs"], [("event values at the left end", "g at the last returned point", "src/lib.rs ida_glo, ida_tlo, ida_gactive")],
  [("pre-step, post-step and initial checks", "src/impl_r_check.rs"), ("bracketing search", "src/impl_r_check.rs root_find")],
  ["returned statuses and times, event functions re-evaluated on the returned solutions"])
p("I10", "Reported events are real, tightly located and correctly signed",
  """Each reported event names at least one event function, and exactly those that vanish at the returned point or change sign within
  the location tolerance before it; the sign is +1 for an increasing and -1 for a decreasing crossing. Events are returned in the
  order they occur along the integration, each at most once, and never beyond the requested output time.""",
  ["inputs", "histories"], "all event functions, multiple and simultaneous crossings, both modes and directions",
  NO_RUN + "the event code has no test.",
  ["src/impl_r_check.rs", "src/ida_io.rs"], [("event report", "which functions and with which sign", "src/lib.rs ida_iroots")],
  [("bracketing search", "src/impl_r_check.rs root_find")], ["solve status, tret, get_root_info, event function values logged at evaluations"])
p("I11", "The Jacobian is refreshed exactly when the policy requires",
  """The Jacobian is evaluated for every attempt until a first step succeeds, whenever the BDF factor has drifted outside [3/5, 5/3] of its
  value at the last evaluation, and after a recoverable convergence failure with an older Jacobian; otherwise the old factorization is
  reused. When it is reused with a different factor, every Newton correction is scaled by 2/(1+ratio) of the current to the old
  factor.""",
  ["inputs", "histories"], "all step-size/order histories and convergence failures",
  NO_RUN + "one ignored test calls the nonlinear solve once.",
  ["src/lib.rs", "src/ida_nls.rs", "src/ida_ls.rs"], [("factor at last evaluation", "for the drift ratio", "src/ida_ls.rs ida_cjold, ida_cjratio")],
  [("refresh decision", "src/lib.rs nonlinear_solve"), ("scaling", "src/ida_ls.rs solve")], ["Jacobian calls, linear solver setup/solve calls"])
p("I12", "Corrector convergence is decided by the rate-based test",
  """A corrector iteration is accepted only when its weighted correction norm times the current rate constant is at most the Newton
  tolerance, or when the first correction is negligible; from the second iteration on, a convergence rate above 0.9 is a recoverable
  failure and otherwise renews the rate constant. The rate constant is reset after a Jacobian refresh and after any change of the BDF
  factor.""",
  ["inputs", "histories"], "all sequences of correction norms across iterations, attempts and steps",
  NO_RUN + "the test has state that survives across steps, which single calls cannot exercise.",
  ["src/ida_nls.rs", "src/lib.rs"], [("rate constant, first norm", "carried between iterations and steps", "src/ida_nls.rs ida_ss, ida_oldnrm")],
  [("convergence test", "src/ida_nls.rs ctest"), ("resets", "src/lib.rs nonlinear_solve, src/ida_nls.rs setup")], ["outcome of each convergence test as seen by a pluggable nonlinear solver"])
p("I13", "Error weights come from the tolerances at the last accepted solution",
  """Every norm used in a step weighs component i by 1/(rtol*|y_i| + atol_i) taken at the last accepted solution (the initial values
  on the first step), for scalar and for per-component absolute tolerances. A weight that is not positive, or a tolerance below what
  the working precision can resolve at that solution, stops the call with an error before a step is attempted and reports the current
  time.""",
  ["inputs", "histories"], "all tolerances and solution histories",
  NO_RUN + "the tolerance classes have no test.",
  ["src/tol_control.rs", "src/impl_solve.rs", "src/lib.rs"], [("weights", "per component", "src/ida_nls.rs ida_ewt")], [("TolControlSS/SV", "src/tol_control.rs"), ("weight and accuracy checks", "src/impl_solve.rs")],
  ["weights handed to the nonlinear solver and returned errors"])
p("I14", "One call never exceeds the step limit and can be resumed",
  """A single integration call takes at most 500 accepted steps; if the goal is not reached it returns an error at the current internal
  time. Calling again resumes as if the limit had not intervened, so splitting an integration over any number of calls yields the
  same steps.""",
  ["inputs", "histories"], "all problems whose integration needs more than the limit, all ways to split an interval into calls",
  NO_RUN + "no test integrates.",
  ["src/impl_solve.rs"], [("local step counter", "accepted steps in this call", "src/impl_solve.rs nstloc")], [("limit check", "src/impl_solve.rs")], ["solve results and counters"])
p("I15", "A rejected request leaves the integration untouched",
  """A call rejected for its arguments (output time indistinguishable from the start, interpolation outside the last step, derivative
  order too high, stop time behind the current time) returns an error and any later valid call behaves exactly as if the rejected
  call had not been made.""",
  ["inputs", "histories"], "all positions of rejected calls in all call histories",
  NO_RUN + "no test makes a rejected call.",
  ["src/impl_solve.rs", "src/lib.rs", "src/impl_stop_test.rs"], [], [("first-call checks", "src/impl_solve.rs"), ("legality checks", "src/lib.rs get_solution, get_dky")], ["results of paired call sequences"])
p("I16", "Statistics report what actually happened",
  """The reported numbers of steps, residual evaluations, Jacobian evaluations, linear-solver setups, error-test failures, convergence
  failures, nonlinear iterations and event-function evaluations equal the number of times each of these happened since creation,
  at every point where control returns to the caller.""",
  ["histories", "inputs", "fault_sequences"], "all call histories",
  NO_RUN + "no test reads a statistic after integrating.",
  ["src/ida_io.rs", "src/lib.rs", "src/ida_nls.rs", "src/ida_ls.rs"], [("counters", "cumulative", "src/lib.rs counters")], [("increments", "src/lib.rs, src/ida_nls.rs, src/ida_ls.rs, src/impl_r_check.rs")], ["getters against counted user callbacks"])
p("I17", "Integrating backwards mirrors integrating forwards",
  """Integrating the time-reflected problem in the opposite direction through the reflected output times yields the reflected run: the
  same statuses, orders, values, statistics and event reports at mirrored times, with step sizes of opposite sign.""",
  ["inputs", "histories"], "all problems, modes and output-time sequences",
  NO_RUN + "no test integrates, in either direction.",
  ["src/impl_solve.rs", "src/impl_stop_test.rs", "src/impl_r_check.rs", "src/lib.rs"], [("signed step size", "direction of integration", "src/lib.rs ida_hh")], [("direction-aware comparisons", "src/impl_solve.rs, src/impl_stop_test.rs, src/impl_r_check.rs")], ["paired runs"])
p("I18", "The stop time is never overstepped",
  """With a stop time set, no residual is evaluated and no time is returned beyond it (up to rounding), and once the stop time is reached the call returns the
  stop status with the solution at exactly that time; afterwards integration can continue past it. A stop time behind the current
  time is rejected.""",
  ["inputs", "histories"], "all stop times relative to steps and output times, both modes and directions",
  NO_RUN + "no test sets a stop time.",
  ["src/impl_stop_test.rs", "src/impl_solve.rs", "src/lib.rs"], [("stop time", "optional", "src/lib.rs ida_tstop")], [("step truncation", "src/impl_stop_test.rs, src/impl_solve.rs"), ("clamping in step", "src/lib.rs step")],
  ["times passed to the residual function, solve status, tret"], "a guarded setter: the field has no public one at this commit")

# ------------------------------------------------------------------ nonlinear
p("N01", "Every nonlinear solve terminates within a bounded amount of work",
  """A Newton solve returns after at most two attempts, each of at most the configured maximum number of iterations (at least one),
  whatever the user's residual, setup, linear-solve and convergence-test routines answer. In particular persistent recoverable
  failures end in an error return, not in endless retrying.""",
  ["inputs", "fault_sequences", "histories"], "all answers of the user routines in all orders, all iteration limits, fresh and reused solvers",
  "The only test runs one well-behaved problem that converges in a few iterations; divergence, retry and give-up paths never run.",
  [NW], [("retry flag, Jacobian status", "decide whether to attempt again", NW + " jbad, jcur")], [("outer attempt loop and inner iteration loop", NW + " solve")], ["user routine calls and the return of solve"])
p("N02", "Success is reported only for an iterate that passed the convergence test",
  """A nonlinear solve reports success if and only if the last user routine it called was the convergence test and that test answered
  'converged'; the solution it returns is exactly the iterate that test was given. It never calls another user routine after that
  answer.""",
  ["inputs", "fault_sequences"], "all answers of the user routines in all orders, all iterate values, sizes and iteration limits",
  "The only test checks one converging solve's final numbers.",
  [NW, NT], [("iterate", "output argument", NW + " y")], [("result of the convergence test", NW + " solve")], ["convergence test arguments and answer; return value and output of solve"])
p("N03", "Each iterate is the previous one plus the linear solver's correction",
  """Every attempt starts from the caller's initial guess, and each later iterate is the previous iterate plus the correction delivered by
  the linear solve. The linear solve and the convergence test are given exactly the current iterate, and the convergence test exactly that
  correction together with the caller's tolerance and weights.""",
  ["inputs", "fault_sequences", "histories"], "all corrections including zero, all numbers of iterations and attempts, all vector lengths",
  "One trajectory of one problem is tested at its end point only.",
  [NW], [("iterate, correction", "vectors", NW + " y, delta")], [("Newton update", NW + " solve")], ["arguments of linear solve and convergence test"])
p("N04", "Each linear solve is driven by the residual at the current iterate",
  """The right-hand side of every linear solve is the exact negation of the residual most recently computed, that residual was computed at
  the current iterate, and the residual is evaluated exactly once per linear solve.""",
  ["inputs", "fault_sequences", "histories"], "all residual values including zero, all numbers of iterations and attempts",
  "A stale or doubly evaluated residual changes the trajectory only slightly in the one test.",
  [NW], [("residual/correction vector", "shared storage", NW + " delta")], [("residual evaluation points", NW + " solve")], ["arguments of residual and linear-solve routines"])
p("N05", "Jacobian setup happens at most once per attempt and only when asked for",
  """The setup routine is called in the first attempt if and only if the caller asked for it, with the flag saying the Jacobian is not
  suspect, and in a retry always, with the flag saying it is. It is called before any linear solve of the attempt, and is given the
  initial guess and the residual at that guess.""",
  ["inputs", "fault_sequences", "histories"], "all combinations of the caller's request, answers and earlier solves",
  "The test requests setup once; the retry path and the no-setup path never run.",
  [NW], [("setup request, suspect flag", "per attempt", NW + " call_lsetup, jbad")], [("setup call", NW + " solve")], ["setup routine calls and arguments"])
p("N06", "Failures are retried only when a stale Jacobian may be to blame",
  """A failure from a user routine that is not a recoverable convergence failure ends the solve at once and is returned unchanged. A
  recoverable one, including running out of iterations, leads to a retry if and only if no retry has been made in this solve and the
  Jacobian is not current, where it is current if the last setup that answered reported a fresh Jacobian and no solve has succeeded
  since; otherwise it is returned as a recoverable convergence failure.""",
  ["fault_sequences", "histories", "inputs"], "all failure kinds from each user routine at each position, all preceding solves on the same solver",
  "No test makes a user routine fail.",
  [NW, "crates/nonlinear/src/lib.rs"], [("Jacobian status", "survives between solves", NW + " jcur")], [("failure classification", NW + " solve")], ["return value of solve and calls following a failure"])
p("N07", "Nonlinear statistics count iterations and failed attempts exactly",
  """Over the life of a solver the total iteration count equals the number of linear solves requested and the failure count equals the
  number of attempts that ended in failure. The current-iteration index seen by the convergence test is the number of corrections
  already rejected in the current attempt, starting at zero.""",
  ["histories", "fault_sequences"], "all sequences of solves on one solver with all outcomes",
  "The counters are printed by the test, not checked.",
  [NW], [("counters", "cumulative and current", NW + " niters, nconvfails, curiter")], [("increments", NW + " solve")], ["get_num_iters, get_num_conv_fails, get_cur_iter"])
p("N08", "A reused nonlinear solver behaves like a new one",
  """After any history of earlier solves, successful or not, a solve makes the same calls with the same arguments and returns the same
  result as on a newly created solver given the same answers, except that cumulative statistics continue and that a Jacobian left
  current by a failed solve may suppress the retry. Problem dimension and iteration limit do not matter to this.""",
  ["histories", "inputs"], "all histories of earlier solves with all outcomes",
  "The test uses a solver once.",
  [NW], [("state surviving a solve", "correction vector, Jacobian status, iteration index", NW)], [("re-initialisation at solve entry", NW + " solve")], ["paired solves on reused and fresh solvers"])

# ------------------------------------------------------------------ linear
p("L01", "Factor-and-solve returns the solution of the system it was given",
  """For every square nonsingular matrix of any size from one and every right-hand side, a successful setup followed by a solve yields x
  with A x = b for the original matrix: exactly when the scalar arithmetic is exact, and with a residual that is a small multiple of
  the unit roundoff times |L||U||x| in floating point, for single and double precision and independent of how the system is
  scaled.""",
  ["inputs"], "all nonsingular matrices, right-hand sides, sizes and scalar types, including ones that need row interchanges at every step",
  "One 4x4 system with a loose tolerance and two captured 3x3 solves; one pivot pattern.",
  [DN], [("factorization and row interchanges", "left by setup", DN + " Dense.pivots and the matrix argument")], [("elimination", DN + " dense_get_rf"), ("substitution", DN + " dense_get_rs")], ["outputs of setup and solve"])
p("L02", "The factorization is PA = LU with multipliers of magnitude at most one",
  """After a successful setup the matrix argument holds U on and above the diagonal and, below it, the multipliers of a unit lower
  triangular L, such that L U is a row permutation of the original matrix. No multiplier exceeds one in magnitude, that is, the
  largest available entry of the column is the pivot.""",
  ["inputs"], "all nonsingular matrices, sizes and scalar types, including ties, negative pivots and already triangular matrices",
  "Two captured 3x3 matrices with the same pivot order.",
  [DN], [("factor storage", "in place", DN + " mat_a")], [("partial pivoting", DN + " dense_get_rf")], ["matrix argument after setup"])
p("L03", "Setup fails exactly on singular matrices and names the first dependent column",
  """In exact arithmetic setup reports failure if and only if the matrix is singular, and the column it names, counted from one, is the first
  column that is a linear combination of the columns before it. In floating point an exactly zero pivot column is always reported
  and a matrix all of whose pivots stay nonzero is never rejected, however small its entries.""",
  ["inputs"], "all square matrices of all ranks and sizes, at any scaling",
  "No test passes a singular matrix.",
  [DN, "crates/linear/src/lib.rs"], [], [("zero pivot check", DN + " dense_get_rf")], ["result of setup"])
p("L04", "A solve uses only the factorization and the right-hand side",
  """A solve leaves the matrix, the right-hand side and the solver unchanged and its result does not depend on the previous contents of the output
  vector or on the tolerance. Any number of solves after one setup, in any order, give the results each would give alone.""",
  ["inputs", "histories"], "all sequences of solves after a setup, all prior output contents and tolerances",
  "Each test solves once into a zeroed vector.",
  [DN], [], [("copy of b into x, substitution in place on x", DN + " solve")], ["outputs and arguments of solve"])
p("L05", "A reused linear solver remembers only its latest setup",
  """After any sequence of earlier setups, successful or failed, and solves, a new setup and the solves following it give exactly the results
  a newly created solver would give.""",
  ["histories"], "all sequences of setups on singular and nonsingular matrices interleaved with solves",
  "No test calls setup twice on one solver.",
  [DN], [("pivots", "overwritten by each setup", DN + " Dense.pivots")], [("pivot recording", DN + " dense_get_rf")], ["outputs of setup and solve on reused and fresh solvers"])

# ------------------------------------------------------------------ norms
p("W01", "The weighted RMS norm is the root of the mean weighted square",
  """For every vector and weight vector of the same length from one, the norm equals the square root of the mean of the squared products of
  components and weights, to rounding; it is therefore nonnegative, zero only if all products are, unaffected by signs and by
  reordering, and scales with the vector. Computing it changes neither argument.""",
  ["inputs"], "all vectors and weights of all lengths, static or dynamic, single and double precision, away from overflow and underflow",
  "One constant vector of length 32 is tested.",
  ["crates/nonlinear/src/norm_wrms.rs"], [], [("norm", "crates/nonlinear/src/norm_wrms.rs norm_wrms")], ["return value"])
p("W02", "The integrator's norms agree with the weighted RMS norm and honour the mask",
  """The integrator's norm equals the square root of the mean of squared weighted components; with a mask, components masked out contribute nothing while the
  mean is still taken over the full length, so the masked norm never exceeds the unmasked one.""",
  ["inputs"], "all vectors, weights and masks", NO_RUN + "one constant vector and one mask are tested.",
  ["src/norm_rms.rs"], [], [("norms", "src/norm_rms.rs")], ["return values"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
