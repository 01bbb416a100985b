#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the text stays readable).
import json, os
P = []
def p(id, title, st, over, qtext, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": st,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Runge-Kutta time grid covers exactly the requested interval",
  "When an explicit or implicit Runge-Kutta integration reports success, the recorded time points start at the given start time with the given initial value, strictly increase, never pass the end time and end at it (up to rounding); without step size control every step but the last has the size asked for. The solution, error and stage records kept next to them are finite and have one entry per time point. This holds whatever callbacks, steps or nonlinear solves failed and were retried on the way.",
  ["inputs", "configurations", "fault_sequences"],
  "all problems, methods, intervals (any sign, offset and length), tolerances, initial steps, step caps, output options, and all sequences of transient callback faults and step rejections",
  "Tests integrate a handful of fixed problems over [0,T] without faults; none looks at the grid after rejected or faulted steps, at offset intervals or at a last step cut short.",
  ["erk.hpp", "irk.hpp"],
  [("cut of the last step at the end time, time advance on acceptance, record push", "erk.hpp: erk_guts; irk.hpp: irk_guts")],
  ["t_vals, y_vals, err, err_est, stages of the returned structure"])

p("C02", "Accepted explicit steps are exact steps of the chosen method",
  "Each step an explicit integration records equals one step of the published method taken from the previously recorded state over the recorded time difference, and so do its recorded error estimate and stages. Rejected attempts, rejected non-finite evaluations and reused last-stage values leave no trace in it.",
  ["inputs", "configurations", "fault_sequences"],
  "all problems, explicit methods, adaptive and fixed stepping, and all patterns of rejected attempts and transient non-finite evaluations",
  "The order test measures global convergence on two smooth problems in which steps are rarely rejected; a stale stage after a rejection or a coefficient used only on the retry path is invisible to it.",
  ["erk.hpp", "erk.cpp"],
  [("stage loop, first-same-as-last reuse, rejection path", "erk.hpp: erk_guts, apply_fsal"), ("tableaux", "erk.cpp: get_coefficients")],
  ["t_vals, y_vals, err_est"])

p("C03", "Accepted adaptive steps satisfy the tolerance and the step cap",
  "In adaptive mode every recorded step has an error measure of at most one, and that number is the root mean square of its recorded error estimate scaled by absolute plus relative tolerance. No step is longer than the configured maximum step size, and the estimate recorded for an implicit step is the one its formula defines, refined on the first step and after a rejected attempt.",
  ["inputs", "configurations", "fault_sequences"],
  "all problems (smooth, stiff, with bursts and discontinuities), methods, tolerances, initial steps and caps, and all transient fault sequences",
  "Tests run default tolerances and compare to analytic solutions loosely; they never check the acceptance criterion step by step nor after a rejection or a failed nonlinear solve.",
  ["erk.hpp", "irk.hpp"],
  [("scaled error norm, acceptance test, new step and cap", "erk.hpp: erk_guts; irk.hpp: irk_guts")],
  ["err, err_est, t_vals, y_vals"])

p("C04", "Non-finite right-hand sides are recovered from or reported",
  "If the user's derivative or Jacobian returns NaN or infinity, once or from some point on, no integrator ever records a non-finite value in a solution it reports as successful and the process is never aborted. Transient bad values are recovered from in adaptive mode, persistent ones are reported through the status or an exception.",
  ["inputs", "fault_sequences", "configurations"],
  "all methods (explicit, implicit, multistep), all call indices, components, kinds (NaN, +inf, -inf, huge) and durations of bad values, and problems leaving their domain",
  "No test has a right-hand side that ever returns a non-finite value.",
  ["erk.hpp", "irk.hpp", "multistep.hpp", "newton.hpp"],
  [("rejection of non-finite estimates, finite checks before recording", "erk.hpp: erk_guts; irk.hpp: irk_guts; multistep.hpp: adams_bashforth, bdf")],
  ["status, t_vals, y_vals, process exit"])

p("C05", "Every integration terminates and honours its step budget",
  "Every integration ends: it either reaches the end time or reports why not, and with a maximum number of steps it takes at most that many, reporting so exactly when the end was not reached. Once faults stop it makes progress to the end time within a bounded number of evaluations, and a fault that never stops ends in a reported failure, not an endless retry.",
  ["inputs", "fault_sequences", "configurations"],
  "all problems including ones with finite-time singularities, all step budgets, persistent and transient callback faults, defective Jacobians, nonlinear solves that never converge, initial steps below the spacing of floating point numbers",
  "Tests never set a step budget and never meet a persistent failure, so neither the limit nor the retry loops are exercised.",
  ["erk.hpp", "irk.hpp", "multistep.hpp", "newton.hpp"],
  [("step limit, step underflow guard, retry with smaller step, iteration caps", "erk.hpp: erk_guts; irk.hpp: irk_guts, newton_solve_stages; newton.hpp")],
  ["status, t_vals, number of callbacks"])

p("C06", "Exceptions and failed allocations leave no trace",
  "An exception thrown by a user callback, or a failed memory allocation, at any point inside an integration or root solve either reaches the caller as it was thrown or is turned into a reported failure. Nothing is leaked, no argument is changed, and the same call repeated without the fault gives bit-identical results to a process where the fault never happened.",
  ["fault_sequences", "crash_points", "histories"],
  "all throw points (any callback or allocation index), exception types, entry points, and sequences of failing and succeeding calls",
  "No test throws from a callback or fails an allocation.",
  ["erk.hpp", "irk.hpp", "multistep.hpp", "newton.hpp", "cyclic_buffer.hpp"],
  [("value semantics of results and state, no catch-all on the integration path", "erk.hpp, irk.hpp, multistep.hpp, newton.hpp")],
  ["exception seen by the caller, live allocations, later results"])

p("C07", "Concurrent and nested integrations do not disturb one another",
  "Integrations and root solves running interleaved on several threads, or started from inside another one's callback, each give bit-identical results to running alone. No hidden state is shared between them.",
  ["schedules", "configurations"],
  "all interleavings at callback, allocation, clock and output points of mixed explicit, implicit, multistep and root solving calls, and all nesting points",
  "All tests are single-threaded and call one solver at a time.",
  ["erk.hpp", "irk.hpp", "multistep.hpp", "newton.hpp", "erk.cpp", "irk.cpp"],
  [("no static or global mutable working state", "all solvers and method registries")],
  ["full result structures"])

p("C08", "Timing is right and never influences results",
  "Reported elapsed times equal the difference between the clock readings at start and end, in milliseconds, also across second boundaries, and the timer helper behaves as a stopwatch that restarts only when told to. The printed timing breakdown adds up to no more than the elapsed time. Clock jumps, stalls and slow callbacks never change any numerical result.",
  ["schedules", "fault_sequences", "inputs"],
  "all sequences of clock readings with steps, backward and forward jumps and stalls, all methods, with internal timing on or off",
  "The tests print timings of real runs and check nothing about them; a real clock cannot be made to jump or to land on a second boundary.",
  ["my_timer.hpp", "erk.hpp", "irk.hpp"],
  [("tic, toc, elapsed arithmetic", "my_timer.hpp: my_timer_linux"), ("timing table", "irk.hpp: irk_guts, print_timing_breakdown")],
  ["elapsed_time, timer return values and messages, printed breakdown"])

p("C09", "Streamed output is exactly every n-th accepted step",
  "With an output stream set, the stream receives exactly one line for every n-th accepted step, in order, holding that step's time and solution and nothing from rejected attempts, for the configured interval n. The in-memory record holds the same steps when storing is enabled and none of them when it is disabled, and neither choice changes the integration itself.",
  ["configurations", "inputs", "fault_sequences"],
  "all methods, output intervals, store and stream combinations, stream formatting settings, and rejection and fault patterns",
  "No test sets an output stream, an interval or disables storing.",
  ["erk.hpp", "irk.hpp", "options.hpp"],
  [("output block on acceptance", "erk.hpp: erk_guts; irk.hpp: irk_guts"), ("mode bits", "options.hpp: output_options")],
  ["bytes in the output stream, t_vals, y_vals"])

p("C10", "A failing output or log sink never corrupts the integration",
  "If the output stream or the log streams fail, fill up, accept only part of a write or reject everything from some point on, the integration's numerical result and status are the same as with perfect sinks. What did reach the sink is a prefix of what a perfect sink would have received.",
  ["fault_sequences", "crash_points", "configurations"],
  "all points and kinds of sink failure (full disk, short write, refused write, error on the log streams) for all methods and output settings",
  "No test writes to a stream that can fail.",
  ["erk.hpp", "irk.hpp", "multistep.hpp", "options.hpp"],
  [("stream writes without read-back or dependence on stream state", "erk.hpp: erk_guts; irk.hpp: irk_guts")],
  ["result structures, bytes in the sink"])

p("C11", "Reported counters equal what really happened",
  "The reported numbers of derivative and Jacobian evaluations equal the number of times the user's callbacks were called by the integration. Attempts equal accepted steps plus rejected ones (counting a final failed attempt), nonlinear solve successes and failures add up to attempts, failures are attributed to one cause each, and the accepted fraction is accepted steps over attempts.",
  ["inputs", "configurations", "fault_sequences"],
  "all problems, methods, options, and patterns of rejected steps, failed nonlinear solves, transient faults, step budgets and failures",
  "Tests print the counters of clean runs without checking them; no test has a rejected nonlinear solve.",
  ["erk.hpp", "irk.hpp"],
  [("counters next to each evaluation and decision", "erk.hpp: erk_guts; irk.hpp: irk_guts, newton_solve_stages")],
  ["count, accept_frac, calls into the user's functor"])

p("C12", "Accepted implicit steps solve the method's equations",
  "Each step an implicit Runge-Kutta integration records solves the stage equations of the published method from the previously recorded state over the recorded time difference, to the tolerance asked for. Wrong, stale or singular-looking Jacobians and failed or retried nonlinear solves may cost steps but never change which equations the accepted steps solve.",
  ["inputs", "configurations", "fault_sequences"],
  "all problems, implicit methods with a supported tableau, adaptive and fixed stepping, Newton options, and sequences of Jacobian faults (scaled, noisy, stale, zero, NaN) and transient evaluation faults",
  "Tests measure convergence order on smooth problems with exact Jacobians and converged iterations only.",
  ["irk.hpp", "irk.cpp"],
  [("simplified Newton iteration and convergence test", "irk.hpp: newton_solve_stages, construct_R"), ("solution update weights", "irk.hpp: irk_guts"), ("tableaux", "irk.cpp: get_coefficients")],
  ["t_vals, y_vals"])

p("C13", "A crashed integration can be resumed from its streamed output",
  "After a crash at any point, every complete line in the output stream is a state the uninterrupted run had accepted, and integrating on from the last one to the end time arrives at the same solution within tolerance. Steps accepted before the crash are in the stream by then. Splitting an integration into legs by step budget and merging the legs keeps all records in order, adds up all counters and elapsed times, and reports a failure of any leg.",
  ["crash_points", "histories", "configurations"],
  "all crash points between and inside writes (torn last line), repeated crashes, all splits into legs of any number and budget, all methods",
  "No test interrupts an integration, resumes one, or merges more than nothing.",
  ["erk.hpp", "irk.hpp", "irk.cpp"],
  [("stream write on acceptance", "erk.hpp: erk_guts; irk.hpp: irk_guts"), ("merge", "irk.cpp: merge_rk_output")],
  ["bytes in the stream, merged structure"])

p("C14", "The history buffer always holds the most recent values",
  "After any sequence of insertions, element assignments, copies, assignments and resizes, a history buffer of period p reads back the min(p, number inserted) most recent values, newest first, by index and by iteration, and reports its size, period and emptiness accordingly. Copies are independent of their source. An exception or failed allocation during any operation leaves a usable buffer and leaks nothing.",
  ["histories", "fault_sequences"],
  "all operation sequences and periods, element types that throw on copy at any point, allocation failures at any point",
  "Tests only use the buffer indirectly inside two multistep runs with small periods; copying, resizing and throwing elements are never exercised.",
  ["cyclic_buffer.hpp"],
  [("doubled storage with wrap-around", "cyclic_buffer.hpp: push_back, operator[], operator=, resize")],
  ["operator[], size, period, empty, data"])

p("C15", "Multistep methods follow their formula on a uniform grid",
  "A successful multistep integration records the uniform grid from the start time to the first point at or beyond the end time, its bootstrap values agree with the true solution to high accuracy, and every later value satisfies the method's published formula with the preceding recorded values at their own times. While no callback fails, a failure is reported only if the values blow up or time no longer advances. It evaluates the caller's own functor object, and the results do not depend on what earlier integrations did.",
  ["inputs", "configurations", "fault_sequences"],
  "all orders of both families, step sizes, intervals, autonomous and time-dependent problems, stateful functors, transient Jacobian faults, slow or jumping clocks",
  "The multistep test prints a few solutions of autonomous problems without comparing them to anything.",
  ["multistep.hpp", "cyclic_buffer.hpp", "newton.hpp"],
  [("bootstrap, history, formula coefficients, Newton solve", "multistep.hpp: bootstrap_history, adams_bashforth_step, adams_bashforth, bdf")],
  ["t_vals, y_vals, status, functor state"])

p("C16", "Internal failures of multistep methods are reported",
  "If the bootstrap or a nonlinear solve inside a multistep integration fails, or values become non-finite, or the step no longer advances time, the integration reports a failure instead of success and does not run forever. What it recorded up to then is a valid beginning of the solution.",
  ["fault_sequences", "inputs"],
  "all fault kinds (NaN, infinity, defective Jacobian, divergence) at all callback indices, both families and all orders, unsupported orders",
  "No test makes any internal stage of a multistep method fail.",
  ["multistep.hpp", "newton.hpp"],
  [("status checks after bootstrap and each solve", "multistep.hpp: bootstrap_history, adams_bashforth, bdf")],
  ["status, t_vals, y_vals"])

p("C17", "Root solvers report truthfully whether they converged",
  "When a root solve reports success, the returned point and residual are finite, the reported residual is the norm of the function there, and the convergence criterion (small residual or small last move) was met. When it does not converge within its iteration limit, diverges or meets a singular or non-finite system it reports a failure, and only then; Newton's method then returns the initial guess, and no internal linear algebra failure escapes. The iteration limit and the maximum step length are respected throughout.",
  ["inputs", "configurations", "fault_sequences"],
  "all systems, starting points, option combinations, and sequences of faulty function and Jacobian values",
  "The two root-finding tests solve one well-behaved system each with default options.",
  ["newton.hpp"],
  [("iteration, termination and status logic", "newton.hpp: newton_iterate_impl, newton_iterate, broyden_iterate")],
  ["returned point, status, residual, iteration count, callback points"])

p("C18", "Method lookups are pure and consistent under any use",
  "Looking up methods by name or code never changes what any later lookup, listing or coefficient query returns, whatever was looked up before, on whichever thread, and whatever allocations failed meanwhile. Every listed name maps to a code that maps back to that name, unknown names and codes are answered as unknown, and every known method has consistent coefficients with defined orders.",
  ["histories", "schedules", "fault_sequences"],
  "all sequences and interleavings of lookups with known, unknown and malformed names and codes, allocation failures at any point",
  "The lookup is used once per test with a known name; no test asks for an unknown one and then looks at the registry again.",
  ["erk.cpp", "irk.cpp", "erk.hpp", "irk.hpp"],
  [("name and code maps", "erk.hpp, irk.hpp: rk_method_to_string, rk_string_to_method"), ("lookup functions", "erk.cpp, irk.cpp: name_to_method, method_to_name, all_method_names, get_coefficients")],
  ["return values of the lookup functions"])

p("C19", "Assertions do not influence results",
  "Building with assertions disabled gives bit-identical results to building with them enabled, for every run that meets the documented preconditions, including runs with faults. No computation happens only inside an assertion.",
  ["configurations", "inputs", "fault_sequences"],
  "all problems, methods, options and fault sequences, both builds",
  "The test suite is built in one configuration only.",
  ["erk.hpp", "irk.hpp", "multistep.hpp", "newton.hpp", "cyclic_buffer.hpp"],
  [("side-effect free assert conditions", "all headers")],
  ["full result structures of both builds"])

p("C20", "Results depend on nothing but the arguments",
  "The same call with the same arguments gives bit-identical results and fully defined result fields, on success and on failure alike, whatever ran before it in the process and whatever the contents of fresh memory happen to be.",
  ["histories", "configurations", "fault_sequences"],
  "all problems, methods, options, fault sequences, preceding calls, and initial contents of heap, stack and result memory",
  "Every test process runs each configuration once with whatever memory contents the system happens to provide.",
  ["erk.hpp", "irk.hpp", "multistep.hpp", "newton.hpp", "erk.cpp", "irk.cpp"],
  [("initialisation of result fields and working arrays", "erk.hpp: erk_guts; irk.hpp: irk_guts; multistep.hpp; erk.cpp, irk.cpp: get_coefficients")],
  ["full result structures"])

p("C21", "What happens later never changes what was already computed or written",
  "The callbacks a call makes, the rows it streams and the records it stores up to some moment do not depend on anything that comes after it. A fault that strikes later, a smaller step budget, or (apart from the step that the earlier end cuts) a later end of the interval leaves the common part of the run bit-identical; a run stopped by its budget is a prefix of the unlimited one.",
  ["inputs", "configurations", "fault_sequences", "histories"],
  "all problems, methods, options, moments, and kinds of later fault, step budget or end time",
  "Every test looks at one complete run; none compares two runs that differ only in their future.",
  ["erk.hpp", "irk.hpp", "multistep.hpp", "newton.hpp"],
  [("step loops", "erk.hpp: erk_guts; irk.hpp: irk_guts; multistep.hpp: adams_bashforth, bdf"), ("streamed output", "erk.hpp, irk.hpp")],
  ["sequence of callbacks, stream contents at each callback, result prefix"])

p("C22", "Callbacks are asked only for what the contract allows",
  "Every call of the user's functor is made on the object that was passed in, during the call, with a finite vector of the right size unless a non-finite value has already occurred, and at a time inside the interval being integrated. Explicit methods and Broyden's method never ask for a Jacobian. The number of evaluations stays within what the attempted steps, stages and iteration limits allow.",
  ["inputs", "configurations", "fault_sequences"],
  "all problems, methods, options and callback, Jacobian and allocation faults",
  "The tests' functors accept anything they are called with and are defined on the whole line.",
  ["erk.hpp", "irk.hpp", "multistep.hpp", "newton.hpp"],
  [("stage evaluation", "erk.hpp: erk_guts; irk.hpp: newton_solve_stages, construct_R, irk_guts"), ("Newton and Broyden", "newton.hpp"), ("bootstrap and steps", "multistep.hpp")],
  ["time, argument and number of callbacks"])

p("C23", "Working memory does not grow with the length of a run",
  "An integration that stores nothing, or only streams, and a root solve of any number of iterations use a bounded amount of memory however many steps, rejected attempts and failed nonlinear solves they take, and have freed all of it when they return.",
  ["inputs", "configurations", "fault_sequences"],
  "all long runs without stored records, with any pattern of rejected attempts and Jacobian faults",
  "No test measures memory; leaks and growth of the size a test causes go unnoticed.",
  ["erk.hpp", "irk.hpp", "newton.hpp", "output.hpp"],
  [("storing of accepted steps", "erk.hpp: erk_guts; irk.hpp: irk_guts"), ("working arrays", "newton.hpp: newton_iterate_impl, broyden_iterate")],
  ["bytes in use at every callback, and after the call"])

p("C24", "Diagnostics never influence results and leave no trace",
  "Progress logging, timing breakdowns, iteration reports and printed tableaux change nothing but the text they print: results, callbacks and streamed rows are the same with them on or off, whatever happens to the stream they go to, and formatting flags, precision, fill, width, error state and buffers of std::cout, std::cerr and the output stream are as they were before the call.",
  ["inputs", "configurations", "fault_sequences"],
  "all problems, methods, diagnostic options, stream states, failing sinks and clock behaviour",
  "The tests neither compare runs with and without logging nor look at the state of the streams afterwards.",
  ["erk.hpp", "irk.hpp", "irk.cpp", "newton.hpp", "my_timer.hpp"],
  [("logging", "erk.hpp: erk_guts; irk.hpp: irk_guts, print_timing_breakdown; newton.hpp: print_stats"), ("printing a tableau", "irk.cpp: operator<<")],
  ["results with and without diagnostics, stream state before and after"])

p("C25", "Finite difference Jacobians and functor wrappers are faithful under faults",
  "The approximated Jacobian is the central difference of the function at the given point and width: each evaluation moves one variable by the width and nothing else, non-finite values spoil only the column they belong to, exceptions reach the caller unchanged, nothing leaks and the point is not modified. The combined evaluation of the functor interface gives exactly what separate evaluations give, and the Jacobian only when asked. Jacobian verification accepts right and rejects wrong Jacobians. Integrations that use the approximation still solve their stage equations and succeed where the analytic Jacobian succeeds.",
  ["inputs", "configurations", "fault_sequences"],
  "all functions, points, widths, and faults of any evaluation or allocation",
  "The tests use finite differences only through a verification function that can never fail.",
  ["newton.hpp", "functor.hpp", "irk.hpp"],
  [("central differences", "newton.hpp: approx_jacobi_matrix, verify_jacobi_matrix"), ("wrappers", "newton.hpp: newton_functor_wrapper, newton_lambda_wrapper; functor.hpp: functor::compute")],
  ["approximated matrix, points and times of the evaluations, exceptions"])

p("C26", "The choice of units changes nothing but the units",
  "Expressing the solution in another unit (scaling initial value, right-hand side, absolute and Newton tolerances alike) rescales every recorded value and leaves times, steps, counters, status and callbacks otherwise the same, for explicit and implicit Runge-Kutta methods; expressing time in another unit does the same for explicit ones. For units that are powers of two the agreement is exact, with and without faults: there are no hidden absolute thresholds.",
  ["inputs", "configurations", "fault_sequences"],
  "all problems, methods, options, units, and sequences of non-finite values and defective Jacobians",
  "All tests use quantities of order one.",
  ["erk.hpp", "irk.hpp", "options.hpp"],
  [("error measure and step control", "erk.hpp: erk_guts; irk.hpp: irk_guts"), ("Newton criteria", "irk.hpp: newton_solve_stages")],
  ["records, counters and callbacks of the same run in two units"])

na = [
 ("N01", "Convergence order and order conditions of the tableaux", "Each Runge-Kutta tableau satisfies the order conditions of its stated order and its embedded weights those of the embedded order.",
  ["inputs"], "all supported methods", "The order test samples two problems per method and tolerates deviations.", ["erk.cpp", "irk.cpp"], [("tableaux", "erk.cpp, irk.cpp: get_coefficients")]),
 ("N02", "Stability functions and regions", "The stability region utility evaluates the rational stability function of each method correctly for every complex argument.",
  ["inputs"], "all methods and complex arguments", "Not tested at all; a picture is produced.", ["stability_region"], [("stability function", "stability_region sources")]),
 ("N03", "Interpolation weights reproduce the step at its end points", "The dense output weights of each method vanish at the start of a step, equal the method's weights at its end, and interpolate polynomials up to their degree.",
  ["inputs"], "all methods and interpolation points", "The tests evaluate few points.", ["irk.cpp", "erk.cpp"], [("interpolation", "irk.cpp: project_b, collocation_interpolate_coeffs, expand")]),
 ("N04", "Bundled test equations match their Jacobians and invariants", "The Jacobian of each bundled test equation is the derivative of its right-hand side, and conserved quantities of the equations are conserved by the right-hand side.",
  ["inputs"], "all states and times", "Only used along a few trajectories.", ["test_equations.hpp"], [("equations", "test_equations.hpp")]),
]
for id, title, st, over, q, why, files, mech in na:
    p(id, title, st, over, q, why, files, mech)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P))
