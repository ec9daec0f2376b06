#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = state
    assert len(title) <= 80, title
    P.append(d)


ERK, IRK, MS, NW = "erk.hpp", "irk.hpp", "multistep.hpp", "newton.hpp"

p("P01", "Explicit tableaux have the declared order, are explicit, FSAL truthful",
  "Every explicit Runge-Kutta method offered by name has coefficients that satisfy all order conditions (every rooted tree) up to the order the library declares for it, each stage uses only earlier stages, and each abscissa is the sum of its row. A method marked first-same-as-last really has its last stage equal to the first stage of the next step.",
  ["inputs", "configurations"], "every right-hand side and step size, every explicit method code",
  "A coefficient with a wrong late digit still integrates a sample problem to a loose tolerance; the tests run one method on a few problems.",
  ["erk.cpp", "erk.hpp", "enums.hpp"], [("coefficient tables", "erk::get_coefficients"), ("method list", "FOREACH_ERK_METHOD")],
  ["coefficients returned for each method code"])
p("P02", "Implicit tableaux have the declared order",
  "Every implicit Runge-Kutta method that the library returns coefficients for satisfies the order conditions up to its declared order, has consistent sizes, and has each abscissa equal to the sum of its row.",
  ["inputs", "configurations"], "every right-hand side and step size, every implicit method code",
  "The tests compare one or two methods on smooth problems, where a lost order is hidden by the tolerance.",
  ["irk.cpp", "irk.hpp", "enums.hpp"], [("coefficient tables", "irk::get_coefficients")], ["coefficients returned for each method code"])
p("P03", "Embedded formulas are consistent, of declared order, and differ from main",
  "For every method with an embedded pair the second set of weights (together with the extra weight on the step's first derivative for implicit methods) satisfies the order conditions up to its declared order and differs from the main weights, so that the error estimate is a meaningful quantity.",
  ["inputs", "configurations"], "every method with an embedded formula",
  "An inconsistent embedded formula only makes step sizes too small or errors too large; solutions in tests stay within tolerance.",
  ["erk.cpp", "irk.cpp"], [("embedded weights", "get_coefficients b2/gamma")])
p("P04", "Stiff methods are A-stable, those named L-stable damp at infinity",
  "The stability function of every implicit method the library returns satisfies |R(z)| <= 1 on the whole left half plane, and for the Radau IIA, Lobatto IIIC and implicit Euler families R tends to 0 at infinity.",
  ["inputs", "configurations"], "every complex z with non-positive real part, every implicit method",
  "A test can evaluate R at a few z; the guarantee quantifies over a half plane.",
  ["irk.cpp"], [("coefficient tables", "irk::get_coefficients")])
p("P05", "Multistep formulas are those of AB1-5 and BDF1-6 at the right times",
  "One step of the explicit multistep integrator of order k advances the solution by the Adams-Bashforth formula of order k applied to the derivatives at the k latest accepted points and at the times those points belong to. One step of the backward differentiation integrator of order k returns a root of the BDF-k equation formed from the k latest points and the right-hand side at the new time.",
  ["inputs", "histories"], "every right-hand side (including time-dependent ones), every order, every history",
  "Autonomous test problems cannot see a wrong evaluation time, and low accuracy hides a wrong high-order coefficient.",
  [MS, "cyclic_buffer.hpp"], [("AB formulas", "multistep::adams_bashforth_step"), ("BDF coefficients", "multistep::bdf")])
p("P06", "Multistep start-up: k-1 genuine solution points at spacing dt",
  "Before its first own step a multistep integrator of order k holds the initial value and the further starting points its formula needs, at consecutive multiples of the step size, each obtained by integrating the user's equation from the previous point over exactly one step, and reports exactly these points as the start of the trajectory.",
  ["inputs", "histories"], "every equation, initial value, order and step size",
  "Tests look at one trajectory with a loose tolerance.",
  [MS], [("start-up", "multistep::bootstrap_history")])
p("P07", "Bundled equations: Jacobian is the derivative of the right-hand side",
  "For every bundled test equation the Jacobi matrix function is exactly the matrix of partial derivatives of its right-hand side, at every point and for every parameter value.",
  ["inputs"], "all states, times and parameters",
  "Finite differences at a sample point with a tolerance miss errors in terms that vanish or are small there.",
  ["test_equations.hpp", "examples/example_equations.cpp"], [("fun/jac pairs", "test_equations::*")])
p("P08", "Closed-form solutions solve the bundled equations; invariants conserved",
  "Where a bundled equation comes with a closed-form solution, that solution satisfies the equation and the initial condition identically; where it comes with an energy function or other conserved quantity (total mass of a reaction system, total momentum), its time derivative along the equation vanishes identically.",
  ["inputs"], "all times, states and parameters",
  "Tests sample a few times with tolerances.",
  ["test_equations.hpp"], [("solutions and energies", "test_equations::*")])
p("P09", "An explicit RK step applies exactly the tableau's formula",
  "Every accepted step of the explicit integrator advances time by the step size and the solution by the tableau's weighted sum of stage derivatives, each stage being the right-hand side at the tableau's abscissa and stage value for that step; a rejected step changes neither time nor solution, also for methods that reuse the last stage.",
  ["inputs", "histories"], "every right-hand side, tableau, tolerance and accept/reject history",
  "Tests run accepted steps on autonomous problems; wrong abscissae and wrong reuse after a rejection need other inputs.",
  [ERK], [("stage loop", "erk::erk_guts"), ("first-same-as-last reuse", "erk::apply_fsal")], ["arguments of the user's right-hand side", "appended points"])
p("P10", "An implicit RK step solves the stage equations and applies the tableau",
  "Every accepted step of the implicit integrator uses stage increments delivered by the nonlinear solver for the tableau's stage equations at the current time, state and step size (with Newton directions formed from the matching Jacobi matrix), and advances the solution by the tableau's weights applied to these stages; a rejected or unsolved step changes neither time nor solution.",
  ["inputs", "histories"], "every right-hand side, tableau, options and accept/reject history",
  "A slightly wrong Newton matrix or weight only slows convergence or hides in tolerances.",
  [IRK], [("stage solver", "irk::newton_solve_stages, irk::construct_R"), ("update", "irk::irk_guts")], ["arguments of the user's functions", "appended points"])
p("P11", "Runge-Kutta trajectories start at t0, increase, and end exactly at t1",
  "A successful Runge-Kutta integration reports the initial point first, then strictly increasing times that never exceed the final time, and stops when, and only when, the final time is reached.",
  ["inputs", "histories"], "every span, step size, option set and accept/reject history",
  "Each test uses one span in which clipping may happen to be unneeded.",
  [ERK, IRK], [("last-step clipping and loop exit", "erk_guts / irk_guts main loop")])
p("P12", "Error control: a step is accepted only within tolerance",
  "With adaptive steps, the Runge-Kutta integrators accept a step exactly when the scaled norm of the difference between the two embedded solutions does not exceed one under the user's absolute and relative tolerances, and choose the next step from that error with the exponent of the lower order; with fixed steps no step is rejected and the step size never changes except to hit the final time or a user limit.",
  ["inputs", "histories", "configurations"], "every right-hand side, tolerance pair and history",
  "A flipped comparison or wrong scale shows only as accuracy or speed.",
  [ERK, IRK], [("error norm and controller", "erk_guts / irk_guts")])
p("P13", "User limits on step size and number of steps are respected",
  "No attempted Runge-Kutta step, first or later, fixed or adaptive, is longer than the user's maximum step size, and an integration never takes more accepted steps than the user's maximum, ending with the documented status when that limit stops it before the final time.",
  ["inputs", "configurations", "histories"], "every limit, span, initial step and history",
  "Tests leave both limits at their defaults.",
  [ERK, IRK, "options.hpp"], [("clipping and step limit", "erk_guts / irk_guts")])
p("P14", "Recorded trajectory: all result arrays aligned and truthful",
  "In a Runge-Kutta or multistep result every recorded time has exactly one solution vector (and for Runge-Kutta one stage vector, one error estimate and one error value) recorded with it, and these belong to that very time and step.",
  ["inputs", "histories", "configurations"], "every run and output configuration",
  "A misaligned array is invisible when only the last point is inspected.",
  [ERK, IRK, MS, "output.hpp"], [("recording", "erk_guts / irk_guts / multistep loops")])
p("P15", "Output options: stream lines and vectors mirror accepted steps only",
  "Accepted steps, and no others, are reported at the requested interval; with stream output each reported step writes one line holding its time followed by the components of its solution, with vector storage disabled nothing is appended, and without a stream nothing is written.",
  ["configurations", "histories"], "every output mode, interval and accept/reject history",
  "The tests never use stream output or intervals.",
  [ERK, IRK, "options.hpp"], [("output block", "erk_guts / irk_guts"), ("mode bits", "output_options")])
p("P16", "Work counters report the calls actually made",
  "The evaluation counters of a result equal the number of calls made to the user's right-hand side and Jacobi functions, attempts equal accepted plus rejected steps, and on success the acceptance fraction is accepted over attempted steps.",
  ["inputs", "histories"], "every run",
  "No test compares counters against an instrumented functor over all branches.",
  [ERK, IRK], [("counters", "erk_guts / irk_guts / newton_solve_stages")])
p("P17", "Failures are reported, and nothing is advanced from a failed solve",
  "An integrator never advances from an internal nonlinear solve that did not report success, and every way an integration can end before the final time (step limit, failed solve with no smaller step to try, unsupported order) leaves a non-success status in the result.",
  ["inputs", "configurations", "fault_sequences"], "every failure of the inner solver, every option set",
  "Tests only cover runs that succeed.",
  [ERK, IRK, MS], [("status handling", "irk_guts, multistep::bdf, adams_bashforth")])
p("P18", "Nonlinear solvers report success only when converged",
  "Newton's and Broyden's methods report success only if the last increment or the residual at the returned point is below the requested tolerance and the residual is finite; otherwise they report a failure code, and the reported iteration count and residual describe the returned run.",
  ["inputs", "configurations"], "every system, start and option set",
  "The tests use systems on which both methods converge.",
  [NW, IRK], [("termination", "broyden_iterate, newton_iterate_impl, newton_solve_stages")])
p("P19", "Nonlinear iterations step in the right direction, within the limit",
  "Each Newton update is a positive multiple of the solution of (Jacobi matrix) d = -(residual) for every combination of options, each Broyden update keeps its secant equation, and no update is longer than the user's maximum step; the options the user sets are the ones the iteration runs with.",
  ["inputs", "configurations"], "every system and all 32 option combinations",
  "Tests cover two option combinations on convergent problems.",
  [NW], [("direction", "newton_iterate_impl"), ("dispatch", "newton_iterate"), ("update", "broyden_iterate")])
p("P20", "Method names and codes correspond one to one; lookups are pure",
  "For every method in the published list, converting code to name and back is the identity in each solver family, the list of all names is exactly that list, the coefficients returned for a code carry that code's method, and looking up an unknown name or code signals failure and changes nothing.",
  ["inputs", "histories"], "every code, every string, every sequence of lookups",
  "Tests look up a handful of names; a lookup that inserts changes later answers only.",
  ["enums.hpp", "erk.cpp", "irk.cpp"], [("lookup tables", "rk_method_to_string, rk_string_to_method"), ("dispatch", "get_coefficients")])
p("P21", "The history buffer keeps exactly the latest entries, newest first",
  "After any sequence of insertions a history buffer of capacity n holds the min(n, count) latest values, index i is the i-th newest, its size and iteration agree with that, and copying or assigning it preserves the kept values, and resizing empties it to the new capacity.",
  ["histories", "inputs"], "every capacity and every operation sequence",
  "Tests push a few values into one capacity; wrap-around phases and copies are not covered.",
  ["cyclic_buffer.hpp"], [("ring index arithmetic", "cyclic_buffer")])
p("P22", "Dense-output weights interpolate the step",
  "For every method with interpolation coefficients, the interpolated weights at the start of the step are zero, at its end they are the method's weights, and they integrate polynomials up to the stage count exactly at every intermediate point.",
  ["inputs", "configurations"], "every intermediate point, every method with interpolation data",
  "The existing interpolation test prints values for one method.",
  ["irk.cpp", "erk.cpp"], [("weights", "project_b"), ("construction", "collocation_interpolate_coeffs")])
p("P23", "Merging two results loses and invents nothing",
  "Merging two implicit results yields every array as the concatenation of both in order, the sum of every counter and of the elapsed times, an accepted fraction that is the mean of both weighted by their attempts, a status that shows a failure if either part failed, and leaves both inputs untouched.",
  ["inputs"], "every pair of results",
  "No test merges results.",
  ["irk.cpp"], [("merge", "irk::merge_rk_output")])
p("P24", "Every public header compiles alone, links twice, and keeps its promises",
  "Every public header can be included on its own and from several translation units of one program, and every function it declares that a program may call is defined exactly once by the library or the header.",
  ["programs"], "every program that includes the headers and calls the declared functions",
  "Tests include the headers in one order and call a subset of the functions.",
  ["erk.hpp", "irk.hpp", "rehuel.hpp", "newton.hpp"], [("declarations and definitions", "all public headers and sources")])
p("P25", "Building without assertions changes no result",
  "No assertion has a side effect or guards a computation the rest of the program relies on, so that a build with assertions disabled computes the same results as one with them enabled.",
  ["configurations", "programs"], "every function of the library and the bundled programs",
  "The test build has assertions enabled.",
  ["irk.hpp", "erk.hpp", MS], [("assertions", "assert() in every source")])
p("P26", "No result or option is read before it is set",
  "No public result, option or status object has an indeterminate member after construction, and no library function returns, branches on or computes with a value that was never set on some path.",
  ["inputs", "programs"], "every entry point and path",
  "Indeterminate values are often zero in a test process.",
  [ERK, IRK, MS, NW, "options.hpp", "output.hpp", "my_timer.hpp"], [("constructors and initialisers", "all classes")])
p("P27", "Integration is covariant under a change of time and state units",
  "Times, step sizes, states and derivatives are only ever combined in ways that respect their units in the steppers: rescaling the time unit or the state unit of the user's problem (with its tolerances and limits) rescales the computed trajectory accordingly, up to the built-in tolerances of the multistep integrators' start-up and solver.",
  ["inputs"], "every equation and every scale factor",
  "A missing or surplus factor of the step size is invisible when the step is near one or the term is small.",
  [ERK, IRK, MS], [("arithmetic on t, dt, y, f", "steppers")])
p("P28", "Integrators share no hidden state between calls",
  "The result of an integration or nonlinear solve depends only on its arguments: no library function changes an object that outlives the call other than those passed to it and the diagnostic streams.",
  ["histories", "schedules"], "every sequence and interleaving of calls on distinct arguments",
  "Tests make each call once from a fresh process.",
  ["erk.cpp", "irk.cpp", "erk.hpp", "irk.hpp", MS, NW], [("namespace-scope and static objects", "all sources")])
p("P29", "Option values cannot make the solvers divide an integer by zero",
  "No integer division or remainder in the library has a divisor that the caller's options or sizes can make zero.",
  ["inputs", "configurations"], "every value of every option, including zero",
  "Tests use default options.",
  [ERK, IRK, NW, "my_timer.hpp"], [("interval arithmetic", "% and / on option values")])
p("P30", "Timers report elapsed time in the stated unit",
  "Every timer query returns the wall-clock difference between its two clock readings converted to the unit it states, and the timing report's scaled entries and percentages are consistent with its total.",
  ["inputs"], "every pair of clock readings",
  "A test cannot fix the clock.",
  ["my_timer.hpp", "irk.hpp"], [("conversion", "my_timer::get_elapsed/toc"), ("report", "print_timing_breakdown")])
p("P31", "The Jacobian verifier judges by the finite-difference Jacobian",
  "The finite-difference Jacobian perturbs each component by the step in both directions around the given point and divides by twice the step, and the verifier accepts a Jacobian only if every entry of it is close to that approximation.",
  ["inputs"], "every system, point and Jacobi matrix",
  "Tests only offer correct matrices to the verifier.",
  [NW], [("verifier", "newton::verify_jacobi_matrix, approx_jacobi_matrix")])
p("P32", "Coefficient validation and classification are exact",
  "Coefficients are declared valid exactly when they are non-empty with weights, abscissae and matrix of matching sizes (and, in the explicit family, a strictly lower triangular matrix), and a method is classified as explicit, diagonally implicit or singly diagonally implicit exactly when its matrix has that shape.",
  ["inputs"], "every tableau",
  "Tests validate tables that are valid.",
  ["erk.cpp", "irk.cpp"], [("checks", "verify_solver_coeffs, is_method_*")])
p("P33", "Command-line programs never read past their arguments",
  "No bundled program reads an element of its argument vector without having established that the argument exists, and an option that needs a value and has none is refused.",
  ["inputs"], "every command line",
  "No test runs the programs with malformed command lines.",
  ["examples/example_equations.cpp", "stability_region/main.cpp", "test_orders/main.cpp"], [("argument parsing", "main")])
p("P34", "The stability-region program evaluates the requested method's R(z)",
  "The stability-region program takes its coefficients from the family the named method belongs to and evaluates that method's stability function at each grid point.",
  ["inputs"], "every method name and grid point",
  "No test runs the program.",
  ["stability_region/main.cpp"], [("lookup and evaluation", "main")])
p("P35", "Every function of a method code or option value has a defined outcome",
  "Every function with a result returns a value on every path, every selector over method codes, orders, status codes and option combinations handles every published value with that value's own behaviour, and unknown values reach a defined default.",
  ["inputs", "configurations"], "every code, order and status value",
  "Tests select a few values.",
  ["irk.cpp", "erk.cpp", "newton.cpp", MS, NW], [("switches", "get_coefficients, status_message, newton_iterate, adams_bashforth_step")])
p("P36", "Array and matrix accesses stay in bounds with matching shapes",
  "For every system size and stage count, every matrix, vector and table access in the steppers and solvers is within bounds and every matrix operation combines operands of matching shapes.",
  ["inputs", "configurations"], "every system dimension, stage count and order",
  "Tests run systems of one or two dimensions with three-stage methods, and bounds checks may be off in user builds.",
  [ERK, IRK, MS, NW, "erk.cpp", "irk.cpp"], [("indexing", "steppers and table construction")])
p("P37", "Global error of a trajectory is within the requested tolerance",
  "The difference between the reported trajectory and the exact solution stays within a modest multiple of the requested tolerance.",
  ["inputs"], "every smooth problem",
  "Tests sample problems with known solutions.",
  [ERK, IRK], [("error control", "erk_guts / irk_guts")])
p("P38", "Integration terminates for every right-hand side",
  "An integration over a finite span ends after finitely many attempts, with a result or a failure status, also when the right-hand side yields non-finite values or the solution blows up.",
  ["inputs"], "every right-hand side",
  "Tests use well-behaved problems.",
  [ERK, IRK, NW], [("main loops", "erk_guts / irk_guts")])
p("P39", "Newton's method converges near a regular root",
  "Started sufficiently near a root with an invertible Jacobi matrix, the nonlinear solvers converge to it within their iteration limit.",
  ["inputs"], "every smooth system",
  "Tests sample a few systems.",
  [NW], [("iteration", "newton_iterate, broyden_iterate")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
