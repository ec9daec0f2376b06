"""Writes MANIFEST.json from the list of checks that exist."""
import json
import os
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set(subprocess.run([sys.executable, os.path.join(here, "check.py"), "--list"], capture_output=True, text=True).stdout.split())
AI = "abstract interpretation of the type-checked syntax tree into a value graph (random-interpretation value numbering); "
T = {
    "P01": ("constant propagation of the tables, rooted-tree order conditions", "Complete for every published explicit table: all order conditions up to the declared order are evaluated to 40 digits. Trusts the interpreter's constant propagation."),
    "P02": ("constant propagation of the tables, rooted-tree order conditions", "Complete for every implicit table the library fills in, up to order 14."),
    "P03": ("constant propagation of the tables, rooted-tree order conditions", "Complete for every table with an embedded pair; one recorded finding."),
    "P04": ("constant propagation of the tables, E-polynomial and pole location", "Complete for every implicit table, up to a 1e-11 rounding allowance on the coefficients of the E-polynomial."),
    "P07": ("terms of right-hand side and Jacobi matrix from the syntax tree, symbolic differentiation, identity testing of analytic terms", "Every class derived from functor with each of its constructors; state, time and parameters symbolic; branches split. One recorded finding (three_body)."),
    "P08": ("terms of closed forms and energies from the syntax tree, symbolic differentiation, identity testing of analytic terms", "Every closed form, energy and conserved linear quantity; recorded findings for three_body."),
    "P09": (AI + "transition relation of the integration loop, case-split over path conditions with linear arithmetic; the new state of every accepting path is compared with the tableau formula", "Holds for every tableau, right-hand side, state and step; stage counts 2-3 (thorough 1-4) and 1-3 equations; real arithmetic."),
    "P10": (AI + "transition relation of the integration loop, case-split over path conditions with linear arithmetic; stage equations, residual and Newton matrix of every accepting path", "As P09, plus the convergence test that dominates every acceptance."),
    "P11": (AI + "transition relation of the integration loop, case-split over path conditions with linear arithmetic; time, order and progress obligations", "All option settings; times hold up to rounding (real arithmetic)."),
    "P12": (AI + "transition relation of the integration loop, case-split over path conditions with linear arithmetic; error norm, acceptance guard and step-size controller", "Controller exponents and limits are symbolic in the tolerances and the declared orders."),
    "P13": (AI + "transition relation of the integration loop, case-split over path conditions with linear arithmetic; bounds on step size and on the number of steps", "Bounds proved as invariants of the loop for symbolic max_dt and max_steps."),
    "P14": (AI + "transition relation of the integration loop, case-split over path conditions with linear arithmetic; length and alignment of the recorded arrays, by induction over the loop", "All output modes that store; multistep and Runge-Kutta."),
    "P15": (AI + "transition relation of the integration loop, case-split over path conditions with linear arithmetic; output effects of every accepting and rejecting path", "All modes, symbolic interval."),
    "P16": (AI + "transition relation of the integration loop, case-split over path conditions with linear arithmetic; ghost counters against reported counters", "Counter equality is proved by congruence of the loop unknowns."),
    "P17": (AI + "transition relation of the integration loop, case-split over path conditions with linear arithmetic; status of every way out of the integration", "Exits of all four integration loops."),
    "P05": (AI + "symbolic unrolling and an inductive step of the multistep loops", "Every order; right-hand side, history and step size symbolic; 2 equations (thorough 1-3)."),
    "P06": (AI + "start-up points against the flow of the user's equation", "Every order; relies on P09-P17 for the one-step integrator used."),
    "P18": (AI + "every way a nonlinear solver returns, seen from its last iteration; the path facts must imply the convergence test", "All option combinations of Newton, the stored-LU variant and Broyden; 1-2 equations (thorough 1-3)."),
    "P19": (AI + "one arbitrary iteration with inductive invariants residual = F(x), matrix = J(x), LU = J(x)", "All option combinations; positivity of the step factor by linear arithmetic."),
    "P31": (AI + "identity of the finite-difference entries, bound on every entry on accepting paths", "1-3 equations (thorough 1-5); one recorded finding."),
    "P20": ("constant propagation of the lookup functions, effect check on globals", "Complete for published codes and names; unknown ones by representatives."),
    "P21": (AI + "closure of the buffer's abstract states (values replaced by their age) under insertion; every state observed, copied, assigned, resized", "Complete for every insertion sequence at capacities 1-6 (thorough 1-12)."),
    "P23": (AI + "member-by-member comparison of the merged object", "Array lengths 0-2 (thorough 0-5); contents, counters symbolic; members enumerated from the declaration."),
    "P26": ("must-be-set analysis: every constructor and coefficient table interpreted with unset members tracked; every scalar read in the models of all checks decided under its path condition", "Classes: results, options, outputs, counters, statuses. Reads: sites the models reach (all of the library's numeric code); systems of 1-3 equations, 1-4 stages, all tableaux."),
    "P29": ("integer divisions enumerated from the syntax tree, each divisor decided non-zero under its path condition", "Every division of the library; models as for P36."),
    "P36": ("bounds analysis: every element, range and shape obligation met in the models of all checks decided under its path condition", "Access sites enumerated from the syntax tree and compared with those reached; systems of 1-3 equations, 1-4 stages, all tableaux, symbolic options."),
    "P24": ("compile-time witnesses (each header alone, twice, all together) and a query over declarations, definitions and linkage", "All headers and sources of the library."),
    "P25": ("effect analysis of assertion conditions through callee bodies; comparison of the syntax trees with and without NDEBUG", "All functions of the library and of the programs that compile here."),
    "P27": (AI + "transition relation of the integration loop; unit inference (powers of the time and state units) over every term, decision and argument", "Runge-Kutta models and all multistep orders; exact start-up and nonlinear solve assumed for the multistep integrators."),
    "P28": ("effect analysis: writes resolved through aliases and callee summaries to objects with static storage", "Every function of the library (templates as the probes instantiate them)."),
    "P35": ("the compiler's return-path analysis; constant propagation of every selector at every published value", "Unknown values sampled around the published ranges (one default branch)."),
    "P33": (AI + "bounds of every argument-vector access with a symbolic argument count, loop invariants by induction", "Programs that compile here (two of four); opaque arguments. One recorded finding."),
    "P34": (AI + "the stability program interpreted with symbolic tables and grid point; the value it prints against the stability function of the tableau", "Stage counts 1-4, explicit and implicit, with and without an embedded pair; method selection for every published name."),
    "P30": (AI + "identity of timer results and report entries in the clock readings", "Unix timer; the integrators' elapsed time included."),
    "P22": (AI + "polynomial identities", "project_b for symbolic theta, 1 to 5 stages; every interpolation matrix."),
    "P32": (AI + "decision diagrams of the verdicts", "Exact for all matrices up to 3x3 (classification 4x4); larger sizes by uniformity of the loops."),
}
NA = {
    "P37": "Quantifies over the exact flow of an arbitrary right-hand side: a bound on the accumulated error depends on Lipschitz constants and on the error estimator's asymptotics, which no static argument over the source can bound.",
    "P38": "Does not hold for every right-hand side in any error-controlled integrator without a minimum step (a blow-up lets the step shrink forever), and whether a given right-hand side keeps producing acceptable steps is a runtime quantity that no static argument in reach bounds.",
    "P39": "Local convergence depends on the size of the neighbourhood and on derivatives of the user's function; static analysis decides direction, damping and stopping rules (P18, P19) but not convergence.",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": "./check.py %s quick" % i, "thorough_cmd": "./check.py %s thorough" % i,
                       "technique": "static analysis: " + t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "The check for this property is not built yet.")})
m = {"version": 1, "setup_cmd": "./check.py --build", "checks": checks, "not_applicable": na,
     "notes": "All checks analyse the source in /repo's working tree on every run; nothing of it is executed. See DESIGN.md."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
