"""The properties: source of properties.jsonl and MANIFEST.json (run: python3 tools/catalog.py)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, state=(), observe=(), note=None, technique=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why,
        anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                 "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                 "observe_at": list(observe), "hook_needed": None},
        _note=note, _technique=technique))


ALLS = ["src/sqp.cpp", "src/csqp.cpp", "src/csqp_proxqp.cpp"]
P("P01", "A solve reports success exactly when the returned point is optimal",
  "When a solve of the SQP, constrained SQP or PROXQP-based solver reports success, every value of the returned trajectory's local model is "
  "finite and its first-order optimality residual (stationarity with the published multipliers, dynamics gaps, constraint violation; for the PROXQP-based solver "
  "with the multipliers of the preceding subproblem) is within the termination tolerance. "
  "Conversely the solve ends with success at the first iterate whose residual is within the tolerance, residuals that are not numbers never pass, and every other way of ending reports failure.",
  ["inputs", "configurations", "fault_sequences"],
  "all problems (sizes, stage-varying controls and constraints, one- and two-sided bounds), guesses, tolerances, line searches, with models that return non-finite values or throw",
  "The tests look at the verdict of a few convergent LQ and robot problems; they never compare the verdict with an independent residual, nor with models that yield NaN.",
  ALLS, [("convergence test", "checkKKTConditions in src/sqp.cpp, src/csqp.cpp, src/csqp_proxqp.cpp"), ("verdict", "solve() in the same files")],
  observe=["return value of solve()", "returned trajectory and multipliers"])
P("P02", "Published metrics describe the current iterate",
  "The cost, merit, gap norm, constraint norm and optimality residual that the SQP, constrained SQP and PROXQP-based solvers publish during iterations (to callbacks and after success) are those of "
  "the current iterate and multipliers evaluated on the model, never of a rejected or earlier point. "
  "The metrics used to judge a trial step are those of the trial trajectory, and the published step norms are those of the direction.",
  ["inputs", "configurations", "fault_sequences"],
  "all problems and all histories of accepted, rejected and refused trial steps and failed subproblems",
  "Tests read a cost after convergence; stale metrics appear only after particular sequences of rejected trials, failed evaluations and failed factorizations.",
  ALLS, [("evaluation", "calc() / tryStep()"), ("residual", "checkKKTConditions()")], observe=["get_cost, get_gap_norm, get_constraint_norm, get_KKT", "callbacks"])
P("P03", "The iterate moves only by accepted, scaled steps from the pinned initial state",
  "A solve of the SQP, constrained SQP and PROXQP-based solvers starts from the given guess with its first state replaced by the problem's initial state, and each trial trajectory is the retraction of the current one by the direction scaled by the step length, controls included. "
  "The iterate changes only when a trial is accepted and then equals that trial; the result has the right lengths, starts at the initial state and is the last accepted iterate.",
  ["inputs", "histories", "fault_sequences"],
  "all problems including angle-valued states and stages without controls, all guesses, all histories of accepted and rejected trials",
  "Tests check final trajectories of convergent runs; a partly updated or mixed trajectory shows only after rejected trials or refused evaluations.",
  ALLS, [("trial point", "tryStep()"), ("acceptance", "setCandidate(xs_try_, us_try_) in solve()")], observe=["xs, us at every callback and at the end"])
P("P04", "Filter line search never accepts a dominated or incomparable step",
  "With the filter enabled, the SQP, constrained SQP and PROXQP-based solvers accept the first step length, in the listed order, whose trial is not matched or beaten in all of cost, gap norm and constraint norm by any of the last `filter size` iterates of the same solve. "
  "A trial matched or beaten in all of them by a remembered iterate is rejected.",
  ["inputs", "histories", "configurations"],
  "all sequences of trial outcomes including ties, all filter sizes and step-length lists",
  "Unit tests drive smooth problems in which the full step is nearly always accepted; the filter memory and exact ties are never exercised.",
  ALLS, [("filter", "line search of solve()")], state=[("filter lists", "metrics of remembered iterates", "gap_list_, cost_list_, constraint_list_")], observe=["which trials become iterates"])
P("P05", "Merit line search accepts exactly the first strictly decreasing step",
  "With the filter disabled, the SQP, constrained SQP and PROXQP-based solvers accept the first step length, in the listed order, whose trial has a merit (cost plus weighted gap norm plus weighted constraint norm, with weights given by the user or, for the constrained SQP, by the multipliers) strictly below that of the current iterate. "
  "Every accepted iterate therefore strictly decreases the merit.",
  ["inputs", "histories", "configurations"], "all sequences of trial outcomes including ties, all weights, step-length lists, automatic weights",
  "Tests never observe the individual accept/reject decisions.",
  ALLS, [("merit", "tryStep() and line search of solve()")], observe=["which trials become iterates"])
P("P06", "Non-finite values and model failures never enter an iterate or escape",
  "A trial step at which the model throws, or whose cost, gaps or constraint values are not finite, is never accepted by the SQP, constrained SQP and PROXQP-based solvers, while a trial with ordinary finite values is never refused. "
  "Failures during trials and subproblems never escape from a solve as exceptions.",
  ["fault_sequences", "inputs"], "all points at which the model throws or returns NaN, +inf, -inf or huge values, in cost, dynamics or constraints",
  "No test injects a fault into a model.", ALLS, [("refusal of trials", "tryStep() and the try/catch in solve()")], observe=["accepted iterates", "exceptions"])
P("P07", "Every solve ends within its iteration budgets",
  "A solve of the SQP, constrained SQP and PROXQP-based solvers performs at most the requested number of outer iterations, each with at most one trial per listed step length, plus at most one extra iteration if it was asked for, ends whatever the model does, and reports the number of iterations performed. "
  "Each ADMM subproblem performs consecutive iterations, at most the configured number, and reports that number.",
  ["inputs", "configurations", "fault_sequences"], "all budgets including 0 and 1, all outcomes of trials and subproblems, all faults",
  "Termination over all environments is a liveness property; tests run a handful of budgets.",
  ALLS, [("outer loop", "solve()"), ("QP loop", "computeDirection() in src/csqp.cpp")], observe=["number of iterations", "get_iter, get_qp_iters"])
P("P08", "Regularization follows its documented law within its limits",
  "In the SQP, constrained SQP and PROXQP-based solvers the regularization starts at the given value (or the minimum), is multiplied by the increase factor (capped at the maximum) when a subproblem fails or the step length is at most the increase threshold, divided by the decrease factor (not below the minimum) when the step length exceeds the decrease threshold, and otherwise unchanged. "
  "A solve gives up with failure exactly when an increase has reached the maximum, an increase from zero makes it positive, and the value in force is the one used by the next subproblem and published.",
  ["inputs", "histories", "configurations"], "all sequences of step lengths and subproblem failures, all factors, limits and thresholds",
  "No test looks at regularization; it matters only in histories with failures and short steps.",
  ALLS, [("update", "increaseRegularization / decreaseRegularization in src/ddp.cpp and end of solve() loops")], observe=["get_preg, get_dreg, callbacks"])
P("P09", "The search direction solves the regularized stagewise LQ problem",
  "The direction computed by the SQP solver is the stationary point of the linear-quadratic model at the current iterate, with the current regularization added to the Hessians and the gaps as affine dynamics terms, and the published dynamics multipliers are the costates of that model. "
  "A convex subproblem with finite data is never reported unsolvable.",
  ["inputs", "configurations"], "all finite problem data, horizons, stage-varying control dimensions (including zero), regularizations",
  "Tests compare against one reference on a few fixed problems; the optimality system characterises the result for every input.",
  ["src/sqp.cpp", "src/csqp.cpp"], [("Riccati recursion", "backwardPass / forwardPass / computeGains")], observe=["dx, du, multipliers"])
P("P10", "Each ADMM iteration is an exact step of the operator-splitting method",
  "In the constrained SQP every ADMM iteration minimises the regularized augmented Lagrangian over the dynamics with the current penalties, then clips the relaxed point to the bounds, then updates the duals by the scaled mismatch; the primal iterate is carried over. "
  "Each subproblem starts from zero slack, from zero or warm-started duals as configured, and from the equality-constrained solution when that initial guess is enabled.",
  ["inputs", "configurations", "histories"], "all subproblem data, iteration counts, relaxation, penalties, warm-start settings, bound types (free, one-sided, interval, equality)",
  "Tests compare final directions at convergence, which many wrong iterations reach as well.",
  ["src/csqp.cpp"], [("x-step", "backwardPass*/forwardPass"), ("z,y-step", "update_lagrangian_parameters")], observe=["z, y, dx, du per iteration"])
P("P11", "ADMM stopping test and penalty adaptation follow their definitions",
  "In the constrained SQP the ADMM residuals and tolerances are those of the iterate, the loop stops at the first checking iteration at which both residuals are within tolerance or at the budget, and never before. "
  "The penalty changes only at checking iterations, by the residual-balancing rule clamped to its limits and only beyond the adaptation threshold; free, equality and inequality rows get the minimal, thousandfold and plain penalty.",
  ["inputs", "configurations", "histories"], "all subproblem data, check intervals, tolerances, adaptation thresholds, both residual definitions",
  "Tests only see converged results.", ["src/csqp.cpp"], [("stopping and adaptation", "update_lagrangian_parameters, update_rho_vec, apply_rho_update, computeDirection")],
  observe=["get_norm_primal, get_norm_dual, rho"])
P("P12", "The time limit of the constrained SQP is honoured and reported",
  "With a time limit the constrained SQP starts no outer iteration, no ADMM iteration and no extra iteration once the limit has passed, and stops early for that reason only then. "
  "The time-limit flag is set exactly when the limit cut the solve, and the returned trajectory is still the last accepted iterate.",
  ["schedules", "configurations"], "all limits (including zero) and all durations of model evaluations and QP iterations, under a virtual clock",
  "One test uses a real clock; the interleaving of the deadline with the loops cannot be controlled there.",
  ["src/csqp.cpp"], [("deadline checks", "solve() and computeDirection()")], observe=["get_max_solve_time_reached", "order of iterations and clock"])
P("P13", "Solves are repeatable and independent of the solver's past",
  "The result, metrics, multipliers and iteration counts of a solve depend only on the problem, the parameters, the guess and the multipliers kept as warm start: a solver that has been used before on other data, parameters or guesses (including failed, interrupted and non-finite solves) behaves exactly like a new one given the same warm start. "
  "For the constrained SQP with dual and penalty resets and the equality-constrained QP initial guess, and for the SQP, nothing at all carries over; "
  "repeating a solve gives identical results with the SQP, constrained SQP, PROXQP-based, DDP and feasibility-driven DDP solvers.",
  ["histories", "inputs", "fault_sequences"], "all histories of preceding solves, parameter changes and faults, compared with a fresh solver",
  "Tests construct a new solver for nearly every solve.", ALLS + ["src/ddp.cpp", "src/fddp.cpp"], [("initialisation of a solve", "solve(), reset_params, reset_rho_vec, allocateData")], observe=["everything observable, event by event"])
P("P14", "Callbacks see each iteration once, in order, with its own data",
  "The SQP and constrained SQP solvers call every registered callback exactly once per performed iteration, in registration order, after the convergence check and before the line search, including the converging and the extra iteration. "
  "What a callback reads (iteration number, iterate, cost, merit, gap and constraint norms, optimality residual, regularization, last step length) belongs to that iteration.",
  ["histories", "configurations"], "all numbers of callbacks and all histories of iterations, failures and early ends",
  "Callback tests count lines of one convergent run.", ["src/sqp.cpp", "src/csqp.cpp", "src/utils/callbacks.cpp"], [("delivery", "callback loop in solve()")], observe=["callbacks"])

P("P15", "A changed problem is solved like a freshly built one",
  "After the initial state, model parameters, bounds, a stage's model (of the same or different control and constraint dimensions) or the whole horizon window of a problem has been changed through the problem's interface, every solver's next solve is exactly the one a newly constructed solver performs on the changed problem. "
  "Nothing sized, scaled, factorized or cached for the previous problem remains in effect.",
  ["histories", "inputs"], "all sequences of problem changes (set x0, parameters, bounds, model replacement, receding horizon with or without changed dimensions), interleaved with solves",
  "Tests build problem and solver anew for every configuration; receding-horizon use with changing stages is what users do.",
  ALLS + ["src/ddp.cpp", "src/fddp.cpp"], [("resizing", "resizeData()"), ("reading the problem", "calc(), solve()")], observe=["everything observable, event by event"])
P("P16", "Parameters accept exactly their documented range, stick, and stay independent",
  "Setting a parameter of any solver (DDP, feasibility-driven DDP, SQP, constrained SQP, PROXQP-based) to a number inside its range makes that value read back and changes no other parameter; a value outside the range (regularization factors at most one, negative regularization limits or thresholds, step thresholds outside (0,1], step-length lists that are empty, not positive or not strictly decreasing, a zero penalty-update interval) is refused with an exception and changes nothing. "
  "Solving changes no parameter (except the adapted penalty), a penalty set by the user is the one the next solve starts from, and the constrained solvers refuse problems with equality constraints they cannot treat, at whichever stage.",
  ["inputs", "histories"], "all sequences of parameter changes (every setter, with values at and around every limit) interleaved with solves; equality constraints at every stage",
  "Tests call single setters with ordinary values on a fresh solver.", ALLS + ["src/ddp.cpp", "src/fddp.cpp", "include/mim_solvers/csqp.hpp"],
  [("range checks", "set_* in src/ddp.cpp, src/fddp.cpp and the solver headers"), ("refusal of nh", "constructors in src/csqp.cpp, src/csqp_proxqp.cpp")], observe=["every getter after every call", "exceptions"])
P("P17", "DDP policies, value functions and rollouts are exact at every iteration",
  "In every iteration of the DDP and feasibility-driven DDP solvers the gains, feedforward terms and value functions satisfy the regularized backward recursion of the linear-quadratic model at the current iterate including its gaps, and the improvement model is the one they imply. "
  "Every trial trajectory is the rollout of that policy from the initial state with the feedforward scaled by the step length and, in the feasibility-driven solver, with the gaps shrunk accordingly; the iterate changes only by accepting such a trial.",
  ["inputs", "histories", "fault_sequences"], "all problems (stage-varying controls, stages without controls, angle-valued states, infeasible guesses), regularizations and histories of steps",
  "Tests compare converged results with another solver on robot problems; they never look at a policy or at a rollout that leaves gaps open.",
  ["src/ddp.cpp", "src/fddp.cpp"], [("backward pass", "backwardPass(), computeGains()"), ("rollout", "forwardPass()"), ("improvement model", "expectedImprovement(), updateExpectedImprovement()")],
  observe=["get_K, get_k, get_Vx, get_Vxx", "xs_try, us_try"])
P("P18", "The multi-threaded build computes what the serial one does",
  "Compiled with multi-threading, the constrained SQP (and the other solvers) satisfies every clause of the serial specification for any number of threads: each ADMM step, slack and dual update, residual, penalty, trial metric and decision is that of the sequential algorithm. "
  "Runs with different numbers of threads take the same steps and end with the same trajectory, up to the rounding of sums over the stages.",
  ["schedules", "inputs", "configurations"], "all problems without throwing models, horizons, bound types and numbers of threads from 2 to 6, all schedules the runtime happens to take",
  "The distributed build and all tests are single-threaded: the multi-threaded backward passes and parallel loops are never even executed.",
  ["src/csqp.cpp"], [("parallel backward passes", "backwardPass_mt, backwardPass_without_rho_update_mt"), ("parallel reductions", "update_lagrangian_parameters, tryStep")],
  observe=["every iteration, trial and result"])
P("P20", "The PROXQP-based direction solves the exact local quadratic program",
  "Whenever the sparse QP of the PROXQP-based solver is reported solved, the direction and both sets of multipliers satisfy the optimality conditions of the local quadratic program at the current iterate: stationarity, linearised dynamics from the fixed initial state, constraint bounds and complementarity. "
  "A convex QP without constraints, or whose current point is feasible, is solved.",
  ["inputs", "configurations", "histories"], "all problems with stage-varying numbers of controls and constraints, free, one-sided, interval and equality bounds, and all iterates visited",
  "Tests compare converged trajectories on a few problems with uniform dimensions; an entry written to the wrong place shows only with varying dimensions or active constraints.",
  ["src/csqp_proxqp.cpp"], [("assembly", "computeDirection(), set_QP_data"), ("read-back", "computeDirection()")], observe=["direction, lag_mul, y"])
P("P24", "DDP globalisation, feasibility bookkeeping and verdict follow their rules",
  "The DDP and feasibility-driven DDP solvers accept the first listed step length that satisfies their rule (sufficient decrease of the expected improvement, gap reduction with bounded cost increase, or the cost/gap filter over the remembered iterates), evaluated on the true cost and gaps of a finite trial, and treat an iterate as feasible only if a rollout closed its gaps. "
  "Regularization follows its law within its limits, callbacks are delivered once per iteration in order, and the iteration budget is respected. "
  "A solve succeeds exactly at the first iterate whose optimality residual is within the tolerance.",
  ["inputs", "histories", "configurations", "fault_sequences"], "all sequences of trial outcomes, subproblem failures, thresholds, filter sizes, faults and guesses (feasible or not)",
  "Tests check that a solve converges; the individual decisions and what they rest on are not visible to them.",
  ["src/ddp.cpp", "src/fddp.cpp"], [("acceptance", "line search of solve()"), ("verdict", "checkKKTConditions()"), ("regularization", "increaseRegularization(), decreaseRegularization()")],
  observe=["accepted iterates, regularization, callbacks, return value"])

P("P22", "The dense KKT solver solves the whole system and judges it correctly",
  "In every iteration of the reference solver that treats the whole trajectory at once, the direction and multipliers satisfy the full first-order system (stationarity with the exact cost curvature, linearised dynamics, pinned initial state) at the current iterate, the improvement model is the one they imply, and every trial is the retraction of the iterate by the scaled direction. "
  "It accepts the first listed step that is finite and passes its decrease test, moves only by accepted trials, gives up when the model fails, and respects its iteration budget; callbacks see each iteration once and in order. "
  "It reports success exactly when the optimality residual is within the tolerance, or when the stopping measure of a feasible iterate is below its threshold.",
  ["inputs", "histories", "fault_sequences"], "all problems with controls at every running stage, all guesses (feasible or not), thresholds and histories of accepted, rejected and failing trials",
  "Tests compare the final point on convergent problems, where sign errors of multipliers and stale data do not show.",
  ["src/kkt.cpp"], [("assembly and read-back", "computeDirection(), calcDiff(), computePrimalDual()"), ("acceptance and verdict", "solve(), checkKKTConditions(), stoppingCriteria()")],
  observe=["dxs, dus, lambdas", "get_KKT, get_cost, stopping measure", "callbacks", "return value"])
P("P23", "Printed progress shows every iteration exactly as it was",
  "With every solver that takes callbacks (DDP, feasibility-driven DDP, SQP, constrained SQP), the verbose callback prints one row per iteration, with the iteration number and under each heading the value the solver publishes at that moment, rounded to the chosen precision. "
  "The built-in tables of the PROXQP-based solver (per iteration) and of the ADMM subproblem (at its start and at each of its checks) show the values and tolerances in force at that moment likewise. "
  "Headings name the columns and are repeated every ten iterations, a converged iteration shows dashes in place of a step, printing changes nothing in the solver, and a negative precision is refused.",
  ["inputs", "histories", "configurations"], "all solvers, all published values (very small, very large, zero, not finite), precisions (also changed during a solve) and numbers of iterations",
  "Tests print, but nothing reads the output.",
  ["src/utils/callbacks.cpp", "src/csqp.cpp", "src/csqp_proxqp.cpp"], [("rows", "CallbackVerbose::operator(), printCallbacks()"), ("headings", "update_header"), ("subproblem rows", "printQPCallbacks()")], observe=["standard output", "published values"])
P("P21", "All solvers find and prove the same optimum of a convex problem",
  "On a strictly convex linear-quadratic problem every solver finds the optimum from any guess with any tuning, in as many steps as exact subproblem solutions need, and recognises it at once when started there. "
  "With bounds and equalities, the constrained solvers do so whenever their subproblems were solved within their budgets. "
  "Every point reported optimal, by any solver, is within its bounds, comes with multipliers that prove it (stationarity and complementarity), carries the cost of the problem there, and agrees with what the other solvers found.",
  ["inputs", "configurations"], "strictly convex linear-quadratic problems of varying sizes with free, one-sided, interval and equality bounds, all solvers, guesses and tunings",
  "Tests compare pairs of solvers on one or two problems with uniform dimensions and mostly inactive constraints.",
  ["src/ddp.cpp", "src/fddp.cpp", "src/sqp.cpp", "src/csqp.cpp", "src/csqp_proxqp.cpp"],
  [("direction", "computeDirection()"), ("multipliers", "lag_mul, y"), ("verdict", "checkKKTConditions()")], observe=["returned trajectory, cost, multipliers, return value, number of iterations"])

P("P25", "The Python reference solvers follow the same rules as the solvers they mirror",
  "For the SQP and constrained SQP written in Python, with each of their subproblem solvers, and the Python SQP on top of a C++ backward pass, every iterate is the previous one or a point of the line search along the direction that solves the local (constrained) subproblem: the first finite trial accepted by the merit or the filter, or none. "
  "The published costs, gaps, violations, merit, multipliers and residual are those of the iterate (for the last solver with the multipliers of the preceding direction), and a solve returns true exactly when that residual is below the tolerance, changing nothing. "
  "A linear-quadratic problem is solved at once, with or without a callback, and no budget, guess or dimensions make a solve fail.",
  ["inputs", "histories", "configurations"], "all subproblem solvers available here, budgets, guesses, tunings, dimensions and manifolds, constrained and unconstrained",
  "No test of the baseline runs these solvers on more than one problem; the tests that compare with them need an unavailable dependency or one problem.",
  ["python/sqp.py", "python/csqp.py", "python/sqp_cpp.py", "python/qp_solvers/stagewise_qp.py", "python/qp_solvers/qpsolvers.py", "python/qp_solvers/py_osqp.py", "python/qp_solvers/stagewise_qp_kkt.py"],
  [("globalisation", "tryStep(), solve()"), ("direction", "computeDirection(), backwardPass(), forwardPass()"), ("measures", "calc(), KKT_check()")], observe=["xs, us", "published measures", "return value", "exceptions"])

P("P19", "A session through Python behaves like the same session through C++",
  "Every operation available from Python (construction, parameters, guesses, callbacks, solving with any form of arguments, single directions and trial steps) has the same results and failures as through C++, for every solver. "
  "At every callback and after every operation each attribute shows the quantity it is named after, and a logging callback has recorded exactly what was published. "
  "Parameters set from Python obey the same ranges and read back as set.",
  ["inputs", "histories", "configurations"], "all sessions mixing parameter changes, callbacks, solves, directions and trials; failing solves included",
  "The Python tests look at a few attributes of converged solves; a call bound to another class, a swapped argument or a mislabelled attribute goes unnoticed.",
  ["bindings/ddp.cpp", "bindings/fddp.cpp", "bindings/sqp.cpp", "bindings/csqp.cpp", "bindings/csqp_proxqp.cpp"],
  [("attributes", "add_property, def_readwrite"), ("calls", "def"), ("callbacks", "bindings/utils/callbacks.cpp, bindings/mim_solvers/__init__.py")],
  observe=["results, exceptions, attributes, callback arguments, logs"])

TRACE = "TLA+ specification checked by TLC: exhaustive model checking of the machine, and validation of executions recorded from the real code"
REPLAY = ("TLA+ specification evaluated by TLC on executions recorded from the real code: every state and transition of the recording must be one of the "
          "specification's (conformance; no separate exhaustive model of this part)")
NOTE = ("Model checking of the specification is exhaustive within its small constants; the implementation is bound to it by replaying every recorded execution "
        "through the same transition functions (sampled problems, seeded). Trusts IEEE arithmetic of the JVM and the harness problems.")


def main():
    from plan import PLANS
    with open(VERIF + "/properties.jsonl", "w") as fh:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            fh.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["id"] in PLANS:
            c = {"property": p["id"], "quick_cmd": "python3 tools/check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"],
                 "technique": p["_technique"] or (TRACE if PLANS[p["id"]].get("mc") or PLANS[p["id"]].get("gen") else REPLAY), "level": "model_checking", "level_note": p["_note"] or NOTE}
            checks.append(c)
        else:
            na.append({"property": p["id"], "reason": p["_note"] or "no check built yet"})
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
         "hooks": {"guard": "MIM_VERIF_HOOKS", "enable": "no hooks are needed: the harness observes virtual and protected members from subclasses; the guard is unused", "source_commits": []},
         "checks": checks, "not_applicable": na}
    with open(VERIF + "/MANIFEST.json", "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
