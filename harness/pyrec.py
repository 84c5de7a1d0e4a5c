"""Repeats sessions through the Python bindings:  pyrec.py GROUP SCEN SEED N FIRST OUT [SCRIPTS]

pair  sessions recorded by main_py.cpp, repeated operation by operation
py    walks through the parameters, along behaviours of spec/ParamScripts.tla
VH_DIR holds what harness/buildpy.sh built.
"""
import json
import math
import os
import random
import struct
import subprocess
import sys

DIR = os.environ["VH_DIR"]
sys.path.insert(0, DIR)

import crocoddyl  # noqa: E402
import numpy as np  # noqa: E402
import mim_solvers  # noqa: E402
import vhext  # noqa: E402

assert os.path.realpath(mim_solvers.__file__).startswith(os.path.realpath(DIR))

DDP = {"inc": "reg_incFactor", "dec": "reg_decFactor", "regmin": "reg_min", "regmax": "reg_max", "alphas": "alphas",
       "thdec": "th_stepDec", "thinc": "th_stepInc", "thgrad": "th_grad", "tol": "termination_tolerance"}
FILTER = {"filter": "use_filter_line_search", "fsize": "filter_size"}
PARAMS = {
    "DDP": DDP,
    "FDDP": {**DDP, **FILTER, "thneg": "th_acceptNegStep"},
    "SQP": {**DDP, **FILTER, "muD": "mu_dynamic", "extra": "extra_iteration_for_last_kkt"},
    "CSQP": {**DDP, **FILTER, "muD": "mu_dynamic", "muC": "mu_constraint", "lagc": "lag_mul_inf_norm_coef",
             "extra": "extra_iteration_for_last_kkt", "maxqp": "max_qp_iters", "epsa": "eps_abs", "epsr": "eps_rel",
             "rhoint": "rho_update_interval", "rhotol": "adaptive_rho_tolerance", "alpha": "alpha", "sigma": "sigma",
             "eqinit": "equality_qp_initial_guess", "rho": "rho_sparse", "maxtime": "max_solve_time", "resety": "reset_y",
             "resetrho": "reset_rho", "heur": "update_rho_with_heuristic", "rmreg": "remove_reg", "qpcb": "with_qp_callbacks"},
    "PROXQP": {**DDP, "filter": "use_filter_line_search", "maxqp": "max_qp_iters", "epsa": "eps_abs", "oldcb": "with_callbacks"},
}
INTS = {"fsize", "maxqp", "rhoint", "rhotol"}
BASE = ["isFeasible", "cost", "stop", "preg", "dreg", "stepLength", "iter", "th_acceptStep", "th_stop",
        "Vxx", "Vx", "Qxx", "Qxu", "Quu", "Qx", "Qu", "K", "k", "xs", "us", "fs", "lag_mul"]
TRIAL = ["xs_try", "us_try", "fs_try", "cost_try", "dx", "du"]
LOOK = {
    "DDP": BASE + ["KKT"],
    "FDDP": BASE + ["KKT"],
    "SQP": BASE + TRIAL + ["KKT", "merit"],
    "CSQP": BASE + TRIAL + ["KKT", "dx_tilde", "du_tilde", "merit", "gap_norm", "constraint_norm", "qp_iters", "y", "z", "rho_vec",
                            "rho_sparse", "norm_primal", "norm_dual", "norm_primal_rel", "norm_dual_rel", "max_solve_time_reached"],
    "PROXQP": BASE + TRIAL + ["KKT_norm", "gap_norm", "constraint_norm", "qp_iters", "y", "P", "A", "C", "q", "b", "l", "u"],
}


def hexf(d):
    if math.isnan(d):
        return "7ff8000000000000"
    return struct.pack(">d", d).hex()


def unhex(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


def enc(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return hexf(float(v))
    if isinstance(v, np.ndarray):
        return [hexf(float(x)) for x in v.ravel()]  # row by row
    if hasattr(v, "toarray"):
        return enc(v.toarray())
    return [enc(x) for x in v]


def look(s, kind):
    return {a: enc(getattr(s, a)) for a in LOOK[kind]}


def vecs(t):
    return [np.array([unhex(h) for h in v]) for v in t]


class Watch(mim_solvers.CallbackAbstract):
    def __init__(self, i, kind, ev):
        super().__init__()
        self.i, self.kind, self.ev = i, kind, ev

    def __call__(self, solver, solver_type=""):
        self.ev.append({"e": "cb", "id": self.i, "type": solver_type, "o": look(solver, self.kind)})


def cls(kind):
    return getattr(mim_solvers, "Solver" + kind)


def value(f, v):
    if isinstance(v, str):
        return unhex(v)
    if isinstance(v, list):
        return [unhex(h) for h in v]
    return v


def pair(t):
    kind = t["kind"]
    p = vhext.Problem(kind, t["seed"], t["i"], False)
    sp = p.problem()
    s = cls(kind)(sp)
    ev, keep, logger = [], [], None
    for op in t["script"]:
        o, v, threw, logged = op["op"], 0.0, False, None
        try:
            if o == "set":
                setattr(s, PARAMS[kind][op["n"]], value(op["n"], op["v"]))
            elif o == "cbs":
                keep = [Watch(i, kind, ev) for i in range(op["n"])]
                logger = mim_solvers.CallbackLogger() if op["log"] else None
                s.setCallbacks(keep + ([logger] if logger else []))
                v = float(len(s.getCallbacks()) - (1 if logger else 0))
            elif o == "solve":
                xs, us, m, f, r = vecs(op["xs"]), vecs(op["us"]), op["maxit"], op["feas"], unhex(op["reg"])
                if logger:
                    logger.convergence_data.clear()
                if op["style"] == 0:
                    v = s.solve(xs, us, m, f, r)
                elif op["style"] == 1:
                    v = s.solve(regInit=r, isFeasible=f, init_us=us, maxiter=m, init_xs=xs)
                elif op["style"] == 2:
                    v = s.solve(xs, us, m)
                elif op["style"] == 3:
                    v = s.solve(xs, [], m)
                elif op["style"] == 4:
                    v = s.solve([], [], m, False, r)
                elif op["style"] == 5:
                    v = s.solve(xs, us)
                else:
                    v = s.solve()
                assert isinstance(v, bool)
                if logger:
                    logged = {k: [enc(x) for x in c] for k, c in logger.convergence_data.items()}
            elif o == "cand":
                s.setCandidate(vecs(op["xs"]), vecs(op["us"]), False)
            elif o == "dir":
                s.computeDirection(True)
            elif o == "try":
                v = s.tryStep(unhex(op["a"]))
            elif o == "stop":
                v = s.stoppingCriteria()
            elif o == "exp":
                v = s.expectedImprovement()[0]
            elif o == "calc":
                s.calc(True)
            elif o == "kkt":
                s.checkKKTConditions()
            elif o == "rho":
                s.update_rho_vec(25)
            elif o == "bwd":
                s.backwardPass_without_rho_update()
            elif o == "put":
                setattr(s, op["n"], vecs(op["v"]))
            else:
                assert o == "nop", o
        except AssertionError:
            raise
        except Exception:
            threw, v = True, 0.0
        e = {"e": "op", "threw": threw, "v": hexf(float(v)), "o": look(s, kind)}
        if logged is not None:
            e["log"] = logged
        ev.append(e)
    t["b"] = ev
    return t


class Quiet(mim_solvers.CallbackAbstract):
    def __call__(self, *a):
        pass


def params(line, seed, i):
    w = line.split()
    kind, ops = w[0], w[2:]
    names = PARAMS[kind]
    p = vhext.Problem(kind, seed, i, True)
    sp = p.problem()
    s = cls(kind)(sp)

    def get():
        d = {}
        for f, a in names.items():
            v = getattr(s, a)
            d[f] = int(v) if f in INTS else bool(v) if isinstance(v, bool) else enc(v)
        d["ncb"] = len(s.getCallbacks()) if kind != "PROXQP" else len(mim_solvers.SolverDDP.getCallbacks(s))
        return d

    ev = [{"e": "new", "p": get()}]
    rnd = random.Random(seed * 1000003 + i)
    for op, v in zip(ops[0::2], ops[1::2]):
        threw = False
        if op == "solve":
            try:
                s.solve(p.guess_x(rnd.getrandbits(60)), p.guess_u(rnd.getrandbits(60)), int(v))
            except Exception:
                threw = True
            ev.append({"e": "solve", "threw": threw, "p": get()})
            continue
        if op == "ncb":
            val = int(v)
        elif op not in names:
            continue
        elif v in "TF":
            val = v == "T"
        elif v[0] == "[":
            val = [unhex(h) for h in v[1:].split(",") if h]
        elif len(v) == 16:
            val = unhex(v)
        else:
            val = int(v)
        try:
            if op == "ncb":
                mim_solvers.SolverDDP.setCallbacks(s, [Quiet() for _ in range(val)])
            else:
                setattr(s, names[op], val)
        except Exception:
            threw = True
        ev.append({"e": "set", "op": op, "v": enc(val), "threw": threw, "p": get()})
    for k in range(2):
        nh = rnd.randint(0, 2)
        p.constraints(nh, 0 if k == 0 else -1)
        threw = False
        try:
            cls(kind)(p.problem())
        except Exception:
            threw = True
        ev.append({"e": "ctor", "nh": nh, "threw": threw})
    return {"id": "py-params-%d-%d" % (seed, i), "kind": kind, "scen": "py", "ev": ev}


def main():
    group, scen, seed, n, first, out = sys.argv[1:7]
    seed, n, first = int(seed), int(n), int(first)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)  # printing is for humans
    err = os.dup(2)
    os.dup2(null, 2)
    try:
        with open(out, "w") as fh:
            if scen == "pair":
                r = subprocess.run([DIR + "/py", group, scen, str(seed), str(n), str(first), out + ".a"])
                if r.returncode:
                    return r.returncode if r.returncode > 0 else 3
                for line in open(out + ".a"):
                    fh.write(json.dumps(pair(json.loads(line)), separators=(",", ":")) + "\n")
                os.remove(out + ".a")
            else:
                for i, line in enumerate(open(sys.argv[7])):
                    if first <= i < first + n:
                        fh.write(json.dumps(params(line, seed, i), separators=(",", ":")) + "\n")
    except BaseException:
        os.dup2(err, 2)
        raise
    return 0


if __name__ == "__main__":
    sys.exit(main())
