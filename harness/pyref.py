"""Records what the reference solvers written in Python do:  pyref.py GROUP SCEN SEED N FIRST OUT

A solver is run from the same guess with budgets of 0, 1, 2, ... iterations, so that every iterate becomes visible
from outside; the model is evaluated by the harness (vhext) at every iterate and at every point a line search may try.
SCEN: sqp, csqp, hyb (smooth problems; hyb: the solver with the backward pass of C++), lq, clq, hyblq (strictly convex linear-quadratic problems, with bounds in clq).
"""
import json
import os
import random
import resource
import struct
import sys
import warnings

DIR = os.environ["VH_DIR"]
sys.path.insert(0, DIR)
sys.path.insert(0, os.environ.get("REPO", "/repo") + "/python")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import crocoddyl  # noqa: E402
import numpy as np  # noqa: E402
import vhext  # noqa: E402
import osqp  # noqa: E402


class Osqp(osqp.OSQP):
    """OSQP adapts its penalty by the clock unless told otherwise; repeated solves must be the same here"""

    def setup(self, *a, **k):
        return super().setup(*a, **k | {"adaptive_rho_interval": 25})


osqp.OSQP = Osqp
from csqp import CSQP  # noqa: E402
from sqp import SQP  # noqa: E402
from sqp_cpp import SQP_CPP  # noqa: E402

METHODS = ["StagewiseQP", "StagewiseQP", "StagewiseQP", "ProxQP", "OSQP", "CustomOSQP", "StagewiseQPKKT"]


def hexf(d):
    d = float(d)
    return "7ff8000000000000" if d != d else struct.pack(">d", d).hex()


def vec(v):
    return [hexf(x) for x in np.asarray(v, dtype=float).ravel()]


def traj(t):
    return [vec(v) for v in t]


def make(c, sp):
    if c["kind"] != "CSQP":
        s = (SQP if c["kind"] == "SQP" else SQP_CPP)(sp, use_filter_line_search=c["filter"], with_callbacks=c["cb"])
    else:
        s = CSQP(sp, c["method"], use_filter_line_search=c["filter"], with_callbacks=c["cb"], qp_with_callbacks=False)
        s.eps_abs = c["eps"]
        s.eps_rel = c["epsr"]
        s.max_qp_iters = c["maxqp"]
        s.mu1, s.mu2 = c["mu"], c["muc"]
    if c["kind"] != "CSQP":
        s.mu = c["mu"]
    s.filter_size = c["fsize"]
    s.termination_tolerance = c["tol"]
    return s


def session(scen, seed, i):
    rnd = random.Random("%s/%d/%d" % (scen, seed, i))
    cons = scen[0] == "c"
    lq = scen.endswith("lq")
    p = vhext.Problem("ref-lqC" if cons and lq else "ref-lq" if lq else "ref-C" if cons else "ref-N", seed, i, True)
    sp = p.problem()
    hd = json.loads(p.head())
    hyb = scen[0] == "h"
    c = {"kind": "CSQP" if cons else "SQP_CPP" if hyb else "SQP", "method": rnd.choice(METHODS) if cons else "",
         "filter": lq or rnd.random() < 0.7, "fsize": rnd.choice([1, 1, 2, 3]), "cb": rnd.random() < 0.3,
         "tol": rnd.choice([1e-3, 1e-4]) if cons else rnd.choice([1e-6, 1e-4, 1e-2]),
         "mu": rnd.choice([1.0, 10.0, 0.1]), "muc": rnd.choice([1.0, 10.0, 0.1]),
         "eps": 1e-8 if lq else rnd.choice([1e-6, 1e-4]), "epsr": 0.0 if lq or rnd.random() < 0.7 else 1e-4, "maxqp": 3000 if lq else 1000}
    if cons and c["method"] == "StagewiseQP" and rnd.random() < 0.25:
        c["mu"] = -1.0  # weights follow the multipliers
    g = rnd.randrange(6)
    k = rnd.getrandbits(60)
    xs, us = p.guess_x(k), p.guess_u(k)
    if g == 0:
        us = [0.5 * np.array(u) for u in us]
        xs = list(sp.rollout(us))
    elif g == 1:
        xs, us = [], []
    elif g <= 3:  # from a solution, with or without the constraints
        s = SQP(p.problem()) if g == 2 else make(c | {"cb": False, "filter": True}, p.problem())
        try:
            s.solve([np.array(x) for x in xs], [np.array(u) for u in us], 30 if g == 2 else 6)
            xs, us = [np.array(x) for x in s.xs], [np.array(u) for u in s.us]
        except Exception:
            pass
    x0 = np.array(sp.x0)
    start = ([x0] * (sp.T + 1), [np.zeros(n) for n in hd["nu"]]) if g == 1 else ([x0] + list(xs)[1:], list(us))
    ev = []

    def run(k, extra=False):
        s = make(c, sp)
        s.extra_iteration_for_last_kkt = extra
        ret = 2
        try:
            r = s.solve([np.array(x) for x in xs], [np.array(u) for u in us], k)
            ret = 1 if r is True else 0 if r is False else 3
        except Exception as e:
            print(type(e), e, file=sys.stderr)
            if os.environ.get("VH_TB"):
                import traceback
                traceback.print_exc(file=sys.stderr)
        return s, ret

    def shown(s, ret, px, pu):
        """the solver's own account of the iterate (px, pu) of its last iteration"""
        qp = not cons or (s.found_qp_sol if hasattr(s, "found_qp_sol") else s.qp_iters < s.max_qp_iters)
        z = float("nan")
        d = {"ret": ret, "xs": json.loads(p.charts(list(s.xs))), "us": traj(s.us),
             "cost": hexf(s.cost), "gapn": hexf(s.gap_norm), "conn": hexf(s.constraint_norm if cons else 0.0), "kkt": hexf(getattr(s, "KKT", z)),
             "merit": hexf(getattr(s, "merit", z)), "dx": traj(s.dx), "du": traj(s.du), "lag": traj(s.lag_mul),
             "y": traj(s.y) if cons else [], "qpok": bool(qp), "nd": json.loads(p.nodes(list(px), list(pu)))}
        return d

    s, ret = run(0)
    ev.append({"e": "start", "ret": ret, "xs": json.loads(p.charts(list(s.xs))), "us": traj(s.us)})
    px, pu = [np.array(x) for x in s.xs], [np.array(u) for u in s.us]
    k, more = 0, rnd.choice([3, 6]) if not cons else 3
    while ret == 0 and k < more:
        k += 1
        s, ret = run(k)
        e = {"e": "it", "k": k, "raised": ret == 2}
        if ret == 2:
            ev.append(e | {"nd": json.loads(p.nodes(list(px), list(pu)))})
            break
        e |= shown(s, ret, px, pu)
        e["tr"] = []
        for j in range(10):
            a = 0.5 ** j
            tx = [s.problem.runningModels[0].state.integrate(px[t], a * np.array(s.dx[t])) for t in range(sp.T + 1)]
            tu = [pu[t] + a * np.array(s.du[t]) for t in range(sp.T)]
            e["tr"].append([{f: n[f] for f in ("c", "f", "g") if f in n} for n in json.loads(p.nodes(tx, tu))])
        ev.append(e)
        same = all(np.array_equal(a, b) for a, b in zip(px + pu, list(s.xs) + list(s.us)))
        px, pu = [np.array(x) for x in s.xs], [np.array(u) for u in s.us]
        if same and not c["filter"]:
            break  # given up: another iteration would not be made
    if ret != 2 and not hyb:
        s, ret = run(k, True)
        e = {"e": "extra", "raised": ret == 2}
        if ret != 2:
            e |= shown(s, ret, px, pu)
        ev.append(e)
    return {"id": "%s-%d-%d" % (scen, seed, i), "kind": c["kind"] + (":" + c["method"] if cons else ""), "scen": scen,
            "start": {"xs": json.loads(p.charts(start[0])), "us": traj(start[1])},
            "cfg": {"filter": c["filter"], "fsize": c["fsize"], "tol": hexf(c["tol"]), "mu": hexf(c["mu"]), "muc": hexf(c["muc"]), "eps": hexf(c["eps"]),
                    "epsr": hexf(c["epsr"]), "stage": c["method"] == "StagewiseQP", "cons": cons, "lq": lq, "cb": c["cb"], "late": hyb},
            "ev": ev} | hd


def main():
    _, scen, seed, n, first, out = sys.argv[1:7]
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)  # printing is for humans
    with open(out, "w") as fh:
        for i in range(int(first), int(first) + int(n)):
            fh.write(json.dumps(session(scen, int(seed), i), separators=(",", ":")) + "\n")
    return 0


if __name__ == "__main__":
    sys.exit(main())
