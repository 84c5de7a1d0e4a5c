"""What each check builds, records, generates and model-checks."""
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ASSUMPTIONS = [
    "IEEE-754 binary64 arithmetic as implemented by the JVM (spec/java/F64.java) is the only trusted numeric primitive",
    "the test problems of the harness (harness/model.hpp) are evaluated by the same compiler as the code under test",
    "crocoddyl and proxsuite libraries behave as installed",
]

SQP = {"parts": ["src:ddp", "src:sqp", "h:mk_sqp"], "def": "-DWITH_SQP"}
CSQP = {"parts": ["src:ddp", "src:csqp", "h:mk_csqp"], "def": "-DWITH_CSQP"}
PROX = {"parts": ["src:ddp", "src:csqp_proxqp", "h:mk_prox"], "def": "-DWITH_PROX"}

DDP = {"parts": ["src:ddp", "src:fddp", "h:mk_ddp"], "def": "-DWITH_DDP"}


KKT = {"parts": ["src:ddp", "src:kkt", "h:mk_kkt"], "def": "-DWITH_KKT"}


def core(*gs):
    parts, d = [], []
    for g in gs:
        for x in g["parts"]:
            if x not in parts:
                parts.append(x)
        d.append(g["def"])
    return [{"parts": parts + ["h:main_core"], "def": " ".join(d)}]


ALL3 = core(SQP, CSQP, PROX)


def twins(*gs):
    parts, d = [], []
    for g in gs:
        for x in g["parts"]:
            if x not in parts:
                parts.append(x)
        d.append(g["def"])
    return [{"parts": parts + ["h:main_twin"], "def": " ".join(d), "exe": "twin"}]


TWINS = twins(SQP, CSQP, PROX, DDP, KKT)
# sizes and indices are checked although the regular build leaves that out
STRICT = [dict(TWINS[0], flags="-include strict.hpp -D_GLIBCXX_ASSERTIONS")]


# the multi-threaded variant, which the regular build leaves out
MTFLAGS = "-fopenmp -DCROCODDYL_WITH_MULTITHREADING -DCROCODDYL_WITH_NTHREADS=3"
MT = [dict(core(SQP, CSQP, PROX)[0], flags=MTFLAGS), dict(twins(SQP, CSQP, DDP)[0], flags=MTFLAGS, dir="o2")]


def twin(group, scen, q, t, chunk=20):
    return {"group": group, "scen": scen, "n": (q, t), "chunk": chunk, "exe": "twin", "spec": "Twin.tla"}


def ddp(scen, q, t, chunk=40):
    return [{"group": g, "scen": scen, "n": (q, t), "chunk": chunk, "spec": "DdpTrace.tla"} for g in ("ddp", "fddp")]


def mcd(inv, live=False):
    return {"name": "ddp", "spec": "MCDdp.tla", "cfg": "MCDdp.cfg", "inv": inv, "live": live}


def rec(group, scen, q, t, chunk=40):
    return {"group": group, "scen": scen, "n": (q, t), "chunk": chunk}


def mc(inv, live=False):
    return {"name": "solver", "spec": "MCSolver.tla", "cfg": "MCSolver.cfg", "inv": inv, "live": live}


def script_line(g):
    """a behaviour printed by spec/Scripts.tla (ParamScripts.tla) in the format harness/main_core.cpp (main_params.cpp) reads"""
    if "ops" in g:
        def val(v):
            return ("T" if v else "F") if isinstance(v, bool) else "[" + ",".join(v) if isinstance(v, list) else str(v)
        return " ".join([g["kind"], str(len(g["ops"]))] + ["%s %s" % (o, val(v)) for o, v in g["ops"]])
    c = g["cfg"]
    w = [c["tol"], int(c["filter"]), c["fsize"], c["muD"], c["muC"], c["lagc"], c["regmin"], c["regmax"], c["incf"], c["decf"],
         c["thdec"], c["thinc"], int(c["extra"]), int(c["rmreg"]), c["ncb"], len(c["alphas"])] + c["alphas"] + [len(g["pts"])]
    for p in g["pts"]:
        w += [p["c"], p["g"], p["v"], p["lu"], p["luu"], p["x1"], p["bad"]]
    w.append(len(g["runs"]))
    for r in g["runs"]:
        w += [r["maxit"], r["reginit"], r["start"], r["ret"], r["iter"], r["reg"], r["acc"], r["at"]]
    return " ".join(str(x) for x in w)


KIND = {"sqp": "SQP", "csqp": "CSQP", "prox": "PROXQP"}


def gen(group, q, t):
    return {"spec": "Scripts.tla", "n": (q, t), "out": "scripts-" + group, "env": {"KIND": KIND[group]}}


def script(group, q, t, chunk=100):
    return {"group": group, "scen": "script", "n": (q, t), "chunk": chunk, "scripts": "scripts-" + group}


def scripts(q, t, recs=()):
    return dict(gen=[gen(g, q, t) for g in KIND], rec=[script(g, q, t) for g in KIND] + list(recs))


PARAMS = [{"parts": ["src:ddp", "src:fddp", "src:sqp", "src:csqp", "src:csqp_proxqp", "h:main_params"], "exe": "params"}]

PY = [{"parts": [], "exe": "pyrec.py", "dir": "opy"}]


def py(scen, q, t, chunk, **k):
    return dict(group="all", scen=scen, n=(q, t), chunk=chunk, exe="pyrec.py", dir="opy", **k)


REF = [{"parts": [], "exe": "pyref.py", "dir": "opr"}]


def ref(scen, q, t, chunk):
    return dict(group="all", scen=scen, n=(q, t), chunk=chunk, exe="pyref.py", dir="opr", spec="PyRef.tla")


AGREE = [{"parts": ["src:ddp", "src:fddp", "src:sqp", "src:csqp", "src:csqp_proxqp", "src:kkt", "h:mk_kkt", "h:mk_ddp", "h:mk_sqp", "h:mk_csqp", "h:mk_prox", "h:main_agree"],
          "def": "-DWITH_SQP -DWITH_CSQP -DWITH_PROX -DWITH_DDP -DWITH_KKT", "exe": "agree"}]


def agree(scen, q, t, chunk):
    return {"group": "all", "scen": scen, "n": (q, t), "chunk": chunk, "exe": "agree", "spec": "Agree.tla"}


PLANS = {
    "P01": dict(build=ALL3, mc=[mc("Certified Shape")], need=["conv", "solves", "dirs"], **scripts(150, 3000, [
        rec("sqp", "conv", 60, 800), rec("csqp", "convq", 80, 800), rec("prox", "conv", 40, 400),
        rec("sqp", "warm", 60, 800), rec("csqp", "warmq", 60, 800), rec("prox", "warm", 20, 300, 5),
        rec("sqp", "rough", 60, 800), rec("csqp", "roughq", 60, 800), rec("prox", "rough", 30, 300, 15)])),
    "P02": dict(build=ALL3, mc=[mc("Faithful Fresh")], need=["cb", "acc", "rej"], **scripts(100, 3000, [
        rec("sqp", "rough", 80, 1200), rec("csqp", "roughq", 80, 1200), rec("prox", "rough", 30, 300, 15),
        rec("sqp", "smooth", 80, 1200), rec("csqp", "smoothq", 80, 1200), rec("prox", "smooth", 40, 600, 20),
        rec("sqp", "conv", 40, 600), rec("csqp", "convq", 40, 600)])),
    "P03": dict(build=ALL3, mc=[mc("Contained Shape")], need=["acc", "rej", "ref"], **scripts(100, 3000, [
        rec("sqp", "rough", 100, 1600), rec("csqp", "roughq", 100, 1600), rec("prox", "rough", 40, 300, 20),
        rec("sqp", "smooth", 80, 1200), rec("csqp", "smoothq", 80, 1200), rec("prox", "smooth", 40, 600, 20)])),
    "P04": dict(build=ALL3, mc=[mc("FilterSafe")], need=["acc", "rej"], **scripts(400, 8000, [
        rec("sqp", "rough", 80, 2000), rec("csqp", "roughq", 80, 2000), rec("prox", "rough", 30, 300, 15),
        rec("sqp", "conv", 30, 600), rec("csqp", "convq", 30, 600)])),
    "P05": dict(build=ALL3, mc=[mc("Descent")], need=["acc", "rej"], **scripts(400, 8000, [
        rec("sqp", "rough", 80, 2000), rec("csqp", "roughq", 120, 2000), rec("prox", "rough", 30, 300, 15),
        rec("sqp", "conv", 30, 600), rec("csqp", "convq", 30, 600)])),
    "P06": dict(build=ALL3, mc=[mc("Contained")], need=["acc", "ref"], **scripts(200, 4000, [
        rec("sqp", "rough", 120, 2000), rec("csqp", "roughq", 120, 2000), rec("prox", "rough", 40, 300, 20),
        rec("sqp", "warm", 60, 1200), rec("csqp", "warmq", 60, 1200), rec("prox", "warm", 20, 300, 5)])),
    "P07": dict(build=ALL3, mc=[mc("Budget", True)], need=["acc", "rej", "fails", "qp"], **scripts(300, 6000, [
        rec("sqp", "rough", 100, 1600), rec("csqp", "rough", 50, 800, 10), rec("csqp", "roughq", 50, 800),
        rec("prox", "rough", 40, 300, 20), rec("sqp", "conv", 40, 600), rec("csqp", "convq", 40, 600)])),
    "P08": dict(build=ALL3, mc=[mc("RegRange")], need=["acc", "rej", "fails"], **scripts(300, 6000, [
        rec("sqp", "rough", 100, 2000), rec("csqp", "roughq", 100, 2000), rec("prox", "rough", 30, 300, 15),
        rec("sqp", "smooth", 60, 1000), rec("csqp", "smoothq", 60, 1000)])),
    "P09": dict(build=core(SQP, CSQP), mc=[], need=["lq"], rec=[
        rec("sqp", "smooth", 200, 2000), rec("sqp", "rough", 80, 800), rec("csqp", "smooth", 40, 400, 10)]),
    "P10": dict(build=core(CSQP), mc=[{"name": "admm", "spec": "MCAdmm.tla", "cfg": "MCAdmm.cfg"}], need=["qp"], rec=[
        rec("csqp", "smooth", 80, 1200, 10), rec("csqp", "rough", 40, 400, 10), rec("csqp", "warm", 16, 200, 4)]),
    "P11": dict(build=core(CSQP), mc=[{"name": "admm", "spec": "MCAdmm.tla", "cfg": "MCAdmm.cfg"}], need=["qp"], rec=[
        rec("csqp", "smooth", 80, 1200, 10), rec("csqp", "rough", 40, 400, 10), rec("csqp", "warm", 16, 200, 4)]),
    "P12": dict(build=core(CSQP), mc=[mc("Shape", True)], need=["late"], rec=[
        rec("csqp", "clock", 200, 2000, 25)]),
    "P13": dict(build=TWINS, mc=[], need=["pairs", "conv", "try"], rec=[
        twin(g, "hist", n, 25 * n) for g, n in (("sqp", 240), ("csqp", 320), ("prox", 80), ("ddp", 120), ("fddp", 120), ("kkt", 120))]),
    "P15": dict(build=STRICT, mc=[], need=["pairs", "conv", "try"], rec=[
        twin(g, "mut", n, 25 * n) for g, n in (("sqp", 240), ("csqp", 320), ("prox", 80), ("ddp", 120), ("fddp", 120), ("kkt", 120))]),
    "P16": dict(build=PARAMS, mc=[
        {"name": "params-" + k, "spec": "MCParams.tla", "cfg": "MCParams.cfg", "override": True, "sub": {"KIND": '"%s"' % k}, "thorough": k != "CSQP"}
        for k in ("DDP", "FDDP", "SQP", "CSQP", "PROXQP")],
        need=["set", "refused", "solve", "ctor"], gen=[{"spec": "ParamScripts.tla", "n": (400, 8000), "out": "params", "env": {}}],
        rec=[{"group": "all", "scen": "cpp", "n": (400, 8000), "chunk": 50, "exe": "params", "spec": "ParamsTrace.tla", "scripts": "params"}]),
    "P17": dict(build=core(DDP), mc=[mcd("Contained Shape")], need=["pol", "roll", "mod", "open"], rec=
        ddp("smooth", 160, 3000, 20) + ddp("rough", 100, 2000) + ddp("conv", 60, 1000, 20)),
    "P24": dict(build=core(DDP), mc=[mcd("Budget RegRange FilterSafe Descent FeasSound Contained Certified Shape", True)], need=["acc", "rej", "ref", "fails", "conv", "cb"], rec=
        ddp("rough", 200, 4000) + ddp("smooth", 100, 2000, 20) + ddp("conv", 60, 1000, 20)),
    "P22": dict(build=core(KKT), mc=[{"name": "kkt", "spec": "MCKkt.tla", "cfg": "MCKkt.cfg", "inv": "Budget Contained Descent Certified Feasible Shape", "live": True}],
        need=["sys", "acc", "rej", "ref", "conv", "stop", "cb", "open"], rec=[
        dict(rec("kkt", s, q, t), spec="KktTrace.tla") for s, q, t in (("smooth", 120, 2400), ("rough", 240, 4000), ("conv", 60, 1000))]),
    "P23": dict(build=[{"parts": ["src:ddp", "src:fddp", "src:sqp", "src:csqp", "src:csqp_proxqp", "src:utils/callbacks", "h:main_verbose"], "exe": "verbose"}], mc=[],
        need=["lines", "heads", "dashed", "refused", "solves", "rows", "checks"], rec=[
        {"group": "all", "scen": "table", "n": (800, 16000), "chunk": 100, "exe": "verbose", "spec": "Verbose.tla"}]),
    "P20": dict(build=core(PROX), mc=[], need=["pq", "conv"], rec=[
        rec("prox", "smooth", 160, 3000, 20), rec("prox", "rough", 80, 1000, 10), rec("prox", "conv", 80, 1000, 10)]),
    "P21": dict(build=AGREE, mc=[], need=["conv", "again", "active", "pairs"], rec=[agree("lq", 160, 4000, 20), agree("box", 240, 6000, 30)]),
    "P19": dict(build=PY, mc=[], need=["ops", "cb", "logged", "threw", "set", "refused", "solve", "ctor"],
        gen=[{"spec": "ParamScripts.tla", "n": (240, 4000), "out": "params", "env": {}}], rec=[
        py("pair", 480, 8000, 40, spec="Bindings.tla"), py("py", 240, 4000, 40, spec="ParamsTrace.tla", scripts="params")]),
    "P25": dict(build=REF, mc=[], need=["its", "conv", "full", "short", "qp", "active", "cb"], rec=[
        ref("csqp", 120, 2400, 10), ref("clq", 100, 2000, 10), ref("sqp", 80, 2000, 20), ref("lq", 40, 1000, 20), ref("hyb", 60, 1500, 20), ref("hyblq", 40, 1000, 20)]),
    "P18": dict(build=MT, mc=[], all=True, need=["qp", "pairs"], rec=[
        rec("csqp", "smooth", 100, 1600, 10), rec("csqp", "conv", 36, 600, 3), rec("sqp", "smooth", 40, 600), rec("prox", "smooth", 20, 300, 10),
        dict(twin("csqp", "thr", 160, 3000, 20), dir="o2"), dict(twin("sqp", "thr", 40, 600, 20), dir="o2"),
        dict(twin("fddp", "thr", 20, 300, 20), dir="o2")]),
    "P14": dict(build=core(SQP, CSQP), mc=[mc("Budget")], need=["cb"], rec=[
        rec("sqp", "rough", 120, 1200), rec("csqp", "roughq", 120, 1200), rec("sqp", "conv", 60, 600), rec("csqp", "convq", 60, 600),
        rec("csqp", "clock", 60, 600, 25)]),
}


def known():
    out = []
    for line in open(VERIF + "/KNOWN_FINDINGS.txt"):
        m = re.match(r"finding: property=(\S+) where=(\S+) clause=\[(.*?)\] (.*)", line)
        if m:
            out.append({"property": m.group(1), "where": m.group(2), "clause": m.group(3), "text": m.group(4).strip()})
    return out
