#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the harness from /repo's working tree, records executions of the real
solvers, and lets TLC decide them against the specification in /verif/spec.
See DESIGN.md.  Exit 0: held; 1: VIOLATION line printed; 2: no answer.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import plan  # noqa: E402

REPO = "/repo"
PREFIX, VENV = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; echo $PREFIX; echo $VENV"],
                              stdout=subprocess.PIPE, text=True).stdout.split()
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPU_LIMIT = 400  # CPU seconds one recorder process may use (typical: 1-5)


class NoAnswer(Exception):
    pass


def sh(cmd, timeout, env=None, cpu=None, out=subprocess.PIPE):
    def lim():
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, stdout=out, stderr=subprocess.STDOUT, timeout=timeout, env=e,
                          preexec_fn=lim, text=True, errors="replace")


def build(tmp, parts, exe="core", xdef="", xflags="", out="o"):
    if exe.endswith(".py"):
        r = sh(["bash", VERIF + "/harness/buildpy.sh", tmp + "/" + out], 600, {"REPO": REPO, "ONLYEXT": "1" if exe == "pyref.py" else ""})
    else:
        r = sh(["bash", VERIF + "/harness/build.sh", tmp + "/" + out, *parts], 600, {"EXE": exe, "XDEF": xdef, "XFLAGS": xflags, "REPO": REPO})
    if r.returncode != 0:
        print(r.stdout[-4000:])
        raise NoAnswer("the harness does not compile against /repo")


def javac(tmp):
    os.makedirs(tmp + "/cls", exist_ok=True)
    src = [VERIF + "/spec/java/" + f for f in os.listdir(VERIF + "/spec/java") if f.endswith(".java")]
    r = sh(["javac", "-cp", TLA.split(":")[0], "-d", tmp + "/cls", *src], 120)
    if r.returncode != 0:
        print(r.stdout)
        raise NoAnswer("javac")


def tlc(tmp, tag, spec, cfg, env=None, timeout=700, override=True, workers=1, mem="3g", extra=()):
    cp = (tmp + "/cls:" if override else "") + TLA
    md = tmp + "/st-" + tag
    r = sh(["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m",
            "-Djava.io.tmpdir=" + tmp, *(["-XX:TieredStopAtLevel=1"] if workers == 1 else []),
            "-DTLA-Library=" + VERIF + "/spec", "-cp", cp, "tlc2.TLC", "-metadir", md, "-cleanup",
            "-noGenerateSpecTE", "-workers", str(workers), *extra, "-config", cfg, spec],
           timeout, env)
    shutil.rmtree(md, ignore_errors=True)
    return r


def unesc(line):
    s = line.strip()
    if s.startswith('"'):
        s = s[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    return s


def parse(out):
    v, s = [], []
    for line in out.splitlines():
        if "@@V" in line:
            v.append(json.loads(unesc(line)[4:]))
        elif "@@S" in line:
            s.append(json.loads(unesc(line)[4:]))
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return v, s, (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Check:
    def __init__(self, prop, tier):
        self.p, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.plan = plan.PLANS[prop]
        self.tmp = tempfile.mkdtemp(prefix="vchk-" + prop + "-")
        self.t0 = time.time()
        self.viol = []
        self.states = self.trans = self.traces = self.events = 0
        self.counters = {}
        self.samples = []
        self.notes = []
        self.other = {}
        self.mc = []
        self.known = []

    # -- one recording + validation ------------------------------------------
    def record(self, job, f):
        out = self.tmp + "/" + job.get("dir", "o")
        exe = job.get("exe", "core")
        cmd = [VENV + "/bin/python", "-B", VERIF + "/harness/" + exe] if exe.endswith(".py") else [out + "/" + exe]
        cmd += [str(a) for a in job["args"]] + [f]
        if job.get("scripts"):
            cmd.append(self.tmp + "/" + job["scripts"])
        env = {"OMP_NUM_THREADS": "4", "OMP_WAIT_POLICY": "passive", "OPENBLAS_NUM_THREADS": "1"}
        env["LD_LIBRARY_PATH"] = PREFIX + "/lib"
        env["VH_DIR"] = out
        env.update(job.get("env", {}))
        r = sh(cmd, 700, env, cpu=CPU_LIMIT)
        return r

    def validate(self, job, f, tag):
        spec = VERIF + "/spec/" + job.get("spec", "SolverTrace.tla")
        return tlc(self.tmp, tag, spec, spec[:-4] + ".cfg", {"TRACES": f})

    def run_job(self, j):
        n, job = j
        f = "%s/t%d.json" % (self.tmp, n)
        t0 = time.time()
        r = self.record(job, f)
        if r.returncode != 0:
            what = {-24: "the solver does not terminate"}.get(r.returncode, "the solver crashes (status %d)" % r.returncode)
            if r.returncode in (3, 126, 127):
                raise NoAnswer("recorder: " + r.stdout[-1000:])
            return dict(n=n, job=job, crash=what, out=r.stdout[-2000:])
        heads = []
        with open(f) as fh:
            for line in fh:
                m = re.search(r'"id":"([^"]*)"', line[:20000])
                heads.append((m.group(1) if m else "?", line.count('"e":"')))
        t1 = time.time()
        o = self.validate(job, f, "j%d" % n)
        if os.environ.get('VERIF_PROF'):
            print('%5.1f start, %5.1fs record %5.1fs tlc %s' % (t0 - self.t0, t1 - t0, time.time() - t1, job['args']), flush=True)
        v, s, st = parse(o.stdout)
        # a pair of executions is walked in lockstep, everything else event by event
        want = st[1] if job.get("spec") in ("Twin.tla", "Bindings.tla") else sum(h[1] for h in heads) + len(heads)
        bad = None
        if o.returncode != 0 or st[1] != want or len(s) != len(heads):
            bad = "TLC status %d, %d states (expected %d), %d of %d traces finished\n%s" % (
                o.returncode, st[1], want, len(s), len(heads), o.stdout[-3000:])
        first = open(f).readline() if heads else ""
        return dict(n=n, job=job, v=v, s=s, st=st, heads=heads, bad=bad, file=f, first=first[:100000])

    def mine(self, v):
        # "all": the recorded build itself is what the property is about, so every clause counts
        return [x for x in v if self.plan.get("all") or self.p in x["p"].split()]

    def save(self, name, obj):
        d = VERIF + "/evidence/replay"
        os.makedirs(d, exist_ok=True)
        path = "%s/%s-%s.json" % (d, self.p, name)
        with open(path, "w") as fh:
            json.dump(obj, fh, indent=1)
        return path

    def trace_of(self, f, tid):
        with open(f) as fh:
            for line in fh:
                if '"id":"%s"' % tid in line[:20000]:
                    return json.loads(line)
        return None

    def is_known(self, x):
        for k in plan.known():
            if k["property"] == self.p and k["clause"] == x["c"] and re.fullmatch(k["where"], x["kind"] + "/" + x["id"]):
                return k
        return None

    def jobs(self):
        out = []
        for rec in self.plan.get("rec", []):
            n = rec["n"][1 if self.tier == "thorough" else 0]
            chunk = rec.get("chunk", 40)
            i = 0
            while i < n:
                m = min(chunk, n - i)
                job = dict(rec)
                job["args"] = [rec["group"], rec["scen"], self.seed, m, i]
                out.append(job)
                i += m
        return out

    def run(self):
        p = self.plan
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            futs = [ex.submit(javac, self.tmp)]
            for b in p.get("build", []):
                futs.append(ex.submit(build, self.tmp, b["parts"], b.get("exe", "core"), b.get("def", ""), b.get("flags", ""), b.get("dir", "o")))
            for fu in futs:
                fu.result()
            mcs = [ex.submit(self.run_mc, m) for m in p.get("mc", []) if self.tier == "thorough" or not m.get("thorough")]
            gens = [ex.submit(self.run_gen, g) for g in p.get("gen", [])]
            jobs = list(enumerate(self.jobs()))
            # the slow recorders first, those that need generated behaviours last
            jobs.sort(key=lambda nj: (bool(nj[1].get("scripts")), nj[1]["group"] != "prox", nj[0]))
            first = [ex.submit(self.run_job, nj) for nj in jobs if not nj[1].get("scripts")]
            for fu in gens:
                fu.result()
            res = [fu.result() for fu in first + [ex.submit(self.run_job, nj) for nj in jobs if nj[1].get("scripts")]]
            for m in mcs:
                m.result()
        for r in res:
            if "crash" in r:
                self.confirm_crash(r)
                continue
            if r["bad"]:
                self.confirm_bad(r)
            self.states += r["st"][1]
            self.trans += r["st"][0]
            self.traces += len(r["heads"])
            self.events += sum(h[1] for h in r["heads"])
            for s in r["s"]:
                for k, c in s.items():
                    self.counters[k] = self.counters.get(k, 0) + c
            for x in r["v"]:
                if not self.plan.get("all") and self.p not in x["p"].split():
                    key = x["p"] + ": " + x["c"]
                    self.other[key] = self.other.get(key, 0) + 1
            mine = self.mine(r["v"])
            fresh = []
            for x in mine:
                k = self.is_known(x)
                if k:
                    self.known.append((k, x))
                else:
                    fresh.append(x)
            if fresh:
                self.confirm(r, fresh)
            if len(self.samples) < 3 and r["heads"]:
                self.samples.append(self.sample(r))

    def sample(self, r):
        try:
            t = json.loads(r["first"]) if len(r["first"]) < 100000 else None
        except ValueError:
            t = None
        d = {"command": [r["job"].get("exe", "core")] + [str(a) for a in r["job"]["args"]], "session": r["heads"][0][0],
             "events": r["heads"][0][1]}
        if t:
            d["event_kinds"] = [e["e"] for e in t.get("ev") or t.get("a") or []][:60]
        return d

    def confirm(self, r, fresh):
        # threads: a race need not hit the same session twice
        key = (lambda x: x["c"]) if self.plan.get("all") else (lambda x: (x["id"], x["ev"], x["c"]))
        conf = []
        for n in range(4 if self.plan.get("all") else 1):
            again = self.run_job((1000 + r["n"], r["job"]))
            rep = {key(x) for x in again.get("v", [])}
            conf = conf or [x for x in fresh if key(x) in rep]
        if not conf:
            raise NoAnswer("a rejection did not repeat: %r" % fresh[:3])
        x = min(conf, key=lambda y: (y["ev"], y["id"]))
        t = self.trace_of(r["file"], x["id"])
        path = self.save("%d" % len(self.viol), {
            "property": self.p, "clause": x["c"], "solver": x["kind"], "session": x["id"], "event": x["ev"],
            "record": [r["job"].get("exe", "core")] + [str(a) for a in r["job"]["args"]], "parts": self.plan.get("build"),
            "spec": r["job"].get("spec", "SolverTrace.tla"), "all": conf[:50], "trace": t})
        self.viol.append((x, path))

    def confirm_crash(self, r):
        again = self.run_job((1000 + r["n"], r["job"]))
        if "crash" not in again:
            raise NoAnswer("a crash did not repeat: " + r["crash"])
        path = self.save("crash%d" % len(self.viol), {
            "property": self.p, "clause": r["crash"], "record": [r["job"].get("exe", "core")] + [str(a) for a in r["job"]["args"]],
            "output": r["out"]})
        self.viol.append(({"c": r["crash"], "id": str(r["job"]["args"]), "ev": 0, "kind": r["job"]["group"]}, path))

    def confirm_bad(self, r):
        # the recording is not even of the shape the specification describes
        again = self.run_job((2000 + r["n"], r["job"]))
        if not again.get("bad"):
            raise NoAnswer("TLC failed once: " + r["bad"])
        if "OutOfMemory" in r["bad"] or "StackOverflow" in r["bad"]:
            raise NoAnswer(r["bad"])
        path = self.save("shape%d" % len(self.viol), {
            "property": self.p, "clause": "the recorded execution is outside the vocabulary of the specification",
            "record": [r["job"].get("exe", "core")] + [str(a) for a in r["job"]["args"]], "tlc": r["bad"]})
        self.viol.append(({"c": "execution outside the specification", "id": str(r["job"]["args"]), "ev": 0,
                           "kind": r["job"]["group"]}, path))

    def run_mc(self, m):
        cfg = "%s/mc-%s.cfg" % (self.tmp, m["name"])
        text = open(VERIF + "/spec/" + m["cfg"]).read()
        if "inv" in m:
            text = re.sub(r"INVARIANTS.*", "INVARIANTS " + m["inv"] if m["inv"] else "", text)
            if not m.get("live"):
                text = re.sub(r"PROPERTY.*", "", text)
        for k, v in m.get("sub", {}).items():
            text = re.sub(r"(?m)^(\s*(?:CONSTANTS?\s+)?)%s = .*$" % k, lambda q: q.group(1) + "%s = %s" % (k, v), text)
        open(cfg, "w").write(text)
        o = tlc(self.tmp, "mc" + m["name"], VERIF + "/spec/" + m["spec"], cfg, override=m.get("override", False),
                workers=m.get("workers", 2), mem="6g", timeout=850, extra=m.get("extra", ()))
        _, _, st = parse(o.stdout)
        if os.environ.get('VERIF_PROF'):
            print('%5.1f mc %s done' % (time.time() - self.t0, m['name']), flush=True)
        if o.returncode != 0:
            raise NoAnswer("model checking %s fails: %s" % (m["name"], o.stdout[-3000:]))
        self.mc.append({"model": m["spec"], "config": text.split("\n"), "states": st[1], "transitions": st[0]})

    def run_gen(self, g):
        """behaviours of the specification, to be replayed in the code"""
        n = g["n"][1 if self.tier == "thorough" else 0]
        extra = ["-simulate", "num=%d" % n, "-depth", str(g.get("depth", 300)), "-seed", str(self.seed)]
        o = tlc(self.tmp, "gen" + g["out"], VERIF + "/spec/" + g["spec"], VERIF + "/spec/" + g["spec"][:-4] + ".cfg",
                env=g.get("env"), extra=extra)
        lines = []
        for line in o.stdout.splitlines():
            if "@@G" in line:
                lines.append(plan.script_line(json.loads(unesc(line)[4:])))
        if len(lines) < n // 2 or o.returncode != 0:
            raise NoAnswer("no behaviours generated: " + o.stdout[-2000:])
        with open(self.tmp + "/" + g["out"], "w") as fh:
            for line in lines:
                fh.write(line + "\n")
        self.counters["generated_behaviours"] = self.counters.get("generated_behaviours", 0) + len(lines)

    def evidence(self):
        mcs = sum(m["states"] for m in self.mc)
        mct = sum(m["transitions"] for m in self.mc)
        cov = {
            "states": self.states + mcs, "transitions": self.trans + mct,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or [{"note": "no session recorded"}],
            "model_states": mcs, "trace_states": self.states, "trace_events": self.events,
            "exercised": self.counters, "models": [{k: m[k] for k in ("model", "states", "transitions")} for m in self.mc],
        }
        if self.other:
            cov["clauses_of_other_properties_rejected"] = self.other
        ev = {"property": self.p, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": plan.ASSUMPTIONS + self.plan.get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.p, "w") as fh:
            json.dump(ev, fh, indent=1)

    def vacuous(self):
        """the property must actually have been exercised"""
        for k in self.plan.get("need", []):
            if self.counters.get(k, 0) == 0:
                return k
        return None

    def main(self):
        try:
            try:
                self.run()
                if not self.viol:
                    k = self.vacuous()
                    if k:
                        raise NoAnswer("vacuous: nothing recorded for " + k)
            except NoAnswer as e:
                if not self.viol:
                    print("NO ANSWER: %s" % e)
                    return 2
            except subprocess.TimeoutExpired as e:
                if not self.viol:
                    print("NO ANSWER: timeout %s" % e)
                    return 2
            self.evidence()
            seen = set()
            for k, x in self.known:
                if k["text"] not in seen:
                    seen.add(k["text"])
                    print("KNOWN-FINDING: property=%s %s" % (self.p, k["text"]))
            for x, path in self.viol[:5]:
                print("  %s: %s (session %s, event %s)" % (x["kind"], x["c"], x["id"], x["ev"]))
            if self.viol:
                print("VIOLATION property=%s replay=%s" % (self.p, self.viol[0][1]))
                return 1
            print("OK property=%s traces=%d events=%d states=%d wall=%.1fs" % (
                self.p, self.traces, self.events, self.states + sum(m["states"] for m in self.mc), time.time() - self.t0))
            if self.other:
                print("  (clauses of other properties rejected: %s)" % self.other)
            return 0
        finally:
            if os.environ.get("VERIF_KEEP"):
                print("kept", self.tmp)
            else:
                shutil.rmtree(self.tmp, ignore_errors=True)


if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(Check(prop, tier).main())
