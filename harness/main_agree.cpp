// Records what several solvers make of the same strictly convex
// linear-quadratic problem:  agree GROUP SCEN SEED N FIRST OUT
//   scen lq: no constraints, all solvers; scen box: constrained solvers
#include "common.hpp"

// a guess, a solver and its settings; the answer is what counts
struct Run {
  std::string g, label;
  Params q;
  bool again = false;  // solve once more from the answer
};

static Params base(Rng& r) {
  Params q;
  q.tol = r.pick({1e-6, 1e-5});
  q.filter = true;
  q.fsize = r.pick({1, 2, 3});
  q.ncb = 0;
  q.maxqp = 20000;
  q.epsa = 1e-8;
  q.epsr = 0.;
  q.proxqp = 10000;
  return q;
}

static void session(const std::string& scen, Rng& r, const std::string& id, FILE* f) {
  GenOpt o;
  o.angles = false;
  o.cons = scen == "box";
  o.T = r.in(1, scen == "box" ? 4 : 8);
  o.nx = r.in(1, scen == "box" ? 3 : 4);
  Problem p = genProblem(r, o);
  if (o.cons) {  // bounds around a feasible trajectory: some of them active at the optimum
    Traj xs(1, p.x0);
    for (int t = 0; t <= p.T; ++t) {
      Node& n = p.nodes[t];
      const Vec u = t < p.T ? r.vec(n.nu, 0.5) : p.u0(t);
      const Eval e = eval(n, xs[t], u, t == p.T);
      for (int i = 0; i < n.ng; ++i) {
        const double a = 0.01 + r.unit(), b = 0.01 + r.unit();
        switch (r.in(0, 5)) {
          case 0: n.lb[i] = e.g[i] - a; n.ub[i] = INF; break;
          case 1: n.lb[i] = -INF; n.ub[i] = e.g[i] + b; break;
          case 2: n.lb[i] = -INF; n.ub[i] = INF; break;
          default: n.lb[i] = e.g[i] - a; n.ub[i] = e.g[i] + b;
        }
      }
      // an equality now and then, on a row of its own
      if (n.ng > 0 && t > 0 && t < p.T && n.nu > 0 && r.p(0.15)) n.lb[0] = n.ub[0] = e.g[0];
      if (t < p.T) xs.push_back(e.xnext);
    }
  }
  p.build();
  g_clock = 0;
  g_calc_cost = 0;
  std::vector<Run> runs;
  auto add = [&](const std::string& g, const std::string& label) {
    Run x{g, label, base(r), r.p(0.5)};
    runs.push_back(x);
    return (int)runs.size() - 1;
  };
  if (scen == "lq") {
    for (auto g : {"sqp", "csqp", "prox", "ddp", "fddp", "kkt"}) add(g, "");
    runs[add("sqp", "merit")].q.filter = false;
    Params& q = runs[add("csqp", "split")].q;
    q.eqinit = false;
  } else {
    add("csqp", "");
    add("prox", "");
    Params& q = runs[add("csqp", "tuned")].q;
    q.alpha = r.pick({1., 1.3});
    q.rho0 = r.pick({0.01, 1.});
    q.rhoint = r.pick({5, 25, 50});
    q.eqinit = r.p(0.5);
    q.heur = r.p(0.5);
    q.rmreg = r.p(0.5);
    q.resetrho = r.p(0.5);
    Params& m = runs[add("csqp", "merit")].q;
    m.filter = false;
    m.muC = m.muD = -1.;
  }
  std::string ev;
  for (auto& x : runs) {
    Trace t;
    std::unique_ptr<IProbe> s(make(x.g, &p, &t));
    s->prm = x.q;
    s->apply();
    s->qpdetail = false;
    s->maxsteps = 1000000;
    SolveArgs a = x.g == "ddp" || x.g == "fddp" || x.g == "kkt" ? genDdpArgs(r, p, 60) : genArgs(r, p, 60);
    a.reginit = NANV;
    for (int k = 0; k < (x.again ? 2 : 1); ++k) {
      if (k) {
        a.xs = p.chart(s->X());
        a.us = s->U();
        a.feas = false;
      }
      const int ret = s->solve(a);
      if (ret == 3) break;
      J j;
      j.str("kind", s->kind).str("label", x.label).b("again", k == 1).b("qpok", s->qpok).raw("cfg", x.q.json());
      ev += (ev.empty() ? "" : ",") + j.s + "," + t.ev.back().substr(1);
    }
  }
  std::fprintf(f, "{\"id\":\"%s\",\"scen\":\"%s\",\"ev\":[%s]}\n", id.c_str(), scen.c_str(), ev.c_str());
}

int main(int argc, char** argv) {
  if (argc < 7) return 3;
  const std::string scen = argv[2];
  const uint64_t seed = std::stoull(argv[3]);
  const int n = std::stoi(argv[4]), first = std::stoi(argv[5]);
  FILE* f = std::fopen(argv[6], "w");
  for (int i = first; i < first + n; ++i) {
    uint64_t h = 0;
    for (char c : "agree/" + scen) h = mix(h, (uint64_t)c);
    Rng r(mix(h, seed * 1000003 + i));
    session(scen, r, scen + "-" + std::to_string(seed) + "-" + std::to_string(i), f);
  }
  std::fclose(f);
}
