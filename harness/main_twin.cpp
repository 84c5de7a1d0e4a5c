// Records pairs of executions that the specification (spec/Twin.tla) requires
// to be indistinguishable:  twin <group> <scenario> <seed> <n> <first> <outfile>
//   hist  a fresh solver / a solver with a past (other guesses, parameters,
//         initial states, broken models, time limits), given the same request
//   thr   two fresh solvers working with different numbers of threads
//   mut   a fresh solver on a problem / a solver whose problem was changed into it
#include "common.hpp"

static bool isDdp(const std::string& g) { return g == "ddp" || g == "fddp" || g == "kkt"; }
static Params randomParams(Rng& r, const std::string& g, bool own) {
  Params q = genParams(r);
  genQpParams(r, q);
  if (q.alphas.empty())
    for (int i = 0; i < 10; ++i) q.alphas.push_back(std::pow(0.5, i));
  if (g == "prox") q.proxqp = 40;
  q.maxqp = r.pick({1, 5, 25, 50});
  if (isDdp(g)) genDdpParams(r, q);
  if (g == "kkt") q.thstop = r.pick({1e-9, 1e-6, 1e-2, 10.});
  if (own && g == "csqp") {  // warm starting the subproblem is asked-for history
    q.resety = true;
    q.eqinit = true;
  }
  return q;
}
static Node faulty(Node n, Rng& r) {
  switch (r.in(0, 5)) {
    case 0: n.pNanC = 0.5; break;
    case 1: n.pNanX = 0.5; break;
    case 2: n.pNanG = 0.5; break;
    case 3: n.pThrow = 0.5; break;
    case 4: n.regionG = 0.; break;
    default: n.R -= 5. * Mat::Identity(n.nu, n.nu);
  }
  return n;
}
static SolveArgs randomArgs(Rng& r, const std::string& g, const Problem& p, int maxit) {
  return isDdp(g) ? genDdpArgs(r, p, maxit) : genArgs(r, p, maxit);
}
static void setX0(Problem& p, const Vec& x) {
  p.x0 = x;
  p.sp->set_x0(p.state->embed(x));
}
// One arbitrary use of the solver.
static void junk(Rng& r, const std::string& g, Problem& p, IProbe& s) {
  const std::vector<Node> nodes = p.nodes;
  const Vec x0 = p.x0;
  s.prm = randomParams(r, g, false);
  if (r.p(0.3)) s.prm.maxtime = r.pick({0., 1., 3.});
  s.qp_cost = r.pick({0., 0.5});
  s.apply();
  if (r.p(0.4)) {
    Node& n = p.nodes[r.in(0, p.T)];
    n = faulty(n, r);
    sync(p);
  }
  if (r.p(0.4)) setX0(p, r.vec(p.nx, 2.));
  SolveArgs a = randomArgs(r, g, p, r.in(0, 5));
  if (r.p(0.1) && !a.us.empty() && a.us[0].size() > 0) a.us[0][0] = NANV;
  s.solve(a);
  p.nodes = nodes;
  sync(p);
  setX0(p, x0);
}

// Replace the model of one stage by one of possibly different dimensions.
static void replaceNode(Rng& r, Problem& p, const GenOpt& o, bool dims) {
  const int t = r.in(0, p.T);
  Node n = p.nodes[t];
  const int nu = dims ? r.in(t == 0 ? 1 : 0, 3) : n.nu, ng = dims && o.cons ? r.in(0, 3) : n.ng;
  Node m = genNode(r, p.nx, nu, ng, o);
  p.nodes[t] = m;
  p.models[t] = std::make_shared<TModel>(p.state, m);
  if (r.p(0.5))
    p.sp->updateModel(t, p.models[t]);
  else
    p.sp->updateNode(t, p.models[t], p.models[t]->createData());
}
// A receding horizon: drop the first stage, append another one.
static void shift(Rng& r, Problem& p, const GenOpt& o, bool dims) {
  Node m = genNode(r, p.nx, dims ? r.in(1, 3) : p.nodes[p.T - 1].nu, dims && o.cons ? r.in(0, 3) : p.nodes[p.T - 1].ng, o);
  auto model = std::make_shared<TModel>(p.state, m);
  p.nodes.erase(p.nodes.begin());
  p.models.erase(p.models.begin());
  p.nodes.insert(p.nodes.end() - 1, m);
  p.models.insert(p.models.end() - 1, model);
  if (r.p(0.5))
    p.sp->circularAppend(model);
  else
    p.sp->circularAppend(model, model->createData());
}
static void mutate(Rng& r, Problem& p, const GenOpt& o) {
  const int k = r.in(0, 6);
  if (k == 0) setX0(p, r.vec(p.nx, 1.));
  if (k == 1) {  // parameters
    Node& n = p.nodes[r.in(0, p.T)];
    n.A = Mat::Identity(p.nx, p.nx) + r.mat(p.nx, p.nx, 0.4);
    n.q = r.vec(p.nx, 1.);
    n.h = r.vec(n.ng, 0.5);
    sync(p);
  }
  if (k == 2) {  // bounds, and with them the kind of each constraint
    for (auto& n : p.nodes)
      for (int i = 0; i < n.ng; ++i) {
        const int c = r.in(0, 7);
        if (c == 0) continue;
        n.lb[i] = c <= 2 ? -INF : -0.1 - r.unit();
        n.ub[i] = c == 1 || c == 3 ? INF : 0.1 + r.unit();
        if (c >= 6) n.lb[i] = n.ub[i] = r.sym(0.2);
      }
    sync(p);
  }
  if (k == 3) replaceNode(r, p, o, false);
  if (k == 4) replaceNode(r, p, o, true);
  if (k == 5) shift(r, p, o, false);
  if (k == 6) shift(r, p, o, true);
}

static std::string events(const Trace& t) {
  std::string s = "[";
  for (std::size_t i = 0; i < t.ev.size(); ++i) s += (i ? "," : "") + t.ev[i];
  return s + "]";
}
static void run(const std::string& g, const Problem& proto, const Params& q, const SolveArgs& a, IProbe* s, Trace& t, double qc, bool apply = true) {
  g_clock = 0;
  t.ev.clear();
  s->prm = q;
  s->qp_cost = qc;
  if (apply) s->apply();
  s->forget();
  s->full = false;
  s->qpdetail = true;
  s->solve(a);
}

static void session(const std::string& g, const std::string& scen, Rng& r, const std::string& id, FILE* f) {
  GenOpt o;
  o.cons = g != "sqp" && !isDdp(g);
  o.eps = r.pick({0., 0.1, 0.3});
  o.epsc = r.pick({0., 0.3});
  o.epsg = r.pick({0., 0.1});
  o.bump = 0.2;
  o.fault = 0.2;
  o.indef = 0.1;
  if (scen == "thr") {  // longer horizons; exceptions do not cross a parallel region
    o.T = r.in(2, 12);
    o.fault = 0.;
  }
  Problem pb = genProblem(r, o);
  if (scen == "thr") pb.threads = r.in(3, 6);
  pb.build();
  g_clock = 0;
  g_calc_cost = scen == "thr" ? 0. : r.pick({0., 0.125});
  Trace ta, tb;
  std::unique_ptr<IProbe> sb(make(g, &pb, &tb));
  sb->full = false;
  std::string past = "[";
  const int n = r.in(1, 3);
  bool again = false;
  if (scen == "hist") {
    for (int i = 0; i < n; ++i) junk(r, g, pb, *sb);
  } else if (scen == "mut") {
    sb->prm = randomParams(r, g, true);
    sb->apply();
    if (r.p(0.8)) sb->solve(randomArgs(r, g, pb, r.in(0, 4)));
    again = r.p(0.4);
    for (int i = 0; i < n; ++i) {
      mutate(r, pb, o);
      if (r.p(0.3)) sb->solve(randomArgs(r, g, pb, r.in(0, 2)));
    }
  }
  Params q = randomParams(r, g, true);
  double qc = 0;
  if (again) q = sb->prm;  // the user keeps the parameters, and does not set them again
  else if (scen != "thr" && r.p(0.2)) {
    q.maxtime = r.pick({1., 4., 16.});
    qc = r.pick({0.25, 0.5});
  }
  const SolveArgs a = randomArgs(r, g, pb, r.in(0, 5));
  Problem pa;
  pa.T = pb.T;
  pa.nx = pb.nx;
  pa.ang = pb.ang;
  pa.x0 = pb.x0;
  pa.nodes = pb.nodes;
  pa.threads = 2;
  pa.build();
  std::unique_ptr<IProbe> sa(make(g, &pa, &ta));
  run(g, pa, q, a, sa.get(), ta, qc);
  run(g, pb, q, a, sb.get(), tb, qc, !again);
  std::fprintf(f, "{\"id\":\"%s\",\"kind\":\"%s\",\"scen\":\"%s\",\"a\":%s,\"b\":%s}\n", id.c_str(), sa->kind.c_str(), scen.c_str(),
               events(ta).c_str(), events(tb).c_str());
}

int main(int argc, char** argv) {
  if (argc < 7) return 3;
  const std::string group = argv[1], scen = argv[2];
  const uint64_t seed = std::stoull(argv[3]);
  const int n = std::stoi(argv[4]), first = std::stoi(argv[5]);
  FILE* f = std::fopen(argv[6], "w");
  for (int i = first; i < first + n; ++i) {
    uint64_t h = 0;
    for (char c : "twin/" + group + "/" + scen) h = mix(h, (uint64_t)c);
    Rng r(mix(h, seed * 1000003 + i));
    session(group, scen, r, group + "-" + scen + "-" + std::to_string(seed) + "-" + std::to_string(i), f);
  }
  std::fclose(f);
}
