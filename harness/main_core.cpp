// Records executions of the solvers:  core <group> <scenario> <seed> <n> <first> <outfile>
#include "common.hpp"

#include <fstream>
#include <sstream>

static void session(const std::string& g, const std::string& scen0, Rng& r, const std::string& id, FILE* f) {
  // a trailing q: without the details of the QP iterations
  const bool quiet = scen0.back() == 'q';
  const std::string scen = quiet ? scen0.substr(0, scen0.size() - 1) : scen0;
  GenOpt o;
  const bool ddp = g == "ddp" || g == "fddp" || g == "kkt";
  o.cons = g != "sqp" && !ddp;
  o.eps = r.pick({0., 0.1, 0.3});
  o.epsc = r.pick({0., 0.3});
  o.epsg = r.pick({0., 0.1});
  if (scen == "rough") {  // decisions: bumps, faults, indefiniteness
    o.bump = 0.4;
    o.fault = 0.4;
    o.indef = 0.2;
  } else if (scen == "smooth") {
    o.indef = 0.1;
    o.bump = 0.1;
  } else {  // conv, clock, warm
    o.eps = r.pick({0., 0.05});
    o.epsc = r.pick({0., 0.1});
    o.boxy = r.p(0.7);
  }
  Problem p = genProblem(r, o);
#ifdef CROCODDYL_WITH_MULTITHREADING
  p.threads = r.in(2, 5);
#endif
  p.build();
  Trace t;
  Params q = genParams(r);
  genQpParams(r, q);
  g_clock = 0;
  g_calc_cost = 0;
  std::unique_ptr<IProbe> s(make(g, &p, &t));
  int maxit = r.in(0, 6), ns = r.in(1, 2);
  if (scen == "conv" || scen == "warm") {
    maxit = r.in(5, 15);
    q.tol = r.pick({1e-8, 1e-6, 1e-4});
    q.epsa = r.pick({1e-6, 1e-9});
    q.epsr = 0.;
    q.maxqp = r.pick({200, 60});
    if (scen == "warm") q.proxqp = 30;
  }
  if (scen == "clock") {
    g_calc_cost = r.pick({0., 0.125, 0.25});
    s->qp_cost = r.pick({0., 0.5, 1.});
    q.maxtime = r.pick({0., 0.5, 1., 2., 5., 10., 30.});
    q.extra = r.p(0.5);
  }
  if (scen == "rough") q.proxqp = 50;
  if (ddp) genDdpParams(r, q);
  if (g == "kkt") q.thstop = r.pick({1e-9, 1e-6, 1e-2, 10.});
  s->prm = q;
  s->apply();
  s->qpdetail = !quiet || std::getenv("VH_FULL");
  SolveArgs last;
  for (int k = 0; k < ns; ++k) {
    const SolveArgs a = ddp ? genDdpArgs(r, p, maxit) : genArgs(r, p, maxit);
    if (s->solve(a) == 3) break;
  }
  if (scen == "warm" && !p.nodes.empty()) {
    // resume at the previous result, possibly with a model that broke there
    SolveArgs a;
    a.xs = p.chart(s->X());
    a.us = s->U();
    a.maxit = r.in(1, 4);
    a.feas = r.p(0.5);
    const int k = r.in(0, 6), node = r.in(0, p.T);
    Node& n = p.nodes[node];
    if (k == 1) n.regionG = -1.;
    if (k == 2) n.regionX = -1.;
    if (k == 3) n.pNanG = 0.3;
    if (k == 4) n.pNanX = n.pNanC = 0.2;
    if (k == 5) n.regionThrow = -1.;
    if (k == 6) n.regionThr = -1.;
    sync(p);
    s->solve(a);
  }
  t.head = flags(p, *s) + "\"exact\":false,\"pred\":[]," + head(p, s->kind, id);
  t.write(f);
}

// ---- behaviours generated by spec/Scripts.tla (converted by tools/check.py)
static double hx(std::istream& in) {
  std::string w;
  in >> w;
  const uint64_t b = std::stoull(w, nullptr, 16);
  double d;
  std::memcpy(&d, &b, 8);
  return d;
}
static void scriptSession(const std::string& g, const std::string& line, const std::string& id, FILE* f) {
  std::istringstream in(line);
  Params q;
  q.tol = hx(in);
  in >> q.filter >> q.fsize;
  q.muD = hx(in);
  q.muC = hx(in);
  q.lagc = hx(in);
  q.regmin = hx(in);
  q.regmax = hx(in);
  q.incf = hx(in);
  q.decf = hx(in);
  q.thdec = hx(in);
  q.thinc = hx(in);
  in >> q.extra >> q.rmreg >> q.ncb;
  int n;
  in >> n;
  for (int i = 0; i < n; ++i) q.alphas.push_back(hx(in));
  auto scr = std::make_shared<Script>();
  in >> n;
  for (int i = 0; i < n; ++i) {
    ScriptPoint p;
    p.c = hx(in);
    p.g = hx(in);
    p.v = hx(in);
    p.lu = hx(in);
    p.luu = hx(in);
    p.x1 = hx(in);
    in >> p.bad;
    scr->pts.push_back(p);
  }
  q.maxqp = 2;
  q.eqinit = true;
  Problem p;
  p.T = 1;
  p.nx = 1;
  p.ang.assign(1, 0);
  p.x0 = Vec::Constant(1, 0.25);
  for (int t = 0; t <= 1; ++t) {
    Node nd;
    nd.nx = 1;
    nd.nu = 1;
    nd.ng = (g != "sqp" && t == 0) ? 1 : 0;
    nd.lb = Vec::Constant(nd.ng, -INF);
    nd.ub = Vec::Zero(nd.ng);
    nd.convex = false;
    nd.scr = scr;
    p.nodes.push_back(nd);
  }
  p.build();
  Trace t;
  g_clock = 0;
  g_calc_cost = 0;
  std::unique_ptr<IProbe> s(make(g, &p, &t));
  s->prm = q;
  s->apply();
  s->qpdetail = false;
  s->exactDirection = true;
  int runs;
  in >> runs;
  std::string pred;
  for (int k = 0; k < runs; ++k) {
    SolveArgs a;
    int start, ret, iter, acc, at;
    in >> a.maxit;
    a.reginit = hx(in);
    in >> start >> ret >> iter;
    const double reg = hx(in);
    in >> acc >> at;
    a.xs = {p.x0, Vec::Constant(1, scr->pts[start - 1].x1)};
    a.us = {Vec::Constant(1, 100. * (k + 1))};
    J j;
    j.i("ret", ret).i("iter", iter).f("reg", reg).i("acc", acc);
    pred += (k ? "," : "") + j.done();
    if (s->solve(a) == 3) break;
  }
  t.head = flags(p, *s) + std::string("\"exact\":true,\"over\":") + (scr->exhausted ? "true" : "false") + ",\"pred\":[" + pred + "]," + head(p, s->kind, id);
  t.write(f);
}

int main(int argc, char** argv) {
  if (argc < 7) return 3;
  const std::string group = argv[1], scen = argv[2];
  const uint64_t seed = std::stoull(argv[3]);
  const int n = std::stoi(argv[4]), first = std::stoi(argv[5]);
  FILE* f = std::fopen(argv[6], "w");
  if (scen == "script") {
    std::ifstream in(argv[7]);
    std::string line;
    for (int i = 0; std::getline(in, line); ++i)
      if (i >= first && i < first + n) scriptSession(group, line, group + "-script-" + std::to_string(seed) + "-" + std::to_string(i), f);
    std::fclose(f);
    return 0;
  }
  for (int i = first; i < first + n; ++i) {
    uint64_t h = 0;
    for (char c : group + "/" + scen) h = mix(h, (uint64_t)c);
    Rng r(mix(h, seed * 1000003 + i));
    session(group, scen, r, group + "-" + scen + "-" + std::to_string(seed) + "-" + std::to_string(i), f);
  }
  std::fclose(f);
}
