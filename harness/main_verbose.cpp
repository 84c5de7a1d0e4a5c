// Records what the verbose callback prints next to what the solver publishes.
//   verbose GROUP SCEN SEED N FIRST OUT
#include "gen.hpp"

#include <crocoddyl/core/utils/stop-watch.hpp>
#include <functional>
#include <iostream>
#include <sstream>

#include "mim_solvers/csqp_proxqp.hpp"
#include "mim_solvers/fddp.hpp"

namespace vh {
double g_clock = 0;
double g_calc_cost = 0;
}  // namespace vh
using namespace vh;

// a word of a printed line
static std::string token(const std::string& w) {
  char* end = nullptr;
  const double v = std::strtod(w.c_str(), &end);
  const bool num = end && *end == 0 && !w.empty();
  const bool sci = w.find('e') != std::string::npos;
  int frac = 0;
  const std::size_t dot = w.find('.');
  if (dot != std::string::npos)
    for (std::size_t i = dot + 1; i < w.size() && std::isdigit((unsigned char)w[i]); ++i) ++frac;
  std::string safe;
  for (char c : w) safe += (c == '"' || c == '\\' || (unsigned char)c < 32 || (unsigned char)c > 126) ? '?' : c;
  J j;
  j.str("s", safe).b("num", num).b("sci", sci).i("frac", frac).f("v", num ? v : 0.);
  return j.done();
}
static std::string lines(const std::string& out) {
  std::string r = "[";
  std::istringstream in(out);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ws(line);
    std::string w, l = "[", text;
    while (ws >> w) {
      l += (l.size() > 1 ? "," : "") + token(w);
      for (char c : w) text += (c == '"' || c == '\\' || (unsigned char)c < 32 || (unsigned char)c > 126) ? '?' : c;
      text += ' ';
    }
    if (!text.empty()) text.pop_back();
    r += (r.size() > 1 ? ",{\"text\":\"" : "{\"text\":\"") + text + "\",\"toks\":" + l + "]}";
  }
  return r + "]";
}

template <class S>
static void publish(J& j, crocoddyl::SolverAbstract& b) {
  S& s = dynamic_cast<S&>(b);
  if constexpr (std::is_same<S, mim_solvers::SolverPROXQP>::value) j.f("viol", s.get_constraint_norm()).i("qpit", (long long)s.get_qp_iters());
  if constexpr (std::is_same<S, mim_solvers::SolverPROXQP>::value)
    j.f("merit", s.get_merit()).f("gap", s.get_gap_norm()).f("xg", s.get_xgrad_norm()).f("ug", s.get_ugrad_norm());
  if constexpr (std::is_same<S, mim_solvers::SolverCSQP>::value) j.i("every", (long long)s.get_rho_update_interval());
  j.f("kkt", s.get_KKT()).f("tol", s.get_termination_tolerance());
  if constexpr (std::is_same<S, mim_solvers::SolverCSQP>::value) j.f("viol", s.get_constraint_norm()).i("qpit", (long long)s.get_qp_iters());
  if constexpr (std::is_same<S, mim_solvers::SolverCSQP>::value || std::is_same<S, mim_solvers::SolverSQP>::value)
    j.f("merit", s.get_merit()).f("gap", s.get_gap_norm()).f("xg", s.get_xgrad_norm()).f("ug", s.get_ugrad_norm());
  j.i("iter", (long long)s.get_iter()).f("cost", s.get_cost()).f("step", s.get_steplength());
}

// the lines a solver prints by itself, each with what it publishes while printing
struct Tap : public std::streambuf {
  std::function<void(const std::string&)> line;
  std::string buf;
  int overflow(int c) override {
    if (c == '\n') {
      line(buf);
      buf.clear();
    } else if (c != EOF) {
      buf += (char)c;
    }
    return 0;
  }
};

// the callback of an earlier session, of any solver
static std::shared_ptr<mim_solvers::CallbackVerbose> passed;

// stands around the verbose callback and watches it
template <class S>
struct Watch : public mim_solvers::CallbackAbstract {
  std::shared_ptr<mim_solvers::CallbackVerbose> cb;
  Trace* tr;
  Rng* r;
  std::vector<double> seen;
  void operator()(crocoddyl::SolverAbstract&) override {}
  void operator()(crocoddyl::SolverAbstract& s, std::string type) override {
    if (r->p(0.15)) cb->set_precision(r->in(0, 9));
    J j;
    j.str("e", "line").i("prec", cb->get_precision());
    publish<S>(j, s);
    seen.push_back(dynamic_cast<S&>(s).get_KKT());
    J before, after;
    publish<S>(before, s);
    std::ostringstream out;
    std::streambuf* old = std::cout.rdbuf(out.rdbuf());
    bool threw = false;
    try {
      (*cb)(s, type);
    } catch (std::exception&) {
      threw = true;
    }
    std::cout.rdbuf(old);
    publish<S>(after, s);
    j.b("threw", threw).b("same", before.done() == after.done()).raw("out", lines(out.str()));
    tr->add(j);
  }
};

static void precision(Rng& r, mim_solvers::CallbackVerbose& cb, Trace& tr) {
  const int p = r.in(-3, 12), old = cb.get_precision();
  bool threw = false;
  try {
    cb.set_precision(p);
  } catch (std::exception&) {
    threw = true;
  }
  J j;
  tr.add(j.str("e", "prec").i("old", old).i("set", p).i("now", cb.get_precision()).b("threw", threw));
}

template <class S>
static void setup(Rng&, S&) {}
template <>
void setup(Rng& r, mim_solvers::SolverSQP& s) {
  s.set_use_filter_line_search(r.p(0.6));
  s.set_mu_dynamic(r.pick({0., 1., 10.}));
  s.set_extra_iteration_for_last_kkt(r.p(0.5));
}
template <>
void setup(Rng& r, mim_solvers::SolverCSQP& s) {
  s.set_use_filter_line_search(r.p(0.6));
  s.set_mu_dynamic(r.pick({-1., 1., 10.}));
  s.set_mu_constraint(r.pick({-1., 1., 10.}));
  s.set_extra_iteration_for_last_kkt(r.p(0.5));
  s.set_max_qp_iters(r.pick({1, 10, 100}));
  s.set_rho_update_interval((std::size_t)r.pick({1, 3, 7, 25}));
  s.reset_y_ = s.reset_rho_ = r.p(0.6);
  s.set_eps_abs(r.pick({1e-8, 1e-4, 1e-2}));
  s.set_eps_rel(r.pick({0., 0., 1e-3, 1e-6}));
}
template <>
void setup(Rng& r, mim_solvers::SolverPROXQP& s) {
  s.set_use_filter_line_search(r.p(0.6));
  s.set_mu_dynamic(r.pick({1., 10.}));
  s.set_mu_constraint(r.pick({1., 10.}));
  s.set_max_qp_iters(r.pick({1, 10, 100}));
}

template <class S>
static void session(Rng& r, const std::string& kind, const std::string& id, FILE* f) {
  constexpr bool prox = std::is_same<S, mim_solvers::SolverPROXQP>::value;
  GenOpt o;
  o.cons = kind == "CSQP" || prox;
  o.eps = r.pick({0., 0.1, 0.3});
  o.epsc = r.pick({0., 0.3});
  o.boxy = true;
  if (r.p(0.3)) o.bump = 1.;
  if (r.p(0.3)) o.fault = 1.;
  Problem p = genProblem(r, o);
  p.build();
  Trace tr;
  S s(p.sp);
  setup(r, s);
  auto w = std::make_shared<Watch<S>>();
  w->cb = r.p(0.5) ? std::make_shared<mim_solvers::CallbackVerbose>() : std::make_shared<mim_solvers::CallbackVerbose>(r.in(0, 8));
    if (passed && r.p(0.4)) w->cb = passed;  // has been used with another solver
  passed = w->cb;
  w->tr = &tr;
  w->r = &r;
  if constexpr (!prox) s.setCallbacks({w});
  Tap tap;
  tap.line = [&](const std::string& text) {
    J j;
    w->seen.push_back(s.get_KKT());
    j.str("e", prox ? "prow" : "qrow").i("prec", prox ? 5 : 4);
    publish<S>(j, s);
    if constexpr (std::is_same<S, mim_solvers::SolverCSQP>::value) {
      j.f("np", s.get_norm_primal()).f("nd", s.get_norm_dual()).f("npt", s.get_norm_primal_tolerance()).f("ndt", s.get_norm_dual_tolerance());
      j.f("npr", s.norm_primal_rel_).f("ndr", s.norm_dual_rel_).f("eabs", s.get_eps_abs()).f("erel", s.get_eps_rel());
    }
    tr.add(j.raw("out", lines(text + "\n")));
  };
  SolveArgs again;
  bool tie = false;
  for (int k = r.in(1, 3); k > 0; --k) {
    precision(r, *w->cb, tr);
    // far below what can be reached: long runs, several headings
    s.set_termination_tolerance(r.p(0.4) ? 1e-300 : r.pick({1e-9, 1e-4, 1e-2}));
    const int maxit = r.in(1, 24);
    SolveArgs a = genArgs(r, p, maxit);
    // once more with a residual of the last solve as tolerance: one iterate meets it exactly
    tie = !tie && k < 3 && !w->seen.empty() && r.p(0.6);
    if (tie && w->seen.back() >= 0. && std::isfinite(w->seen.back())) {
      a = again;
      s.set_termination_tolerance(r.p(0.6) ? w->seen.back() : std::max(0., w->seen[r.in(0, (int)w->seen.size() - 1)]));
    }
    again = a;
    w->seen.clear();
    bool table = r.p(0.7);
    if constexpr (prox) s.setCallbacks(table);
    if constexpr (std::is_same<S, mim_solvers::SolverCSQP>::value) s.setQPCallbacks(table);
    J j;
    tr.add(j.str("e", "begin").b("table", table));
    std::streambuf* old = std::cout.rdbuf(&tap);
    bool threw = false, ok = false;
    try {
      ok = s.solve(p.embed(a.xs), a.us, (std::size_t)a.maxit, false, 1e-9);
    } catch (std::exception&) {
      threw = true;
    }
    std::cout.rdbuf(old);
    J e;
    tr.add(e.str("e", "end").b("ok", ok).b("threw", threw).i("iter", (long long)s.get_iter()).str("rest", tap.buf));
  }
  tr.head = "\"id\":\"" + id + "\",\"kind\":\"" + kind + "\"";
  tr.write(f);
}

int main(int argc, char** argv) {
  if (argc < 7) return 3;
  if (!std::freopen("/dev/null", "w", stderr)) return 3;
  const std::string group = argv[1], scen = argv[2];
  const uint64_t seed = std::stoull(argv[3]);
  const int n = std::stoi(argv[4]), first = std::stoi(argv[5]);
  FILE* f = std::fopen(argv[6], "w");
  for (int i = first; i < first + n; ++i) {
    uint64_t h = 0;
    for (char c : "verbose/" + scen) h = mix(h, (uint64_t)c);
    Rng r(mix(h, seed * 1000003 + i));
    const std::string id = scen + "-" + std::to_string(seed) + "-" + std::to_string(i);
    switch (i % 5) {
      case 0: session<mim_solvers::SolverCSQP>(r, "CSQP", id, f); break;
      case 1: session<mim_solvers::SolverSQP>(r, "SQP", id, f); break;
      case 4: session<mim_solvers::SolverPROXQP>(r, "PROXQP", id, f); break;
      case 2: session<mim_solvers::SolverDDP>(r, "DDP", id, f); break;
      default: session<mim_solvers::SolverFDDP>(r, "FDDP", id, f);
    }
  }
  std::fclose(f);
}
