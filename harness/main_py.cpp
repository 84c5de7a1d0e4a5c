// Sessions with the solvers through the C++ interface, together with a script
// that lets harness/pyrec.py repeat them through the Python bindings.
//   py GROUP SCEN SEED N FIRST OUT
#include "common.hpp"
#include "params_api.hpp"
#include "pysession.hpp"

namespace {
std::string num(double d) { return J::num(std::isnan(d) ? NANV : d); }
struct O {  // an observation: attribute names are those of the Python classes
  J j;
  O& f(const char* k, double d) {
    j.raw(k, num(d));
    return *this;
  }
  O& i(const char* k, long v) {
    j.i(k, v);
    return *this;
  }
  O& b(const char* k, bool v) {
    j.b(k, v);
    return *this;
  }
  template <class M>
  static std::string flat(const M& m) {  // row by row
    std::string r = "[";
    for (int a = 0; a < m.rows(); ++a)
      for (int c = 0; c < m.cols(); ++c) r += (r.size() > 1 ? "," : "") + num(m(a, c));
    return r + "]";
  }
  template <class M>
  O& v(const char* k, const M& m) {
    j.raw(k, flat(m));
    return *this;
  }
  template <class TT>
  O& t(const char* k, const TT& x) {
    std::string r = "[";
    for (auto& m : x) r += (r.size() > 1 ? "," : "") + flat(m);
    j.raw(k, r + "]");
    return *this;
  }
};

void abst(crocoddyl::SolverAbstract& s, O& o) {
  o.b("isFeasible", s.get_is_feasible()).f("cost", s.get_cost()).f("stop", s.get_stop());
  o.f("preg", s.get_preg()).f("dreg", s.get_dreg()).f("stepLength", s.get_steplength());
  o.i("iter", s.get_iter()).f("th_acceptStep", s.get_th_acceptstep()).f("th_stop", s.get_th_stop());
}
void ddp(SolverDDP& s, O& o) {
  o.t("Vxx", s.get_Vxx()).t("Vx", s.get_Vx()).t("Qxx", s.get_Qxx()).t("Qxu", s.get_Qxu()).t("Quu", s.get_Quu());
  o.t("Qx", s.get_Qx()).t("Qu", s.get_Qu()).t("K", s.get_K()).t("k", s.get_k());
}
template <class S>
void trial(S& s, O& o) {
  o.t("xs_try", s.xs_try_).t("us_try", s.us_try_).t("fs_try", s.fs_try_).f("cost_try", s.cost_try_);
}
void look(SolverDDP& s, O& o) {
  abst(s, o);
  ddp(s, o);
  o.t("xs", s.get_xs()).t("us", s.get_us()).t("fs", s.get_fs()).t("lag_mul", s.lag_mul_).f("KKT", s.get_KKT());
}
void look(SolverFDDP& s, O& o) {
  abst(s, o);
  ddp(s, o);
  o.t("xs", s.get_xs()).t("us", s.get_us()).t("fs", s.get_fs()).t("lag_mul", s.lag_mul_).f("KKT", s.get_KKT());
}
void look(SolverSQP& s, O& o) {
  abst(s, o);
  ddp(s, o);
  trial(s, o);
  o.t("xs", s.get_xs()).t("us", s.get_us()).t("fs", s.get_fs()).t("lag_mul", s.lag_mul_).f("KKT", s.get_KKT());
  o.t("dx", s.get_dx()).t("du", s.get_du()).f("merit", s.get_merit());
}
void look(SolverCSQP& s, O& o) {
  abst(s, o);
  ddp(s, o);
  trial(s, o);
  o.t("xs", s.get_xs()).t("us", s.get_us()).t("fs", s.get_fs()).t("lag_mul", s.lag_mul_).f("KKT", s.get_KKT());
  o.t("dx", s.get_dx()).t("du", s.get_du()).t("dx_tilde", s.get_dx_tilde()).t("du_tilde", s.get_du_tilde());
  o.f("merit", s.get_merit()).f("gap_norm", s.get_gap_norm()).f("constraint_norm", s.get_constraint_norm());
  o.f("qp_iters", s.get_qp_iters()).t("y", s.get_y()).t("z", s.get_z()).t("rho_vec", s.get_rho_vec()).f("rho_sparse", s.get_rho_sparse());
  o.f("norm_primal", s.get_norm_primal()).f("norm_dual", s.get_norm_dual());
  o.f("norm_primal_rel", s.norm_primal_rel_).f("norm_dual_rel", s.norm_dual_rel_);
  o.b("max_solve_time_reached", s.get_max_solve_time_reached());
}
void look(SolverPROXQP& s, O& o) {
  abst(s, o);
  ddp(s, o);
  trial(s, o);
  o.t("xs", s.get_xs()).t("us", s.get_us()).t("fs", s.get_fs()).t("lag_mul", s.get_lag_mul()).f("KKT_norm", s.get_KKT());
  o.t("dx", s.get_dx()).t("du", s.get_du()).f("gap_norm", s.get_gap_norm()).f("constraint_norm", s.get_constraint_norm());
  o.f("qp_iters", s.get_qp_iters()).t("y", s.get_y());
  o.v("P", s.get_P()).v("A", s.get_A()).v("C", s.get_C()).v("q", s.get_q()).v("b", s.get_b()).v("l", s.get_l()).v("u", s.get_u());
}

template <class S>
std::string obs(S& s) {
  O o;
  look(s, o);
  return o.j.done();
}

template <class S>
struct Watch : public CallbackAbstract {
  std::string* ev;
  int id;
  void operator()(crocoddyl::SolverAbstract& s) override { note(s, ""); }
  void operator()(crocoddyl::SolverAbstract& s, std::string t) override { note(s, t); }
  void note(crocoddyl::SolverAbstract& s, const std::string& t) {
    J j;
    j.str("e", "cb").i("id", id).str("type", t).raw("o", obs(static_cast<S&>(s)));
    *ev += "," + j.done();
  }
};

// what else can be called
template <class S>
void more(S&, const std::string&) {}
void more(SolverCSQP& s, const std::string& op) {
  if (op == "calc") s.calc(true);
  if (op == "kkt") s.checkKKTConditions();
  if (op == "rho") s.update_rho_vec(25);
  if (op == "bwd") s.backwardPass_without_rho_update();
}
void more(SolverPROXQP& s, const std::string& op) {
  if (op == "calc") s.calc(true);
}
const Traj& y_of(SolverDDP& s) { return s.lag_mul_; }

template <class S>
void session(Rng& r, Problem& p, const std::string& kind, std::string& ev, std::string& script) {
  S s(p.sp);
  const bool ddp = kind == "DDP" || kind == "FDDP", qp = kind == "CSQP" || kind == "PROXQP";
  script = "[";
  auto run = [&](const J& op, const std::function<double()>& act) {
    script += (script.size() > 1 ? "," : "") + op.done();
    bool threw = false;
    double v = 0;
    try {
      v = act();
    } catch (std::exception&) {
      threw = true;
    }
    J j;
    j.str("e", "op").b("threw", threw).raw("v", num(threw ? 0. : v)).raw("o", obs(s));
    ev += (ev.empty() ? "" : ",") + j.done();
  };
  auto name = [](const char* n) { return J().str("op", n); };
  auto set = [&](const std::string& f, const std::string& v) {
    Value val{v};
    run(name("set").str("n", f).raw("v", val.json()), [&] {
      put(s, f, val);
      return 0.;
    });
  };
  auto hex = [](double d) { return J::num(d).substr(1, 16); };
  auto guess = [&](bool feasible) {
    Traj xs, us;
    for (int t = 0; t <= p.T; ++t) xs.push_back(p.state->embed(t == 0 && feasible ? p.x0 : r.vec(p.nx, 1.)));
    for (int t = 0; t < p.T; ++t) us.push_back(r.vec(p.nodes[t].nu, 1.));
    return std::make_pair(xs, us);
  };
  int solves = 0, dirs = 0;
  const int n = r.in(6, 14);
  run(name("nop"), [&] { return 0.; });
  if (kind == "PROXQP") set("maxqp", "60");  // time
  const bool logs = kind == "SQP" || kind == "CSQP", longer = logs && r.p(0.5);
  auto callbacks = [&](int c, bool log) {
    run(name("cbs").i("n", c).b("log", log), [&] {
      std::vector<std::shared_ptr<CallbackAbstract>> v;
      for (int q = 0; q < c; ++q) {
        auto w = std::make_shared<Watch<S>>();
        w->ev = &ev;
        w->id = q;
        v.push_back(w);
      }
      static_cast<SolverDDP&>(s).setCallbacks(v);
      return (double)static_cast<SolverDDP&>(s).getCallbacks().size();
    });
  };
  if (longer) {  // a log of solves that end in every way
    if (r.p(0.7)) set("extra", "T");
    if (r.p(0.5)) set("alphas", "[" + hex(1.) + (r.p(0.5) ? "" : "," + hex(0.4)));
    if (r.p(0.5)) set("filter", "F");
    callbacks(1, true);
  }
  for (int i = 0; i < n; ++i) {
    const int k = longer && r.p(0.4) ? 5 : r.in(0, 9);
    if (k <= 2) {
      const int m = r.in(0, 8);
      if (m == 0) set("tol", hex(r.pick({1e-4, 1e-8})));
      if (m == 1) set("regmin", hex(r.pick({1e-9, 1e-4})));
      if (m == 2) set("alphas", "[" + hex(1.) + "," + hex(r.pick({0.5, 0.3})) + "," + hex(0.125));
      if (m == 3 && kind != "DDP") set("filter", r.p(0.5) ? "T" : "F");
      if (m == 4 && kind != "DDP" && kind != "PROXQP") set("fsize", std::to_string(r.in(1, 4)));
      if (m == 5 && (kind == "CSQP" || kind == "PROXQP")) set("maxqp", std::to_string(r.in(1, 60)));
      if (m == 6 && (kind == "CSQP" || kind == "SQP")) set("extra", r.p(0.5) ? "T" : "F");
      if (m == 7 && kind == "CSQP") set("rho", hex(r.pick({0.01, 0.3, 1.})));
      if (m == 8 && kind == "CSQP") set(r.p(0.5) ? "eqinit" : "resety", r.p(0.5) ? "T" : "F");
    } else if (k == 3) {
      int c = r.in(0, 3);
      const bool log = r.p(0.5) && (kind == "SQP" || kind == "CSQP");
      if (log) c = std::max(c, 1);  // what the log is compared with
      callbacks(c, log);
    } else if (k <= 6 || solves == 0) {
      ++solves;
      const int maxit = r.in(0, longer ? 9 : 4);
      const bool feas = r.p(0.2);
      const double reg = r.p(0.3) ? r.pick({1e-6, 0.1}) : NANV;
      const int style = r.p(0.1) ? r.in(5, 6) : r.in(0, 4);
      auto g = guess(feas);
      J op = name("solve");
      op.t("xs", g.first).t("us", g.second).i("maxit", maxit).b("feas", feas).raw("reg", num(reg)).i("style", style);
      run(op, [&] {
        if (style == 0) return (double)s.solve(g.first, g.second, maxit, feas, reg);       // positional
        if (style == 1) return (double)s.solve(g.first, g.second, maxit, feas, reg);       // by name
        if (style == 2) return (double)s.solve(g.first, g.second, maxit);                  // defaults
        if (style == 3) return (double)s.solve(g.first, crocoddyl::DEFAULT_VECTOR, maxit); // no controls
        if (style == 4) return (double)s.solve(crocoddyl::DEFAULT_VECTOR, crocoddyl::DEFAULT_VECTOR, maxit, false, reg);
        if (style == 5) return (double)s.solve(g.first, g.second);
        return (double)s.solve();
      });
    } else if (k == 7) {
      auto g = guess(true);
      run(name("cand").t("xs", g.first).t("us", g.second), [&] {
        s.setCandidate(g.first, g.second, false);
        return 0.;
      });
      ++dirs;
      run(name("dir"), [&] {
        s.computeDirection(true);
        return 0.;
      });
      const double a = r.pick({1., 0.5, 0.1});
      run(name("try").raw("a", num(a)), [&] { return s.tryStep(a); });
      if (ddp) {
        run(name("stop"), [&] { return s.stoppingCriteria(); });
        run(name("exp"), [&] { return s.expectedImprovement()[0]; });
      }
    } else if (k == 8 && qp) {
      const char* op = kind == "PROXQP" ? "calc" : r.pick({"calc", "kkt", "rho", "bwd"});
      if (op[0] == 'b' && !dirs) op = "kkt";  // it reuses factorizations
      run(name(op), [&] {
        more(s, op);
        return 0.;
      });
    } else {
      auto g = guess(false);
      const bool x = r.p(0.5);
      run(name("put").str("n", x ? "xs" : "us").t("v", x ? g.first : g.second), [&] {
        if (x)
          s.set_xs(g.first);
        else
          s.set_us(g.second);
        return 0.;
      });
    }
  }
  script += "]";
}
}  // namespace

int main(int argc, char** argv) {
  if (argc < 7) return 3;
  if (!std::freopen("/dev/null", "w", stdout) || !std::freopen("/dev/null", "w", stderr)) return 3;
  const uint64_t seed = std::stoull(argv[3]);
  const int n = std::stoi(argv[4]), first = std::stoi(argv[5]);
  FILE* f = std::fopen(argv[6], "w");
  static const char* kinds[] = {"DDP", "FDDP", "SQP", "CSQP", "PROXQP"};
  for (int i = first; i < first + n; ++i) {
    const std::string kind = kinds[i % 5];
    Rng r(pySeed(kind, seed, i));
    Problem p = pyProblem(r, kind);
    p.build();
    std::string ev, script;
    if (kind == "DDP") session<SolverDDP>(r, p, kind, ev, script);
    if (kind == "FDDP") session<SolverFDDP>(r, p, kind, ev, script);
    if (kind == "SQP") session<SolverSQP>(r, p, kind, ev, script);
    if (kind == "CSQP") session<SolverCSQP>(r, p, kind, ev, script);
    if (kind == "PROXQP") session<SolverPROXQP>(r, p, kind, ev, script);
    std::fprintf(f, "{\"id\":\"py-%s-%d-%d\",\"kind\":\"%s\",\"scen\":\"pair\",\"seed\":%llu,\"i\":%d,\"script\":%s,\"a\":[%s]}\n", kind.c_str(),
                 (int)seed, i, kind.c_str(), (unsigned long long)seed, i, script.c_str(), ev.c_str());
  }
  std::fclose(f);
}
