#pragma once
#include "probe.hpp"
namespace vh {

struct PSQP : public mim_solvers::SolverSQP, public IProbe {
  using mim_solvers::SolverSQP::solve;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  PSQP(Problem* p, Trace* t) : mim_solvers::SolverSQP(p->sp) {
    P = p;
    tr = t;
    kind = "SQP";
  }
  const Traj& X() const override { return get_xs(); }
  const Traj& U() const override { return get_us(); }
  void apply() override {
    prm.rmreg = false;
    prm.maxtime = INF;
    set_termination_tolerance(prm.tol);
    set_use_filter_line_search(prm.filter);
    set_filter_size(prm.fsize);
    set_mu_dynamic(prm.muD);
    set_reg_min(prm.regmin);
    set_reg_max(prm.regmax);
    set_reg_incfactor(prm.incf);
    set_reg_decfactor(prm.decf);
    set_th_stepdec(prm.thdec);
    set_th_stepinc(prm.thinc);
    set_extra_iteration_for_last_kkt(prm.extra);
    if (!prm.alphas.empty()) set_alphas(prm.alphas);
    prm.alphas = get_alphas();
    setCallbacks(makeCallbacks());
  }
  void fillState(J& j) override {
    j.f("kkt", get_KKT()).f("cost", get_cost()).f("gap", get_gap_norm()).f("viol", 0.);
    j.f("merit", get_merit()).f("preg", get_preg()).f("dreg", get_dreg()).f("step", get_steplength());
    j.i("iter", (long long)get_iter()).i("qpit", 0).b("tmo", false);
    j.f("xg", get_xgrad_norm()).f("ug", get_ugrad_norm());
    j.t("lag", lag_mul_).raw("y", "[]");
  }
  bool doSolve(const SolveArgs& a) override {
    return mim_solvers::SolverSQP::solve(a.xs, a.us, (std::size_t)a.maxit, a.feas, a.reginit);
  }
  void computeDirection(const bool recalc) override {
    tick();
    J b;
    b.str("e", "dirb").b("recalc", recalc).f("preg", preg_).f("dreg", dreg_).t("xs", P->chart(xs_)).t("us", us_);
    b.f("clk", g_clock);
    if (full) b.raw("nd", safeNodes());
    tr->add(b);
    bool ok = true;
    try {
      mim_solvers::SolverSQP::computeDirection(recalc);
    } catch (std::exception&) {
      ok = false;
    }
    J j;
    j.str("e", "dire").b("ok", ok).t("dx", dx_).t("du", du_).t("lag", lag_mul_);
    j.f("cost", cost_).f("gap", gap_norm_).f("viol", 0.).f("clk", g_clock);
    j.i("it", 1).f("xg", get_xgrad_norm()).f("ug", get_ugrad_norm());
    tr->add(j);
    if (!ok) throw std::runtime_error("direction");
  }
  void checkKKTConditions() override {
    mim_solvers::SolverSQP::checkKKTConditions();
    J j;
    j.str("e", "kkt").t("xs", P->chart(xs_)).t("us", us_);
    fillState(j);
    tr->add(j);
  }
  double tryStep(const double a) override {
    tick();
    double m = NANV;
    bool ok = true;
    try {
      m = mim_solvers::SolverSQP::tryStep(a);
    } catch (std::exception&) {
      ok = false;
    }
    logTry(a, ok, m, cost_try_, gap_norm_try_, 0., xs_try_, us_try_);
    if (!ok) throw std::runtime_error("step");
    return m;
  }
};
}  // namespace vh
