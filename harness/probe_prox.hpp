#pragma once
#include "probe.hpp"
#include "mim_solvers/csqp_proxqp.hpp"
namespace vh {

struct PPROX : public mim_solvers::SolverPROXQP, public IProbe {
  using mim_solvers::SolverPROXQP::solve;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  PPROX(Problem* p, Trace* t) : mim_solvers::SolverPROXQP(p->sp) {
    P = p;
    tr = t;
    kind = "PROXQP";
  }
  const Traj& X() const override { return mim_solvers::SolverPROXQP::get_xs(); }
  const Traj& U() const override { return mim_solvers::SolverPROXQP::get_us(); }
  void apply() override {
    prm.rmreg = false;
    prm.extra = false;
    prm.maxtime = INF;
    prm.ncb = 0;
    set_termination_tolerance(prm.tol);
    set_use_filter_line_search(prm.filter);
    set_filter_size(prm.fsize);
    set_mu_dynamic(prm.muD);
    set_mu_constraint(prm.muC);
    set_reg_min(prm.regmin);
    set_reg_max(prm.regmax);
    set_reg_incfactor(prm.incf);
    set_reg_decfactor(prm.decf);
    set_th_stepdec(prm.thdec);
    set_th_stepinc(prm.thinc);
    set_max_qp_iters(prm.proxqp);
    set_eps_abs(1e-9);
    set_eps_rel(0.);
    if (!prm.alphas.empty()) set_alphas(prm.alphas);
    prm.alphas = get_alphas();
  }
  void fillState(J& j) override {
    j.f("kkt", get_KKT()).f("cost", mim_solvers::SolverPROXQP::get_cost()).f("gap", get_gap_norm()).f("viol", get_constraint_norm());
    j.f("merit", get_merit()).f("preg", get_preg()).f("dreg", get_dreg()).f("step", get_steplength());
    j.i("iter", (long long)get_iter()).i("qpit", (long long)get_qp_iters()).b("tmo", false);
    j.f("xg", get_xgrad_norm()).f("ug", get_ugrad_norm());
    Traj l = get_lag_mul();
    l[0] = Vec::Zero(P->nx);  // the initial state is fixed: no multiplier
    j.t("lag", l).t("y", get_y());
    j.f("acost", static_cast<crocoddyl::SolverAbstract&>(*this).get_cost());
  }
  bool doSolve(const SolveArgs& a) override {
    return mim_solvers::SolverPROXQP::solve(a.xs, a.us, (std::size_t)a.maxit, a.feas, a.reginit);
  }
  void forget() override {
    for (auto& v : lag_mul_) v.setZero();
    for (auto& v : y_) v.setZero();
  }
  J kktEv;
  bool haveKkt = false;
  void checkKKTConditions() override {
    mim_solvers::SolverPROXQP::checkKKTConditions();
    kktEv = J();
    kktEv.str("e", "kkt").t("xs", P->chart(xs_)).t("us", us_);
    fillState(kktEv);
    haveKkt = true;
  }
  void computeDirection(const bool recalc) override {
    tick();
    J b;
    b.str("e", "dirb").b("recalc", recalc).f("preg", preg_).f("dreg", dreg_).t("xs", P->chart(xs_)).t("us", us_);
    b.f("clk", g_clock);
    if (full) b.raw("nd", safeNodes());
    tr->add(b);
    haveKkt = false;
    bool ok = true;
    try {
      mim_solvers::SolverPROXQP::computeDirection(recalc);
    } catch (std::exception&) {
      ok = false;
    }
    if (!ok || (get_norm_primal() == 0. && get_norm_dual() == 0.) || (long long)get_qp_iters() >= prm.proxqp) qpok = false;
    if (ok && exactDirection) {
      const EvalD d = evalDiff(P->nodes[0], P->state->chart(xs_[0]), us_[0], false);
      dx_[0].setZero();
      dx_[1] = eval(P->nodes[0], P->state->chart(xs_[0]), us_[0], false).xnext - P->state->chart(xs_[1]);
      du_[0] = -d.Lu / (d.Luu(0, 0) + preg_);
      for (auto& v : lag_mul_) v.setZero();
      for (auto& v : y_) v.setZero();
    }
    J j;
    Traj dx = get_dx();
    dx[0] = Vec::Zero(P->nx);
    j.str("e", "dire").b("ok", ok).t("dx", dx).t("du", get_du()).t("y", get_y());
    Traj l = get_lag_mul();
    l[0] = Vec::Zero(P->nx);
    j.t("lag", l).f("cost", mim_solvers::SolverPROXQP::get_cost()).f("gap", get_gap_norm()).f("viol", get_constraint_norm()).f("clk", g_clock);
    j.f("np", get_norm_primal()).f("nd_", get_norm_dual()).i("it", (long long)get_qp_iters());
    j.f("xg", get_xgrad_norm()).f("ug", get_ugrad_norm());
    tr->add(j);
    if (!ok) throw std::runtime_error("direction");
    if (haveKkt) tr->add(kktEv);
  }
  double tryStep(const double a) override {
    tick();
    double m = NANV;
    bool ok = true;
    try {
      m = mim_solvers::SolverPROXQP::tryStep(a);
    } catch (std::exception&) {
      ok = false;
    }
    logTry(a, ok, m, cost_try_, gap_norm_try_, constraint_norm_try_, xs_try_, us_try_);
    if (!ok) throw std::runtime_error("step");
    return m;
  }
};
}  // namespace vh
