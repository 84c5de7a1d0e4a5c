#pragma once
#include "probe.hpp"
namespace vh {

struct PCSQP : public mim_solvers::SolverCSQP, public IProbe {
  using mim_solvers::SolverCSQP::solve;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  PCSQP(Problem* p, Trace* t) : mim_solvers::SolverCSQP(p->sp) {
    P = p;
    tr = t;
    kind = "CSQP";
  }
  const Traj& X() const override { return xs_; }
  const Traj& U() const override { return us_; }
  void apply() override {
    set_termination_tolerance(prm.tol);
    set_use_filter_line_search(prm.filter);
    set_filter_size(prm.fsize);
    set_mu_dynamic(prm.muD);
    set_mu_constraint(prm.muC);
    set_lag_mul_inf_norm_coef(prm.lagc);
    set_reg_min(prm.regmin);
    set_reg_max(prm.regmax);
    set_reg_incfactor(prm.incf);
    set_reg_decfactor(prm.decf);
    set_th_stepdec(prm.thdec);
    set_th_stepinc(prm.thinc);
    set_extra_iteration_for_last_kkt(prm.extra);
    remove_reg_ = prm.rmreg;
    set_max_qp_iters(prm.maxqp);
    set_rho_update_interval((std::size_t)prm.rhoint);
    set_adaptive_rho_tolerance((std::size_t)prm.rhotol);
    set_alpha(prm.alpha);
    set_sigma(prm.sigma);
    set_eps_abs(prm.epsa);
    set_eps_rel(prm.epsr);
    reset_y_ = prm.resety;
    reset_rho_ = prm.resetrho;
    update_rho_with_heuristic_ = prm.heur;
    set_equality_qp_initial_guess(prm.eqinit);
    set_max_solve_time(prm.maxtime);
    set_rho_sparse(prm.rho0);
    if (!prm.alphas.empty()) set_alphas(prm.alphas);
    prm.alphas = get_alphas();
    setCallbacks(makeCallbacks());
  }
  void fillState(J& j) override {
    j.f("kkt", get_KKT()).f("cost", get_cost()).f("gap", get_gap_norm()).f("viol", get_constraint_norm());
    j.f("merit", get_merit()).f("preg", get_preg()).f("dreg", get_dreg()).f("step", get_steplength());
    j.i("iter", (long long)get_iter()).i("qpit", (long long)get_qp_iters()).b("tmo", get_max_solve_time_reached());
    j.f("xg", get_xgrad_norm()).f("ug", get_ugrad_norm());
    j.t("lag", lag_mul_).t("y", y_);
  }
  bool doSolve(const SolveArgs& a) override {
    return mim_solvers::SolverCSQP::solve(a.xs, a.us, (std::size_t)a.maxit, a.feas, a.reginit);
  }
  void fillQp(J& j, double clk) {
    j.i("it", (long long)qp_iters_).t("y", y_).t("z", z_).t("rho", rho_vec_).f("rhosp", get_rho_sparse());
    j.t("dx", dx_).t("du", du_);
    j.f("np", get_norm_primal()).f("nd_", get_norm_dual()).f("npt", get_norm_primal_tolerance()).f("ndt", get_norm_dual_tolerance());
    j.f("clk", clk).b("tmo", get_max_solve_time_reached());
  }
  J pend;
  bool havePend = false;
  void qpBegin(bool fullPass) {
    tick();
    const double before = g_clock;
    g_clock += qp_cost;
    if (!qpdetail) return;
    pend = J();
    pend.str("e", "qp").b("full", fullPass);
    fillQp(pend, before);
    havePend = true;
  }
  void backwardPass() override {
    qpBegin(true);
    mim_solvers::SolverCSQP::backwardPass();
  }
  void backwardPass_mt() override {
    qpBegin(true);
    mim_solvers::SolverCSQP::backwardPass_mt();
  }
  void backwardPass_without_rho_update() override {
    qpBegin(false);
    mim_solvers::SolverCSQP::backwardPass_without_rho_update();
  }
  void backwardPass_without_rho_update_mt() override {
    qpBegin(false);
    mim_solvers::SolverCSQP::backwardPass_without_rho_update_mt();
  }
  void forwardPass(const double s = 0.) override {
    mim_solvers::SolverCSQP::forwardPass(s);
    if (!qpdetail || !havePend) return;
    pend.t("dxt", dxtilde_).t("dut", dutilde_);
    tr->add(pend);
    havePend = false;
  }
  void forwardPass_without_constraints() override {
    mim_solvers::SolverCSQP::forwardPass_without_constraints();
    if (!qpdetail) return;
    J j;
    j.str("e", "eq").t("dx", dx_).t("du", du_);
    tr->add(j);
  }
  void computeDirection(const bool recalc) override {
    tick();
    J b;
    b.str("e", "dirb").b("recalc", recalc).f("preg", preg_).f("dreg", dreg_).t("xs", P->chart(xs_)).t("us", us_);
    b.f("clk", g_clock).t("y", y_).t("z", z_).t("dx", dx_).t("du", du_).t("rho", rho_vec_).f("rhosp", get_rho_sparse());
    if (full) b.raw("nd", safeNodes());
    tr->add(b);
    bool ok = true;
    try {
      mim_solvers::SolverCSQP::computeDirection(recalc);
    } catch (std::exception&) {
      ok = false;
    }
    if (!ok || (long long)qp_iters_ >= prm.maxqp) qpok = false;
    J j;
    j.str("e", "dire").b("ok", ok).t("dxt", dxtilde_).t("dut", dutilde_);
    j.f("cost", cost_).f("gap", gap_norm_).f("viol", constraint_norm_);
    fillQp(j, g_clock);
    j.f("xg", get_xgrad_norm()).f("ug", get_ugrad_norm());
    tr->add(j);
    if (!ok) throw std::runtime_error("direction");
  }
  void checkKKTConditions() override {
    mim_solvers::SolverCSQP::checkKKTConditions();
    J j;
    j.str("e", "kkt").t("xs", P->chart(xs_)).t("us", us_);
    fillState(j);
    tr->add(j);
  }
  double tryStep(const double a) override {
    tick();
    double m = NANV;
    bool ok = true;
    try {
      m = mim_solvers::SolverCSQP::tryStep(a);
    } catch (std::exception&) {
      ok = false;
    }
    logTry(a, ok, m, cost_try_, gap_norm_try_, constraint_norm_try_, xs_try_, us_try_);
    if (!ok) throw std::runtime_error("step");
    return m;
  }
};
}  // namespace vh
