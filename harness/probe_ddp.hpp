#pragma once
#include "probe.hpp"
#include "mim_solvers/ddp.hpp"
#include "mim_solvers/fddp.hpp"
namespace vh {

// SolverDDP and SolverFDDP share their structure: one probe for both.
template <class Base>
struct PDDP : public Base, public IProbe {
  using Base::solve;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  static constexpr bool F = std::is_same<Base, mim_solvers::SolverFDDP>::value;
  double expD0 = NANV, expD1 = NANV;
  PDDP(Problem* p, Trace* t) : Base(p->sp) {
    P = p;
    tr = t;
    kind = F ? "FDDP" : "DDP";
  }
  const Traj& X() const override { return this->xs_; }
  const Traj& U() const override { return this->us_; }
  void apply() override {
    prm.rmreg = prm.extra = false;
    prm.maxtime = INF;
    if (!F) prm.filter = false;
    this->set_termination_tolerance(prm.tol);
    this->set_reg_min(prm.regmin);
    this->set_reg_max(prm.regmax);
    this->set_reg_incfactor(prm.incf);
    this->set_reg_decfactor(prm.decf);
    this->set_th_stepdec(prm.thdec);
    this->set_th_stepinc(prm.thinc);
    this->set_th_grad(prm.thgrad);
    this->set_th_acceptstep(prm.thacc);
    fddp(static_cast<Base&>(*this));
    if (!prm.alphas.empty()) this->set_alphas(prm.alphas);
    prm.alphas = this->get_alphas();
    this->setCallbacks(makeCallbacks());
  }
  void fddp(mim_solvers::SolverFDDP& s) {
    s.set_use_filter_line_search(prm.filter);
    s.set_filter_size(prm.fsize);
    s.set_th_acceptnegstep(prm.thneg);
  }
  void fddp(mim_solvers::SolverDDP&) {}
  static double gapOf(const mim_solvers::SolverFDDP& s) { return s.get_gap_norm(); }
  static double gapOf(const mim_solvers::SolverDDP&) { return 0.; }
  void fillState(J& j) override {
    j.f("kkt", this->get_KKT()).f("cost", this->cost_).f("gap", gapOf(static_cast<Base&>(*this))).f("viol", 0.);
    j.f("preg", this->preg_).f("dreg", this->dreg_).f("step", this->steplength_);
    j.i("iter", (long long)this->get_iter()).b("tmo", false).b("isf", this->is_feasible_);
    j.t("lag", this->lag_mul_).raw("y", "[]").f("stop", this->stop_);
  }
  bool doSolve(const SolveArgs& a) override { return Base::solve(a.xs, a.us, (std::size_t)a.maxit, a.feas, a.reginit); }
  void forget() override {
    for (auto& v : this->lag_mul_) v.setZero();
  }
  template <class T>
  static std::string mats(const T& v) {
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + J::mat(v[i]);
    return r + "]";
  }
  void computeDirection(const bool recalc) override {
    tick();
    J b;
    b.str("e", "dirb").b("recalc", recalc).f("preg", this->preg_).f("dreg", this->dreg_).t("xs", P->chart(this->xs_)).t("us", this->us_);
    b.b("isf", this->is_feasible_);
    if (full) b.raw("nd", safeNodes());
    tr->add(b);
    bool ok = true;
    try {
      Base::computeDirection(recalc);
    } catch (std::exception&) {
      ok = false;
    }
    J j;
    j.str("e", "dire").b("ok", ok).t("k", this->k_).t("vx", this->Vx_).raw("K", mats(this->K_)).raw("vxx", mats(this->Vxx_));
    j.t("fs", this->fs_).f("cost", this->cost_).f("gap", gapOf(static_cast<Base&>(*this))).f("viol", 0.);
    tr->add(j);
    if (!ok) throw std::runtime_error("direction");
  }
  const Eigen::Vector2d& expectedImprovement() override {
    const Eigen::Vector2d& d = Base::expectedImprovement();
    J j;
    j.str("e", "exp").f("d0", d[0]).f("d1", d[1]);
    tr->add(j);
    return d;
  }
  void checkKKTConditions() override {
    Base::checkKKTConditions();
    J j;
    j.str("e", "kkt").t("xs", P->chart(this->xs_)).t("us", this->us_);
    fillState(j);
    tr->add(j);
  }
  static double gapTry(const mim_solvers::SolverFDDP& s) { return s.gap_norm_try_; }
  static double gapTry(const mim_solvers::SolverDDP&) { return 0.; }
  double tryStep(const double a) override {
    tick();
    double m = NANV;
    bool ok = true;
    try {
      m = Base::tryStep(a);
    } catch (std::exception&) {
      ok = false;
    }
    const Traj x = P->chart(this->xs_try_), &u = this->us_try_;
    const Truth t = truth(*P, x, u);
    J j;
    j.str("e", "try").f("a", a).b("ok", ok).f("m", m).f("cost", this->cost_try_).f("gap", gapTry(static_cast<Base&>(*this))).f("viol", 0.);
    j.t("xs", x).t("us", u).b("tthr", t.threw).f("tc", t.cost).f("tg", t.gap).f("tv", 0.).f("clk", g_clock);
    std::string nx = "[";  // where the dynamics lead from each stage of the trial
    for (int s = 0; s < P->T; ++s) {
      Vec v = Vec::Constant(P->nx, NANV);
      try {
        v = eval(P->nodes[s], x[s], u[s], false).xnext;
      } catch (std::exception&) {
      }
      nx += (s ? "," : "") + J::vec(v);
    }
    j.raw("nxt", nx + "]");
    tr->add(j);
    if (!ok) throw std::runtime_error("step");
    return m;
  }
};
}  // namespace vh
