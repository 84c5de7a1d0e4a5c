#pragma once
#include "probe.hpp"
#include "mim_solvers/kkt.hpp"
namespace vh {

// adapts our recorder to crocoddyl's callback interface
struct KktCb : public crocoddyl::CallbackAbstract {
  std::shared_ptr<mim_solvers::CallbackAbstract> c;
  explicit KktCb(std::shared_ptr<mim_solvers::CallbackAbstract> x) : c(x) {}
  void operator()(crocoddyl::SolverAbstract& s) override { (*c)(s); }
};

struct PKKT : public mim_solvers::SolverKKT, public IProbe {
  using Base = mim_solvers::SolverKKT;
  using Base::solve;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  PKKT(Problem* p, Trace* t) : Base(p->sp) {
    P = p;
    tr = t;
    kind = "KKT";
  }
  const Traj& X() const override { return xs_; }
  const Traj& U() const override { return us_; }
  void apply() override {
    set_termination_tolerance(prm.tol);
    set_th_acceptstep(prm.thacc);
    set_th_stop(prm.thstop);
    prm.thgrad = 1e-12;
    prm.alphas.clear();
    for (int i = 0; i < 10; ++i) prm.alphas.push_back(std::pow(2., -i));
    std::vector<std::shared_ptr<crocoddyl::CallbackAbstract>> v;
    for (auto& c : makeCallbacks()) v.push_back(std::make_shared<KktCb>(c));
    setCallbacks(v);
  }
  void fillState(J& j) override {
    j.f("kkt", get_KKT()).f("cost", cost_).f("step", steplength_).f("stop", stop_).i("iter", (long long)get_iter());
    j.b("isf", is_feasible_).b("tmo", false).t("lag", get_lambdas()).raw("y", "[]");
  }
  bool doSolve(const SolveArgs& a) override { return Base::solve(a.xs, a.us, (std::size_t)a.maxit, a.feas, a.reginit); }
  void computeDirection(const bool recalc) override {
    tick();
    J b;
    b.str("e", "dirb").b("recalc", recalc).t("xs", P->chart(xs_)).t("us", us_).b("isf", is_feasible_);
    if (full) b.raw("nd", safeNodes());
    tr->add(b);
    bool ok = true;
    try {
      Base::computeDirection(recalc);
    } catch (std::exception&) {
      ok = false;
    }
    J j;
    j.str("e", "dire").b("ok", ok).t("dx", get_dxs()).t("du", get_dus()).t("lag", get_lambdas()).f("kkt", get_KKT()).f("cost", cost_);
    tr->add(j);
    if (!ok) throw std::runtime_error("direction");
  }
  const Eigen::Vector2d& expectedImprovement() override {
    const Eigen::Vector2d& d = Base::expectedImprovement();
    J j;
    j.str("e", "exp").f("d0", d[0]).f("d1", d[1]);
    tr->add(j);
    return d;
  }
  double stoppingCriteria() override {
    const double v = Base::stoppingCriteria();
    J j;
    j.str("e", "stop").f("v", v).t("xs", P->chart(xs_)).t("us", us_);
    tr->add(j);
    return v;
  }
  double tryStep(const double a) override {
    tick();
    double m = NANV;
    bool ok = true;
    try {
      m = Base::tryStep(a);
    } catch (std::exception&) {
      ok = false;
    }
    logTry(a, ok, m, cost_try_, 0., 0., xs_try_, us_try_);
    if (!ok) throw std::runtime_error("step");
    return m;
  }
};
}  // namespace vh
