// Subclasses of the solvers under test that record what the real code does.
#pragma once
#include "trace.hpp"

#include <crocoddyl/core/utils/stop-watch.hpp>

#include "mim_solvers/csqp.hpp"
#include "mim_solvers/sqp.hpp"
#include "mim_solvers/utils/callbacks.hpp"

namespace vh {

struct Params {
  double tol = 1e-6;
  bool filter = true;
  int fsize = 1;
  double muD = 1., muC = 1., lagc = 10.;
  double regmin = 1e-9, regmax = 1e9, incf = 10., decf = 10., thdec = 0.5, thinc = 0.01;
  bool extra = false, rmreg = false;
  std::vector<double> alphas;  // empty: keep the default list
  int proxqp = 1000;  // QP budget of PROXQP
  int maxqp = 1000, rhoint = 25, rhotol = 5;
  double alpha = 1.6, sigma = 1e-6, epsa = 1e-4, epsr = 1e-4;
  double rho0 = 0.1, rhomin = 1e-6, rhomax = 1e3;
  bool resety = false, resetrho = false, eqinit = true, heur = false;
  double thgrad = 1e-12, thacc = 0.1, thneg = 2., thstop = 1e-9;  // DDP, FDDP, KKT
  double maxtime = INF;
  int ncb = 1;
  std::string json() const {
    J j;
    j.f("tol", tol).b("filter", filter).i("fsize", fsize).f("muD", muD).f("muC", muC).f("lagc", lagc);
    j.f("regmin", regmin).f("regmax", regmax).f("incf", incf).f("decf", decf).f("thdec", thdec).f("thinc", thinc);
    j.b("extra", extra).b("rmreg", rmreg).v("alphas", alphas);
    j.i("proxqp", proxqp).i("maxqp", maxqp).i("rhoint", rhoint).i("rhotol", rhotol).f("alpha", alpha).f("sigma", sigma);
    j.f("epsa", epsa).f("epsr", epsr).f("rho0", rho0).f("rhomin", rhomin).f("rhomax", rhomax);
    j.b("resety", resety).b("resetrho", resetrho).b("eqinit", eqinit).b("heur", heur);
    j.f("thgrad", thgrad).f("thacc", thacc).f("thneg", thneg).f("thstop", thstop);
    j.f("maxtime", maxtime).i("ncb", ncb);
    return j.done();
  }
};

// A callback that records what a user would see.
struct Rec : public mim_solvers::CallbackAbstract {
  std::function<void(int, const std::string&, crocoddyl::SolverAbstract&)> fn;
  int id;
  explicit Rec(int i) : id(i) {}
  void operator()(crocoddyl::SolverAbstract& s) override { fn(id, "", s); }
  void operator()(crocoddyl::SolverAbstract& s, std::string t) override { fn(id, t, s); }
};

struct Hang {};  // not a std::exception: escapes every handler of the solver

struct SolveArgs {
  Traj xs, us;
  int maxit = 10;
  bool feas = false;
  double reginit = NANV;
};

// What every probe offers to the scenarios.
struct IProbe {
  Problem* P = nullptr;
  Trace* tr = nullptr;
  Params prm;
  bool full = true;   // log matrices (direction-level detail)
  bool qpdetail = true;
  bool scripted = false;
  bool exactDirection = false;  // replace the inexact QP solution of PROXQP (scripts)
  double qp_cost = 0;  // virtual seconds per QP iteration
  virtual ~IProbe() {}
  virtual void apply() = 0;
  virtual bool doSolve(const SolveArgs&) = 0;
  virtual const Traj& X() const = 0;
  virtual const Traj& U() const = 0;
  virtual void fillState(J&) = 0;  // every public observable, for "end"/"cb"
  virtual void afterCb() {}
  virtual void forget() {}  // multipliers kept from an earlier solve are part of the initial guess
  bool qpok = true;  // every subproblem of the solve was solved to its own tolerance
  int steps = 0, maxsteps = 10000;  // guard against unbounded loops
  void tick() {
    if (++steps > maxsteps) {
      J j;
      j.str("e", "hang").i("steps", steps);
      tr->add(j);
      throw Hang();
    }
  }
  std::string kind;

  void begin(const SolveArgs& a) {
    J j;
    j.str("e", "begin").v("x0", P->state->chart(P->sp->get_x0())).t("ixs", P->chart(P->embed(a.xs))).t("ius", a.us).i("maxit", a.maxit);
    j.f("reginit", a.reginit).b("feas", a.feas).raw("cfg", prm.json());
    j.t("xs0", P->chart(X())).t("us0", U()).f("clk", g_clock);
    fillState(j);
    tr->add(j);
  }
  // Run one solve and record it.  Returns 0/1, or 2 if solve() threw.
  int solve(const SolveArgs& a) {
    begin(a);
    steps = 0;
    qpok = true;
    int ret = 2;
    std::string what;
    try {
      SolveArgs b = a;
      b.xs = P->embed(a.xs);
      ret = doSolve(b) ? 1 : 0;
    } catch (std::exception& e) {
      what = "exception";
    } catch (Hang&) {
      return 3;
    }
    J j;
    j.str("e", "end").i("ret", ret).t("xs", P->chart(X())).t("us", U()).f("clk", g_clock);
    fillState(j);
    if (full) j.raw("nd", safeNodes());
    tr->add(j);
    return ret;
  }
  std::string safeNodes() {
    const Traj x = P->chart(X()), &u = U();
    if ((int)x.size() != P->T + 1 || (int)u.size() != P->T) return "[]";
    for (int t = 0; t <= P->T; ++t)
      if (x[t].size() != P->nx) return "[]";
    for (int t = 0; t < P->T; ++t)
      if (u[t].size() != P->nodes[t].nu) return "[]";
    return truthNodes(*P, x, u);
  }
  void logTry(double a, bool ok, double m, double cost, double gap, double viol, const Traj& xr, const Traj& u) {
    const Traj x = P->chart(xr);
    const Truth t = truth(*P, x, u);
    J j;
    j.str("e", "try").f("a", a).b("ok", ok).f("m", m).f("cost", cost).f("gap", gap).f("viol", viol);
    j.t("xs", x).t("us", u).b("tthr", t.threw).f("tc", t.cost).f("tg", t.gap).f("tv", t.viol).f("clk", g_clock);
    tr->add(j);
  }
  std::vector<std::shared_ptr<mim_solvers::CallbackAbstract>> makeCallbacks() {
    std::vector<std::shared_ptr<mim_solvers::CallbackAbstract>> v;
    for (int i = 0; i < prm.ncb; ++i) {
      auto r = std::make_shared<Rec>(i);
      r->fn = [this](int id, const std::string& t, crocoddyl::SolverAbstract& s) {
        J j;
        j.str("e", "cb").i("id", id).str("type", t).t("xs", P->chart(s.get_xs())).t("us", s.get_us());
        j.f("acost", s.get_cost()).i("aiter", (long long)s.get_iter()).f("astep", s.get_steplength());
        fillState(j);
        tr->add(j);
        afterCb();
      };
      v.push_back(r);
    }
    return v;
  }
};

}  // namespace vh
