// The parameter interface of the solvers under the names of spec/Params.tla.
#pragma once
#include "gen.hpp"

#include <map>
#include <sstream>

#include "mim_solvers/csqp_proxqp.hpp"
#include "mim_solvers/fddp.hpp"

using namespace vh;
using namespace mim_solvers;

namespace {
struct Value {
  std::string s;
  double f() const {
    uint64_t b = std::stoull(s, nullptr, 16);
    double d;
    std::memcpy(&d, &b, 8);
    return d;
  }
  long i() const { return std::stol(s); }
  bool b() const { return s == "T"; }
  std::vector<double> v() const {
    std::vector<double> r;
    std::stringstream ss(s);
    std::string w;
    while (std::getline(ss, w, ',')) if (!w.empty()) r.push_back(Value{w}.f());
    return r;
  }
  std::string json() const {
    if (s == "T") return "true";
    if (s == "F") return "false";
    if (s[0] == '[') {
      std::string r = "[";
      for (double d : Value{s.substr(1)}.v()) r += (r.size() > 1 ? "," : "") + J::num(d);
      return r + "]";
    }
    return s.size() == 16 ? "\"" + s + "\"" : s;
  }
};

struct Quiet : public CallbackAbstract {
  void operator()(crocoddyl::SolverAbstract&) override {}
  void operator()(crocoddyl::SolverAbstract&, std::string) override {}
};
std::vector<std::shared_ptr<CallbackAbstract>> cbs(int n) {
  std::vector<std::shared_ptr<CallbackAbstract>> r;
  for (int i = 0; i < n; ++i) r.push_back(std::make_shared<Quiet>());
  return r;
}
[[noreturn]] void unknown(const std::string& op) {
  std::fprintf(stderr, "unknown operation %s\n", op.c_str());
  std::exit(3);
}

// every class of solver: setters and getters as a user calls them
void base(SolverDDP& s, const std::string& op, const Value& v) {
  if (op == "inc") s.set_reg_incfactor(v.f());
  else if (op == "dec") s.set_reg_decfactor(v.f());
  else if (op == "regfactor") s.set_regfactor(v.f());
  else if (op == "regmin") s.set_reg_min(v.f());
  else if (op == "regmin2") s.set_regmin(v.f());
  else if (op == "regmax") s.set_reg_max(v.f());
  else if (op == "regmax2") s.set_regmax(v.f());
  else if (op == "alphas") s.set_alphas(Value{v.s.substr(1)}.v());
  else if (op == "thdec") s.set_th_stepdec(v.f());
  else if (op == "thinc") s.set_th_stepinc(v.f());
  else if (op == "thgrad") s.set_th_grad(v.f());
  else unknown(op);
}
void baseGet(SolverDDP& s, J& j) {
  j.f("inc", s.get_reg_incfactor()).f("dec", s.get_reg_decfactor());
  j.f("regmin", s.get_reg_min() == s.get_regmin() ? s.get_reg_min() : NANV);
  j.f("regmax", s.get_reg_max() == s.get_regmax() ? s.get_reg_max() : NANV);
  j.v("alphas", s.get_alphas()).f("thdec", s.get_th_stepdec()).f("thinc", s.get_th_stepinc()).f("thgrad", s.get_th_grad());
}
template <class S>
void common(S& s, const std::string& op, const Value& v) {
  if (op == "tol") s.set_termination_tolerance(v.f());
  else base(s, op, v);
}
void put(SolverDDP& s, const std::string& op, const Value& v) {
  if (op == "ncb") s.setCallbacks(cbs(v.i()));
  else common(s, op, v);
}
void put(SolverFDDP& s, const std::string& op, const Value& v) {
  if (op == "ncb") s.setCallbacks(cbs(v.i()));
  else if (op == "thneg") s.set_th_acceptnegstep(v.f());
  else if (op == "filter") s.set_use_filter_line_search(v.b());
  else if (op == "fsize") s.set_filter_size(v.i());
  else common(s, op, v);
}
void put(SolverSQP& s, const std::string& op, const Value& v) {
  if (op == "ncb") s.setCallbacks(cbs(v.i()));
  else if (op == "filter") s.set_use_filter_line_search(v.b());
  else if (op == "fsize") s.set_filter_size(v.i());
  else if (op == "muD") s.set_mu_dynamic(v.f());
  else if (op == "extra") s.set_extra_iteration_for_last_kkt(v.b());
  else common(s, op, v);
}
void put(SolverCSQP& s, const std::string& op, const Value& v) {
  if (op == "ncb") s.setCallbacks(cbs(v.i()));
  else if (op == "filter") s.set_use_filter_line_search(v.b());
  else if (op == "fsize") s.set_filter_size(v.i());
  else if (op == "muD") s.set_mu_dynamic(v.f());
  else if (op == "muC") s.set_mu_constraint(v.f());
  else if (op == "lagc") s.set_lag_mul_inf_norm_coef(v.f());
  else if (op == "extra") s.set_extra_iteration_for_last_kkt(v.b());
  else if (op == "maxqp") s.set_max_qp_iters(v.i());
  else if (op == "epsa") s.set_eps_abs(v.f());
  else if (op == "epsr") s.set_eps_rel(v.f());
  else if (op == "rhoint") s.set_rho_update_interval(v.i());
  else if (op == "rhotol") s.set_adaptive_rho_tolerance(v.i());
  else if (op == "alpha") s.set_alpha(v.f());
  else if (op == "sigma") s.set_sigma(v.f());
  else if (op == "eqinit") s.set_equality_qp_initial_guess(v.b());
  else if (op == "rho") s.set_rho_sparse(v.f());
  else if (op == "maxtime") s.set_max_solve_time(v.f());
  else if (op == "resety") s.reset_y_ = v.b();
  else if (op == "resetrho") s.reset_rho_ = v.b();
  else if (op == "heur") s.update_rho_with_heuristic_ = v.b();
  else if (op == "rmreg") s.remove_reg_ = v.b();
  else if (op == "qpcb") s.setQPCallbacks(v.b());
  else common(s, op, v);
}
void put(SolverPROXQP& s, const std::string& op, const Value& v) {
  if (op == "ncb") s.SolverDDP::setCallbacks(cbs(v.i()));
  else if (op == "oldcb") s.setCallbacks(v.b());
  else if (op == "filter") s.set_use_filter_line_search(v.b());
  else if (op == "fsize") s.set_filter_size(v.i());
  else if (op == "muD") s.set_mu_dynamic(v.f());
  else if (op == "muC") s.set_mu_constraint(v.f());
  else if (op == "maxqp") s.set_max_qp_iters(v.i());
  else if (op == "epsa") s.set_eps_abs(v.f());
  else if (op == "epsr") s.set_eps_rel(v.f());
  else common(s, op, v);
}
void get(SolverDDP& s, J& j) {
  baseGet(s, j);
  j.f("tol", s.get_termination_tolerance()).i("ncb", s.getCallbacks().size());
}
void get(SolverFDDP& s, J& j) {
  baseGet(s, j);
  j.f("tol", s.get_termination_tolerance()).i("ncb", s.getCallbacks().size());
  j.f("thneg", s.get_th_acceptnegstep()).b("filter", s.get_use_filter_line_search()).i("fsize", s.get_filter_size());
}
void get(SolverSQP& s, J& j) {
  baseGet(s, j);
  j.f("tol", s.get_termination_tolerance()).i("ncb", s.getCallbacks().size());
  j.b("filter", s.get_use_filter_line_search()).i("fsize", s.get_filter_size()).f("muD", s.get_mu_dynamic());
  j.b("extra", s.get_extra_iteration_for_last_kkt());
}
void get(SolverCSQP& s, J& j) {
  baseGet(s, j);
  j.f("tol", s.get_termination_tolerance()).i("ncb", s.getCallbacks().size());
  j.b("filter", s.get_use_filter_line_search()).i("fsize", s.get_filter_size()).f("muD", s.get_mu_dynamic()).f("muC", s.get_mu_constraint());
  j.f("lagc", s.get_lag_mul_inf_norm_coef()).b("extra", s.get_extra_iteration_for_last_kkt()).i("maxqp", s.get_max_qp_iters());
  j.f("epsa", s.get_eps_abs()).f("epsr", s.get_eps_rel()).i("rhoint", s.get_rho_update_interval());
  j.i("rhotol", s.get_adaptive_rho_tolerance()).f("alpha", s.get_alpha()).f("sigma", s.get_sigma());
  j.b("eqinit", s.get_equality_qp_initial_guess()).f("rho", s.get_rho_sparse()).f("maxtime", s.get_max_solve_time());
  j.b("resety", s.get_reset_y()).b("resetrho", s.get_reset_rho()).b("heur", s.update_rho_with_heuristic_).b("rmreg", s.remove_reg_);
  j.b("qpcb", s.getQPCallbacks());
}
void get(SolverPROXQP& s, J& j) {
  baseGet(s, j);
  j.f("tol", s.get_termination_tolerance()).i("ncb", s.SolverDDP::getCallbacks().size()).b("oldcb", s.getCallbacks());
  j.b("filter", s.get_use_filter_line_search()).i("fsize", s.get_filter_size()).f("muD", s.get_mu_dynamic()).f("muC", s.get_mu_constraint());
  j.i("maxqp", s.get_max_qp_iters()).f("epsa", s.get_eps_abs()).f("epsr", s.get_eps_rel());
}

template <class S>
std::string state(S& s) {
  J j;
  get(s, j);
  return j.done();
}
}  // namespace
