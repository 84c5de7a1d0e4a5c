// Test problems, written against the public crocoddyl/mim_solvers API only.
//
// A node of a problem is a pure function of (x, u).  `eval`/`evalDiff` below
// are used twice: by TModel (what the solver under test sees through its own
// ActionData) and, with fresh storage, to record the ground truth in a trace.
#pragma once
#include <Eigen/Core>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <limits>
#include <memory>
#include <random>
#include <stdexcept>
#include <string>
#include <vector>

#include <crocoddyl/core/action-base.hpp>
#include <crocoddyl/core/optctrl/shooting.hpp>
#include <crocoddyl/core/state-base.hpp>

namespace vh {

using Vec = Eigen::VectorXd;
using Mat = Eigen::MatrixXd;
using Traj = std::vector<Vec>;
const double INF = std::numeric_limits<double>::infinity();
const double NANV = std::numeric_limits<double>::quiet_NaN();

// ------------------------------------------------------------------ random
struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s * 0x9E3779B97F4A7C15ull + 12345) {
    for (int i = 0; i < 4; ++i) g();
  }
  uint64_t u64() { return g(); }
  int in(int lo, int hi) { return lo + static_cast<int>(g() % (uint64_t)(hi - lo + 1)); }
  double unit() { return (double)(g() >> 11) * 0x1.0p-53; }
  double sym(double a = 1.) { return a * (2. * unit() - 1.); }
  bool p(double q) { return unit() < q; }
  template <class T>
  T pick(std::initializer_list<T> l) {
    auto it = l.begin();
    std::advance(it, in(0, (int)l.size() - 1));
    return *it;
  }
  Vec vec(int n, double a = 1.) {
    Vec v(n);
    for (int i = 0; i < n; ++i) v[i] = sym(a);
    return v;
  }
  Mat mat(int r, int c, double a = 1.) {
    Mat m(r, c);
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j) m(i, j) = sym(a);
    return m;
  }
};

// ------------------------------------------------------------------- state
// R^n in which some coordinates are angles: either wrapped to (-pi, pi], or
// represented by (cos, sin), so that a point has more numbers than its tangent.
// chart() maps a point to one number per tangent direction; everything else in
// this file (and everything written to a trace) uses chart coordinates.
class VState : public crocoddyl::StateAbstract {
 public:
  std::vector<int> ang;  // 0: real, 1: wrapped angle, 2: (cos, sin)
  static std::size_t rep(const std::vector<int>& a) {
    std::size_t n = a.size();
    for (int k : a) n += k == 2;
    return n;
  }
  VState(const std::vector<int>& a) : crocoddyl::StateAbstract(rep(a), a.size()), ang(a) {}
  static double wrap(double v) {
    const double two = 6.283185307179586, pi = 3.141592653589793;
    return v - two * std::floor((v + pi) / two);
  }
  Vec chart(const Vec& x) const {
    if (nx_ == ndx_) return x;
    if (x.size() != (int)nx_) return x;
    Vec r(ndx_);
    for (std::size_t i = 0, k = 0; i < ndx_; ++i) {
      if (ang[i] == 2) {
        const double n = std::hypot(x[k], x[k + 1]);
        r[i] = std::fabs(n - 1.) < 1e-9 ? std::atan2(x[k + 1], x[k]) : NANV;  // not a point
        k += 2;
      } else
        r[i] = x[k++];
    }
    return r;
  }
  Vec embed(const Vec& r) const {
    if (nx_ == ndx_) return r;
    Vec x(nx_);
    for (std::size_t i = 0, k = 0; i < ndx_; ++i) {
      if (ang[i] == 2) {
        x[k++] = std::cos(r[i]);
        x[k++] = std::sin(r[i]);
      } else
        x[k++] = r[i];
    }
    return x;
  }
  Vec zero() const override { return embed(Vec::Zero(ndx_)); }
  Vec rand() const override { return embed(Vec::Random(ndx_)); }
  void diff(const Eigen::Ref<const Vec>& x0, const Eigen::Ref<const Vec>& x1,
            Eigen::Ref<Vec> out) const override {
    const Vec a = chart(x0), b = chart(x1);
    for (std::size_t i = 0; i < ndx_; ++i) {
      out[i] = b[i] - a[i];
      if (ang[i]) out[i] = wrap(out[i]);
    }
  }
  void integrate(const Eigen::Ref<const Vec>& x, const Eigen::Ref<const Vec>& dx,
                 Eigen::Ref<Vec> out) const override {
    Vec a = chart(x);
    for (std::size_t i = 0; i < ndx_; ++i) {
      a[i] = a[i] + dx[i];
      if (ang[i]) a[i] = wrap(a[i]);
    }
    out = embed(a);
  }
  void Jdiff(const Eigen::Ref<const Vec>&, const Eigen::Ref<const Vec>&,
             Eigen::Ref<Mat> a, Eigen::Ref<Mat> b,
             const crocoddyl::Jcomponent c = crocoddyl::both) const override {
    if (c == crocoddyl::first || c == crocoddyl::both)
      a = -Mat::Identity(ndx_, ndx_);
    if (c == crocoddyl::second || c == crocoddyl::both)
      b = Mat::Identity(ndx_, ndx_);
  }
  void Jintegrate(const Eigen::Ref<const Vec>&, const Eigen::Ref<const Vec>&,
                  Eigen::Ref<Mat> a, Eigen::Ref<Mat> b,
                  const crocoddyl::Jcomponent c = crocoddyl::both,
                  const crocoddyl::AssignmentOp = crocoddyl::setto) const override {
    if (c == crocoddyl::first || c == crocoddyl::both) a = Mat::Identity(ndx_, ndx_);
    if (c == crocoddyl::second || c == crocoddyl::both) b = Mat::Identity(ndx_, ndx_);
  }
  void JintegrateTransport(const Eigen::Ref<const Vec>&, const Eigen::Ref<const Vec>&,
                           Eigen::Ref<Mat>, const crocoddyl::Jcomponent) const override {}
};

// ------------------------------------------------------------------ script
// A one-step problem that reports prescribed values at the points it meets,
// in the order in which it meets them (see spec/Scripts.tla).  Still a pure
// function of (x, u): the value of a point is remembered.
struct ScriptPoint {
  double c = 0, g = 0, v = 0, lu = 0, luu = 1, x1 = 0;
  std::string bad = "ok";
};
struct Script {
  std::vector<ScriptPoint> pts;
  std::vector<Vec> seen;    // (x0, u) of the points met so far
  bool exhausted = false;   // the solver went further than the behaviour
  int find(const Vec& x, const Vec& u) {
    Vec k(2);
    k << x[0], u[0];
    for (std::size_t i = 0; i < seen.size(); ++i)
      if (seen[i] == k) return (int)i;
    seen.push_back(k);
    if (seen.size() > pts.size()) {
      exhausted = true;
      pts.push_back(ScriptPoint());
    }
    return (int)seen.size() - 1;
  }
};

// -------------------------------------------------------------------- node
struct Node {
  int nx = 1, nu = 1, ng = 0;
  Mat A, B, Q, R, S, Gx, Gu;
  Vec c, q, r, h, lb, ub;
  double c0 = 0;
  double eps = 0;    // dynamics nonlinearity
  double epsc = 0;   // cost nonlinearity
  double epsg = 0;   // constraint nonlinearity
  bool cstForm = true;
  // hash bumps: pure but rough functions of (x, u)
  double bc = 0, bx = 0, bg = 0;
  uint64_t salt = 0;
  // faults, each triggered by a pure predicate of (x, u)
  double pNanC = 0, pInfC = 0, pBigC = 0, pNanX = 0, pInfX = 0, pNanG = 0, pThrow = 0;
  double regionThr = INF;  // |u[0]| (or |x[0]| when nu=0) above it: cost NaN
  double regionX = INF;    // same, next state NaN
  double regionG = INF;    // same, constraint NaN
  double regionThrow = INF;
  bool convex = true;  // stage Hessians positive definite by construction
  std::shared_ptr<Script> scr;
  bool gaussNewton = false;  // leave out second derivatives of the nonlinearity
};

struct Eval {
  double cost = 0;
  Vec xnext, g;
};
struct EvalD {
  Vec Lx, Lu;
  Mat Lxx, Lxu, Luu, Fx, Fu, Gx, Gu;
};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
inline uint64_t hashPoint(uint64_t salt, const Vec& x, const Vec& u) {
  uint64_t h = salt + 77;
  auto add = [&](const Vec& v) {
    for (int i = 0; i < v.size(); ++i) {
      double d = v[i] == 0 ? 0. : v[i];
      uint64_t b;
      std::memcpy(&b, &d, 8);
      h = mix(h, b);
    }
  };
  add(x);
  add(u);
  return h;
}
inline double hunit(uint64_t h, int k) {
  return (double)(mix(h, 1000 + k) >> 11) * 0x1.0p-53;
}

inline Eval evalScript(const Node& n, const Vec& x, const Vec& u, bool terminal) {
  Eval e;
  e.xnext = Vec::Zero(1);
  e.g = Vec::Zero(n.ng);
  if (terminal) {
    for (auto& p : n.scr->pts)
      if (p.bad == "throwT" && p.x1 == x[0]) throw std::runtime_error("model: injected failure");
    return e;
  }
  const int k = n.scr->find(x, u);
  const ScriptPoint& p = n.scr->pts[k];
  if (p.bad == "throw0") throw std::runtime_error("model: injected failure");
  e.cost = p.c;
  e.xnext[0] = p.x1 + p.g;
  if (n.ng > 0) e.g[0] = p.v;
  if (p.bad == "nanc") e.cost = NANV;
  if (p.bad == "infc") e.cost = INF;
  if (p.bad == "ninfc") e.cost = -INF;
  if (p.bad == "nanx") e.xnext[0] = NANV;
  if (p.bad == "infx") e.xnext[0] = INF;
  if (n.ng > 0 && p.bad == "nang") e.g[0] = NANV;
  if (n.ng > 0 && p.bad == "infg") e.g[0] = INF;
  return e;
}
inline Eval eval(const Node& n, const Vec& x, const Vec& u, bool terminal) {
  if (n.scr) return evalScript(n, x, u, terminal);
  Eval e;
  e.xnext = Vec::Zero(n.nx);
  e.cost = n.c0 + 0.5 * x.dot(n.Q * x) + n.q.dot(x);
  for (int i = 0; i < n.nx; ++i) e.cost += n.epsc * (1. - std::cos(x[i]));
  if (!terminal) {
    e.cost += 0.5 * u.dot(n.R * u) + x.dot(n.S * u) + n.r.dot(u);
    e.xnext = n.A * x + n.B * u + n.c;
    for (int i = 0; i < n.nx; ++i) e.xnext[i] += n.eps * std::sin(x[(i + 1) % n.nx]);
    if (n.nu > 0) e.xnext[0] += n.eps * x[0] * u[0];
  }
  e.g = n.Gx * x + n.h;
  if (!terminal && n.nu > 0) e.g += n.Gu * u;
  for (int i = 0; i < n.ng; ++i) e.g[i] += n.epsg * x[0] * x[0];
  const uint64_t h = hashPoint(n.salt, x, terminal ? Vec() : u);
  if (n.bc != 0) e.cost += n.bc * (double)((int)(hunit(h, 0) * 9) - 4);
  if (n.bx != 0 && !terminal)
    for (int i = 0; i < n.nx; ++i) e.xnext[i] += n.bx * (double)((int)(hunit(h, 10 + i) * 5) - 2);
  if (n.bg != 0)
    for (int i = 0; i < n.ng; ++i) e.g[i] += n.bg * (double)((int)(hunit(h, 30 + i) * 5) - 2);
  const double key = std::fabs((!terminal && n.nu > 0) ? u[0] : x[0]);
  if (hunit(h, 50) < n.pThrow || key > n.regionThrow) throw std::runtime_error("model: injected failure");
  if (hunit(h, 51) < n.pNanC || key > n.regionThr) e.cost = NANV;
  if (hunit(h, 52) < n.pInfC) e.cost = INF;
  if (hunit(h, 53) < n.pBigC) e.cost = -INF;
  if (!terminal && (hunit(h, 54) < n.pNanX || key > n.regionX)) e.xnext[n.nx - 1] = NANV;
  if (!terminal && hunit(h, 55) < n.pInfX) e.xnext[0] = INF;
  if (n.ng > 0 && (hunit(h, 56) < n.pNanG || key > n.regionG)) e.g[n.ng - 1] = NANV;
  return e;
}

inline EvalD evalDiff(const Node& n, const Vec& x, const Vec& u, bool terminal) {
  EvalD d;
  if (n.scr) {
    d.Lx = Vec::Zero(1);
    d.Lxx = Mat::Zero(1, 1);
    d.Lu = Vec::Zero(n.nu);
    d.Luu = Mat::Zero(n.nu, n.nu);
    d.Lxu = Mat::Zero(1, n.nu);
    d.Fx = Mat::Zero(1, 1);
    d.Fu = Mat::Zero(1, n.nu);
    d.Gx = Mat::Zero(n.ng, 1);
    d.Gu = Mat::Zero(n.ng, n.nu);
    if (!terminal) {
      const ScriptPoint& p = n.scr->pts[n.scr->find(x, u)];
      d.Lu[0] = p.lu;
      d.Luu(0, 0) = p.luu;
    }
    return d;
  }
  d.Lx = n.Q * x + n.q;
  d.Lxx = n.Q;
  for (int i = 0; i < n.nx; ++i) {
    d.Lx[i] += n.epsc * std::sin(x[i]);
    if (!n.gaussNewton) d.Lxx(i, i) += n.epsc * std::cos(x[i]);
  }
  d.Gx = n.Gx;
  for (int i = 0; i < n.ng; ++i) d.Gx(i, 0) += 2. * n.epsg * x[0];
  d.Lu = Vec::Zero(n.nu);
  d.Luu = Mat::Zero(n.nu, n.nu);
  d.Lxu = Mat::Zero(n.nx, n.nu);
  d.Fx = Mat::Zero(n.nx, n.nx);
  d.Fu = Mat::Zero(n.nx, n.nu);
  d.Gu = Mat::Zero(n.ng, n.nu);
  if (!terminal) {
    d.Lx += n.S * u;
    d.Lu = n.R * u + n.S.transpose() * x + n.r;
    d.Luu = n.R;
    d.Lxu = n.S;
    d.Fx = n.A;
    d.Fu = n.B;
    for (int i = 0; i < n.nx; ++i) d.Fx(i, (i + 1) % n.nx) += n.eps * std::cos(x[(i + 1) % n.nx]);
    if (n.nu > 0) {
      d.Fx(0, 0) += n.eps * u[0];
      d.Fu(0, 0) += n.eps * x[0];
      d.Gu = n.Gu;
    }
  }
  return d;
}

// Virtual clock, advanced by model evaluations and by the probes.
extern double g_clock;
extern double g_calc_cost;  // seconds per model evaluation

class TModel : public crocoddyl::ActionModelAbstract {
 public:
  Node n;
  TModel(std::shared_ptr<crocoddyl::StateAbstract> s, const Node& node, std::size_t nh = 0)
      : crocoddyl::ActionModelAbstract(s, node.nu, 0, node.ng, nh), n(node) {
    set_g_lb(n.lb);
    set_g_ub(n.ub);
  }
  bool checkData(const std::shared_ptr<crocoddyl::ActionDataAbstract>&) override { return true; }
  const VState& vs() const { return static_cast<const VState&>(*state_); }
  void put(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d, const Eval& e) {
    d->cost = e.cost;
    d->xnext = vs().embed(e.xnext);
    d->g = e.g;
  }
  void putd(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d, const EvalD& e) {
    d->Lx = e.Lx;
    d->Lu = e.Lu;
    d->Lxx = e.Lxx;
    d->Lxu = e.Lxu;
    d->Luu = e.Luu;
    d->Fx = e.Fx;
    d->Fu = e.Fu;
    d->Gx = e.Gx;
    d->Gu = e.Gu;
  }
  void calc(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d,
            const Eigen::Ref<const Vec>& x, const Eigen::Ref<const Vec>& u) override {
    g_clock += g_calc_cost;
    put(d, eval(n, vs().chart(x), u, false));
  }
  void calc(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d,
            const Eigen::Ref<const Vec>& x) override {
    g_clock += g_calc_cost;
    put(d, eval(n, vs().chart(x), Vec::Zero(n.nu), true));
  }
  void calcDiff(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d,
                const Eigen::Ref<const Vec>& x, const Eigen::Ref<const Vec>& u) override {
    putd(d, evalDiff(n, vs().chart(x), u, false));
  }
  void calcDiff(const std::shared_ptr<crocoddyl::ActionDataAbstract>& d,
                const Eigen::Ref<const Vec>& x) override {
    putd(d, evalDiff(n, vs().chart(x), Vec::Zero(n.nu), true));
  }
};

// ----------------------------------------------------------------- problem
struct Problem {
  int T = 1, nx = 1;
  std::vector<int> ang;
  Vec x0;  // in chart coordinates, as everything a problem or a trace contains
  std::vector<Node> nodes;  // T + 1
  std::shared_ptr<VState> state;
  std::vector<std::shared_ptr<TModel>> models;
  std::shared_ptr<crocoddyl::ShootingProblem> sp;
  int threads = 3;  // in a multi-threaded build
  void build(std::size_t nh = 0, int where = -1) {
    state = std::make_shared<VState>(ang);
    models.clear();
    std::vector<std::shared_ptr<crocoddyl::ActionModelAbstract>> run;
    for (int t = 0; t <= T; ++t) {
      models.push_back(std::make_shared<TModel>(state, nodes[t], t == (where < 0 ? T / 2 : where) ? nh : 0));
      if (t < T) run.push_back(models.back());
    }
    sp = std::make_shared<crocoddyl::ShootingProblem>(state->embed(x0), run, models.back());
#ifdef CROCODDYL_WITH_MULTITHREADING
    sp->set_nthreads(threads);
#endif
  }
  Traj chart(const Traj& xs) const {
    if (state->get_nx() == state->get_ndx()) return xs;
    Traj r;
    for (auto& x : xs) r.push_back(state->chart(x));
    return r;
  }
  Traj embed(const Traj& xs) const {
    if (state->get_nx() == state->get_ndx()) return xs;
    Traj r;
    for (auto& x : xs) r.push_back(state->embed(x));
    return r;
  }
  // difference b - a of two points given in chart coordinates
  Vec diff(const Vec& a, const Vec& b) const {
    Vec r = b - a;
    for (int i = 0; i < nx; ++i)
      if (ang[i]) r[i] = VState::wrap(r[i]);
    return r;
  }
  Vec u0(int t) const { return Vec::Zero(nodes[t].nu); }
};

struct Truth {  // evaluated afresh, never through the solver's data
  double cost = 0, gap = 0, viol = 0;
  bool threw = false;
};
inline Truth truth(const Problem& p, const Traj& xs, const Traj& us) {
  Truth r;
  try {
    for (int t = 0; t <= p.T; ++t) {
      const Eval e = eval(p.nodes[t], xs[t], t < p.T ? us[t] : p.u0(t), t == p.T);
      r.cost += e.cost;
      if (t < p.T) {
        const Vec f = p.diff(xs[t + 1], e.xnext);
        for (int i = 0; i < p.nx; ++i) r.gap += std::fabs(f[i]);
      }
      for (int i = 0; i < p.nodes[t].ng; ++i) {
        const double lo = p.nodes[t].lb[i] - e.g[i], hi = e.g[i] - p.nodes[t].ub[i];
        if (std::isnan(e.g[i])) r.viol = NANV;
        if (lo > 0) r.viol += lo;
        if (hi > 0) r.viol += hi;
      }
    }
  } catch (std::exception&) {
    r.threw = true;
  }
  return r;
}

}  // namespace vh
