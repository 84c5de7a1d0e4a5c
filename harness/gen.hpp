// Random problems and parameters.
#pragma once
#include "probe.hpp"
namespace vh {

struct GenOpt {
  int T = -1, nx = -1;
  bool cons = false;       // constraints
  bool angles = true;
  bool varnu = true;       // stage-varying nu (possibly 0)
  double eps = 0., epsc = 0., epsg = 0.;
  double bump = 0.;        // probability that a problem has rough bumps
  double fault = 0.;       // probability that a problem has faults
  double indef = 0.;       // probability of an indefinite Hessian somewhere
  bool boxy = false;       // only well-posed two sided bounds
};

inline Mat spd(Rng& r, int n, double lo) {
  Mat a = r.mat(n, n, 1.);
  return a * a.transpose() + lo * Mat::Identity(n, n);
}

inline Node genNode(Rng& r, int nx, int nu, int ng, const GenOpt& o) {
  Node n;
  n.nx = nx;
  n.nu = nu;
  n.ng = ng;
  n.A = Mat::Identity(nx, nx) + r.mat(nx, nx, 0.4);
  n.B = r.mat(nx, nu, 1.);
  n.Q = spd(r, nx, 0.1);
  n.R = spd(r, nu, 0.3);
  n.S = r.mat(nx, nu, 0.05);
  n.c = r.vec(nx, 0.3);
  n.q = r.vec(nx, 1.);
  n.r = r.vec(nu, 1.);
  n.c0 = r.sym(1.);
  n.Gx = r.mat(ng, nx, 1.);
  n.Gu = r.mat(ng, nu, 1.);
  n.h = r.vec(ng, 0.5);
  n.lb = Vec(ng);
  n.ub = Vec(ng);
  for (int i = 0; i < ng; ++i) {
    const int k = o.boxy ? r.in(0, 2) : r.in(0, 9);
    const double w = 0.2 + r.unit();
    switch (k) {
      case 0: case 1: case 2: n.lb[i] = -w; n.ub[i] = w; break;
      case 3: n.lb[i] = -INF; n.ub[i] = w; break;
      case 4: n.lb[i] = -w; n.ub[i] = INF; break;
      case 5: n.lb[i] = -INF; n.ub[i] = INF; break;
      case 6: n.lb[i] = n.ub[i] = r.sym(0.2); break;
      case 7: n.lb[i] = 0.; n.ub[i] = 0.5; break;          // narrow interval, not an equality
      case 8: n.lb[i] = -0.25; n.ub[i] = -0.25 + 0x1p-10; break;
      default: n.lb[i] = -w; n.ub[i] = -w + 5e-7; break;     // equality up to 1e-6
    }
  }
  n.eps = o.eps;
  n.epsc = o.epsc;
  n.epsg = o.epsg;
  n.salt = r.u64();
  return n;
}

inline Problem genProblem(Rng& r, const GenOpt& o) {
  Problem p;
  p.T = o.T > 0 ? o.T : r.in(1, 4);
  p.nx = o.nx > 0 ? o.nx : r.in(1, 3);
  p.ang.assign(p.nx, 0);
  if (o.angles && r.p(0.3)) p.ang[r.in(0, p.nx - 1)] = r.in(1, 2);
  const int nu = r.in(1, 2);
  const bool vary = o.varnu && r.p(0.4);
  for (int t = 0; t <= p.T; ++t) {
    int m = nu;
    if (vary) m = r.in(t == 0 ? 1 : 0, 2);
    int g = 0;
    if (o.cons) g = r.p(0.7) ? r.in(1, 2) : 0;
    p.nodes.push_back(genNode(r, p.nx, m, g, o));
  }
  if (r.p(o.bump)) {
    const double a = r.pick({0.25, 0.5, 1., 2.}), b = r.pick({0., 0.25, 0.5}), c = r.pick({0., 0.25, 0.5});
    for (auto& n : p.nodes) {
      n.bc = a;
      n.bx = b;
      n.bg = c;
    }
  }
  if (r.p(o.fault)) {
    const int k = r.in(0, 8);
    const double q = r.pick({0.05, 0.15, 0.3, 0.6});
    for (auto& n : p.nodes) {
      if (k == 0) n.pNanC = q;
      if (k == 1) n.pInfC = q;
      if (k == 2) n.pThrow = q;
      if (k == 3) n.pNanX = q;
      if (k == 4) n.pInfX = q;
      if (k == 5) n.pNanG = q;
      if (k == 6) n.pNanC = n.pNanX = n.pNanG = n.pThrow = q / 4;
      if (k == 7) n.pBigC = q;
      if (k == 8) {
        const double thr = r.pick({0.25, 0.5, 1.});
        switch (r.in(0, 3)) {
          case 0: n.regionThr = thr; break;
          case 1: n.regionX = thr; break;
          case 2: n.regionG = thr; break;
          default: n.regionThrow = thr;
        }
      }
    }
  }
  if (r.p(o.indef)) {
    const int t = r.in(0, p.T - 1);
    auto& n = p.nodes[t];
    n.convex = false;
    if (n.nu > 0) n.R -= r.pick({1., 3., 30.}) * Mat::Identity(n.nu, n.nu);
    if (r.p(0.3)) p.nodes[r.in(0, p.T)].Q -= r.pick({1., 10.}) * Mat::Identity(p.nx, p.nx);
  }
  p.x0 = r.vec(p.nx, 1.);
  return p;
}

inline SolveArgs genArgs(Rng& r, const Problem& p, int maxit) {
  SolveArgs a;
  a.maxit = maxit;
  const int k = r.in(0, 3);
  if (k >= 1) {
    for (int t = 0; t <= p.T; ++t) a.xs.push_back(r.vec(p.nx, 1.));
    if (k >= 2) a.xs[0] = p.x0;
    if (k == 1 || k == 3)
      for (int t = 0; t < p.T; ++t) a.us.push_back(r.vec(p.nodes[t].nu, 1.));
    if (k == 2) {  // feasible rollout
      for (int t = 0; t < p.T; ++t) {
        a.us.push_back(r.vec(p.nodes[t].nu, 0.5));
        try {
          a.xs[t + 1] = eval(p.nodes[t], a.xs[t], a.us[t], false).xnext;
        } catch (std::exception&) {
        }
        for (int i = 0; i < p.nx; ++i)
          if (!std::isfinite(a.xs[t + 1][i])) a.xs[t + 1][i] = 0.;
      }
    }
  }
  a.feas = r.p(0.3);
  if (r.p(0.3)) a.reginit = r.pick({0., 1e-9, 1e-6, 1e-3, 0.1, 1.});
  return a;
}

inline Params genParams(Rng& r) {
  Params q;
  q.tol = r.pick({1e-8, 1e-6, 1e-4, 1e-2});
  q.filter = r.p(0.6);
  q.fsize = r.pick({1, 1, 2, 3, 5});
  q.muD = r.pick({0.1, 1., 10.});
  q.muC = r.pick({0.1, 1., 10.});
  q.lagc = r.pick({1., 10.});
  q.extra = r.p(0.3);
  if (r.p(0.5)) {
    q.regmin = r.pick({1e-9, 1e-6, 1e-2});
    q.regmax = r.pick({1., 100., 1e9});
    q.incf = r.pick({2., 10., 100.});
    q.decf = r.pick({2., 10., 100.});
    q.thdec = r.pick({0.25, 0.5, 0.9});
    q.thinc = r.pick({0.01, 0.1, 0.3});
  }
  if (r.p(0.2)) {
    static const std::vector<std::vector<double>> L = {{1., 0.5, 0.25}, {1.}, {1., 0.1, 0.01, 0.001}, {0.5, 0.25}, {1., 0.75, 0.5, 0.25, 0.125, 0.0625}};
    q.alphas = L[r.in(0, (int)L.size() - 1)];
  }
  q.ncb = r.pick({1, 1, 1, 0, 2, 3});
  return q;
}

// guess of a DDP solve: `feasible` is a promise of the caller
inline SolveArgs genDdpArgs(Rng& r, const Problem& p, int maxit) {
  SolveArgs a = genArgs(r, p, maxit);
  a.feas = false;
  if (r.p(0.35)) {
    a.xs.assign(1, p.x0);
    a.us.clear();
    a.feas = true;
    for (int t = 0; t < p.T; ++t) {
      a.us.push_back(r.vec(p.nodes[t].nu, 0.5));
      Vec x = Vec::Zero(p.nx);
      try {
        x = eval(p.nodes[t], a.xs[t], a.us[t], false).xnext;
      } catch (std::exception&) {
        a.feas = false;
      }
      for (int i = 0; i < p.nx; ++i)
        if (!std::isfinite(x[i])) {
          x[i] = 0.;
          a.feas = false;
        }
      a.xs.push_back(x);
    }
  }
  return a;
}
inline void genDdpParams(Rng& r, Params& q) {
  q.filter = r.p(0.4);
  q.thgrad = r.pick({1e-12, 0., 1e-3, 1.});
  q.thacc = r.pick({0.1, 0.5, 0.9, 0.01});
  q.thneg = r.pick({2., 0., 1., 10.});
}

inline void genQpParams(Rng& r, Params& q) {
  q.maxqp = r.pick({1, 5, 25, 30, 60, 100});
  q.rhoint = r.pick({1, 2, 5, 7, 25});
  q.rho0 = r.pick({0.1, 0.1, 0.1, 0.01, 1.});
  q.rhotol = r.pick({2, 5, 10});
  if (r.p(0.1)) q.rho0 = 1000. / q.rhotol;  // the largest penalty lies exactly at the threshold
  q.alpha = r.pick({1., 1.6, 1.3});
  q.sigma = r.pick({1e-6, 1e-3, 1e-9});
  q.epsa = r.pick({1e-3, 1e-4, 1e-6, 1e-9});
  q.epsr = r.pick({0., 1e-4, 1e-2});
  q.resety = r.p(0.4);
  q.resetrho = r.p(0.4);
  q.eqinit = r.p(0.7);
  q.heur = r.p(0.3);
  q.rmreg = r.p(0.2);
  if (r.p(0.2)) { q.muD = -1.; }
  if (r.p(0.1)) { q.muC = -1.; }
}

}  // namespace vh
