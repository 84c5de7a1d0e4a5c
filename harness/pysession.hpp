// The problem of a session, shared by the C++ recorder (main_py.cpp) and the
// extension module through which Python reaches the same problem (vhext.cpp).
#pragma once
#include "gen.hpp"
namespace vh {
// bounds that contain zero
inline void bounds(Rng& r, Node& n, int i) {
  const int k = r.in(0, 6);
  n.lb[i] = k == 0 || k == 1 ? -INF : -0.01 - r.unit();
  n.ub[i] = k == 0 || k == 2 ? INF : 0.01 + r.unit();
}
// for the reference solvers, which need controls of one size at all stages
inline Problem refProblem(Rng& r, bool cons, bool lq) {
  GenOpt o;
  o.cons = cons;
  o.varnu = false;
  o.angles = !lq;
  if (!lq) {
    o.eps = r.pick({0.05, 0.1, 0.3});
    o.epsc = r.pick({0., 0.3});
    o.epsg = r.pick({0., 0.2});
  }
  o.nx = r.in(2, 3);
  o.T = r.in(1, lq ? 4 : 3);
  Problem p = genProblem(r, o);
  // a matrix with a single row or column is a vector in Python, which the reference solvers do not expect
  const int nu = r.in(2, 3);
  const bool bump = !lq && r.p(0.5);
  const double a = r.pick({0.25, 0.5, 1., 2.}), b = r.pick({0., 0.25, 0.5}), c = r.pick({0., 0.25, 0.5});
  for (auto& n : p.nodes) {
    n = genNode(r, p.nx, nu, n.ng ? r.in(2, 3) : 0, o);
    if (bump) {
      n.bc = a;
      n.bx = b;
      n.bg = c;
    }
  }
  if (!lq && r.p(0.3)) {  // a model that cannot be evaluated far away
    Node& n = p.nodes[r.in(0, p.T)];
    (r.p(0.6) ? n.regionThr : r.p(0.5) || n.ng == 0 ? n.regionX : n.regionG) = r.pick({0.5, 1., 1.5});
  }
  for (int t = 0; cons && t <= p.T; ++t) for (int i = 0; i < p.nodes[t].ng; ++i) bounds(r, p.nodes[t], i);
  if (lq) {  // bounds around a feasible trajectory
    Vec x = p.x0;
    for (int t = 0; t <= p.T; ++t) {
      Node& n = p.nodes[t];
      const Vec u = t < p.T ? r.vec(n.nu, 0.5) : p.u0(t);
      const Eval e = eval(n, x, u, t == p.T);
      n.lb += e.g;
      n.ub += e.g;
      x = e.xnext;
    }
  }
  return p;
}
inline Problem pyProblem(Rng& r, const std::string& kind, bool plain = false) {
  if (kind.substr(0, 4) == "ref-") return refProblem(r, kind.back() == 'C', kind.find("lq") != std::string::npos);
  GenOpt o;
  o.cons = kind == "CSQP" || kind == "PROXQP";
  o.eps = r.pick({0., 0.1});
  o.epsc = r.pick({0., 0.3});
  o.fault = plain ? 0. : 0.1;
  o.indef = plain ? 0. : 0.1;
  if (!plain && r.p(0.3)) {  // line searches that fail after some steps
    o.eps = r.pick({0.3, 0.8});
    o.bump = 0.3;
  }
  return genProblem(r, o);
}
inline uint64_t pySeed(const std::string& kind, uint64_t seed, int i) {
  uint64_t h = 0;
  for (char c : "py/" + kind) h = mix(h, (uint64_t)c);
  return mix(h, seed * 1000003 + i);
}
}  // namespace vh
