// Newline-delimited JSON traces; a double is written as the 16 hex digits of
// its bit pattern (see spec/F64.tla).
#pragma once
#include "model.hpp"

namespace vh {

struct J {  // tiny JSON object/array writer
  std::string s;
  bool first = true;
  char close = '}';
  static std::string num(double d) {
    uint64_t b;
    std::memcpy(&b, &d, 8);
    char buf[24];
    std::snprintf(buf, sizeof buf, "\"%016llx\"", (unsigned long long)b);
    return buf;
  }
  J() : s("{") {}
  J& raw(const char* k, const std::string& v) {
    if (!first) s += ',';
    first = false;
    s += '"';
    s += k;
    s += "\":";
    s += v;
    return *this;
  }
  J& f(const char* k, double d) { return raw(k, num(d)); }
  J& i(const char* k, long long v) {
    if (v > 2000000000) v = 2000000000;
    if (v < -2000000000) v = -2000000000;
    return raw(k, std::to_string(v));
  }
  J& b(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
  J& str(const char* k, const std::string& v) { return raw(k, "\"" + v + "\""); }
  template <class V>
  static std::string vec(const V& v) {
    std::string r = "[";
    for (int i = 0; i < (int)v.size(); ++i) {
      if (i) r += ',';
      r += num(v[i]);
    }
    return r + "]";
  }
  template <class M>
  static std::string mat(const M& m) {
    std::string r = "[";
    for (int i = 0; i < m.rows(); ++i) {
      if (i) r += ',';
      r += '[';
      for (int j = 0; j < m.cols(); ++j) {
        if (j) r += ',';
        r += num(m(i, j));
      }
      r += ']';
    }
    return r + "]";
  }
  template <class TT>
  static std::string traj(const TT& t) {
    std::string r = "[";
    for (std::size_t i = 0; i < t.size(); ++i) {
      if (i) r += ',';
      r += vec(t[i]);
    }
    return r + "]";
  }
  template <class V>
  J& v(const char* k, const V& x) { return raw(k, vec(x)); }
  template <class M>
  J& m(const char* k, const M& x) { return raw(k, mat(x)); }
  template <class TT>
  J& t(const char* k, const TT& x) { return raw(k, traj(x)); }
  std::string done() const { return s + "}"; }
};

struct Trace {
  std::string head;  // JSON members without braces
  std::vector<std::string> ev;
  void add(const J& j) { ev.push_back(j.done()); }
  void write(FILE* f) const {
    std::fprintf(f, "{%s,\"ev\":[", head.c_str());
    for (std::size_t i = 0; i < ev.size(); ++i)
      std::fprintf(f, "%s%s", i ? "," : "", ev[i].c_str());
    std::fprintf(f, "]}\n");
  }
};

// Ground truth of all nodes at (xs, us): the LQ model a direction must solve.
inline std::string truthNodes(const Problem& p, const Traj& xs, const Traj& us) {
  std::string r = "[";
  for (int t = 0; t <= p.T; ++t) {
    const Vec u = t < p.T ? us[t] : p.u0(t);
    Eval e;
    bool threw = false;
    try {
      e = eval(p.nodes[t], xs[t], u, t == p.T);
    } catch (std::exception&) {
      threw = true;
      e.xnext = Vec::Constant(p.nx, NANV);
      e.g = Vec::Constant(p.nodes[t].ng, NANV);
      e.cost = NANV;
    }
    const EvalD d = evalDiff(p.nodes[t], xs[t], u, t == p.T);
    J j;
    j.b("thr", threw).f("c", e.cost).v("Lx", d.Lx).m("Lxx", d.Lxx);
    j.v("g", e.g).m("Gx", d.Gx).v("lb", p.nodes[t].lb).v("ub", p.nodes[t].ub);
    if (t < p.T) {
      const Vec f = p.diff(xs[t + 1], e.xnext);
      j.v("f", f).v("Lu", d.Lu).m("Luu", d.Luu).m("Lxu", d.Lxu).m("Fx", d.Fx).m("Fu", d.Fu).m("Gu", d.Gu);
    }
    if (t) r += ',';
    r += j.done();
  }
  return r + "]";
}

}  // namespace vh
