// Shared by the recorders: solver factories, the virtual clock, trace heads.
#pragma once
#include "gen.hpp"

#include <crocoddyl/core/utils/stop-watch.hpp>

namespace vh {
double g_clock = 0;
double g_calc_cost = 0;
#ifdef WITH_SQP
IProbe* make_sqp(Problem*, Trace*);
#endif
#ifdef WITH_CSQP
IProbe* make_csqp(Problem*, Trace*);
#endif
#ifdef WITH_PROX
IProbe* make_prox(Problem*, Trace*);
#endif
#ifdef WITH_DDP
IProbe* make_ddp(Problem*, Trace*);
IProbe* make_fddp(Problem*, Trace*);
#endif
#ifdef WITH_KKT
IProbe* make_kkt(Problem*, Trace*);
#endif
}  // namespace vh
// The solver's only clock: replaced by the virtual one.
namespace crocoddyl {
long double Stopwatch::take_time() { return (long double)vh::g_clock; }
}

using namespace vh;

static std::string flags(const Problem& p, const IProbe& s) {
  bool convex = true, faulty = false;
  for (auto& n : p.nodes) {
    convex = convex && n.convex && n.epsc == 0;
    faulty = faulty || n.pThrow > 0 || n.regionThrow < INF;
  }
  std::string r = std::string("\"scripted\":") + (s.scripted ? "true" : "false");
  r += std::string(",\"convex\":") + (convex ? "true" : "false");
  r += std::string(",\"faulty\":") + (faulty ? "true" : "false");
  r += std::string(",\"qpdetail\":") + (s.qpdetail ? "true" : "false");
  return r + ",";
}
static std::string head(const Problem& p, const std::string& kind, const std::string& id) {
  std::string s = "\"id\":\"" + id + "\",\"kind\":\"" + kind + "\",\"T\":" + std::to_string(p.T) + ",\"nx\":" + std::to_string(p.nx);
  s += ",\"nu\":[";
  for (int t = 0; t < p.T; ++t) s += (t ? "," : "") + std::to_string(p.nodes[t].nu);
  s += "],\"ng\":[";
  for (int t = 0; t <= p.T; ++t) s += (t ? "," : "") + std::to_string(p.nodes[t].ng);
  s += "],\"ang\":[";
  for (int i = 0; i < p.nx; ++i) s += std::string(i ? "," : "") + (p.ang[i] ? "true" : "false");
  return s + "]";
}

static IProbe* make(const std::string& g, Problem* p, Trace* t) {
#ifdef WITH_SQP
  if (g == "sqp") return make_sqp(p, t);
#endif
#ifdef WITH_CSQP
  if (g == "csqp") return make_csqp(p, t);
#endif
#ifdef WITH_PROX
  if (g == "prox") return make_prox(p, t);
#endif
#ifdef WITH_DDP
  if (g == "ddp") return make_ddp(p, t);
  if (g == "fddp") return make_fddp(p, t);
#endif
#ifdef WITH_KKT
  if (g == "kkt") return make_kkt(p, t);
#endif
  throw std::runtime_error("unknown solver " + g);
}

// The model parameters may change between two solves of a session.
static void sync(Problem& p) {
  for (int t = 0; t <= p.T; ++t) {
    p.models[t]->n = p.nodes[t];
    p.models[t]->set_g_lb(p.nodes[t].lb);
    p.models[t]->set_g_ub(p.nodes[t].ub);
  }
}
