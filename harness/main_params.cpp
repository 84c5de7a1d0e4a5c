// Walks the parameter interface of the real solvers along scripts generated
// by spec/ParamScripts.tla and records every parameter after every operation.
//   params GROUP SCEN SEED N FIRST OUT SCRIPTS
#include "common.hpp"

#include <fstream>

#include "params_api.hpp"

namespace {
template <class S>
void walk(Rng& r, Problem& pb, std::stringstream& ops, int n, Trace& tr) {
  S s(pb.sp);
  J j0;
  tr.add(j0.str("e", "new").raw("p", state(s)));
  for (int i = 0; i < n; ++i) {
    std::string op;
    Value v;
    ops >> op >> v.s;
    J j;
    if (op == "solve") {
      Traj xs, us;
      for (int t = 0; t <= pb.T; ++t) xs.push_back(pb.state->embed(r.vec(pb.nx, 1.)));
      for (int t = 0; t < pb.T; ++t) us.push_back(r.vec(pb.nodes[t].nu, 1.));
      std::string what;
      try {
        s.solve(xs, us, v.i());
      } catch (std::exception& e) {
        what = "threw";
      }
      j.str("e", "solve").b("threw", !what.empty());
    } else {
      bool threw = false;
      try {
        put(s, op, v);
      } catch (std::exception& e) {
        threw = true;
      }
      j.str("e", "set").str("op", op).raw("v", v.json()).b("threw", threw);
    }
    tr.add(j.raw("p", state(s)));
  }
  // construction on problems with equality constraints
  for (int where = 0; where < 3; ++where) {
    Problem q;
    q.T = pb.T;
    q.nx = pb.nx;
    q.ang = pb.ang;
    q.x0 = pb.x0;
    q.nodes = pb.nodes;
    const int nh = r.in(0, 2);
    q.build(nh, where == 0 ? 0 : where == 1 ? q.T : r.in(0, q.T));
    bool threw = false;
    try {
      S s2(q.sp);
    } catch (std::exception& e) {
      threw = true;
    }
    J j;
    tr.add(j.str("e", "ctor").i("nh", nh).b("threw", threw));
  }
}
}  // namespace

int main(int argc, char** argv) {
  if (argc < 8) return 3;
  // printing is for humans
  if (!std::freopen("/dev/null", "w", stdout) || !std::freopen("/dev/null", "w", stderr)) return 3;
  const uint64_t seed = std::stoull(argv[3]);
  const int n = std::stoi(argv[4]), first = std::stoi(argv[5]);
  FILE* f = std::fopen(argv[6], "w");
  std::ifstream in(argv[7]);
  std::string line;
  for (int i = 0; i < first + n; ++i) {
    if (!std::getline(in, line)) break;
    if (i < first) continue;
    std::stringstream ss(line);
    std::string kind;
    int nops;
    ss >> kind >> nops;
    Rng r(mix(seed * 1000003 + i, 77));
    GenOpt o;
    o.cons = kind == "CSQP" || kind == "PROXQP";
    o.eps = 0.1;
    Problem pb = genProblem(r, o);
    pb.build();
    Trace tr;
    tr.head = "\"id\":\"params-" + std::to_string(seed) + "-" + std::to_string(i) + "\",\"kind\":\"" + kind + "\",\"scen\":\"cpp\"";
    if (kind == "DDP") walk<SolverDDP>(r, pb, ss, nops, tr);
    else if (kind == "FDDP") walk<SolverFDDP>(r, pb, ss, nops, tr);
    else if (kind == "SQP") walk<SolverSQP>(r, pb, ss, nops, tr);
    else if (kind == "CSQP") walk<SolverCSQP>(r, pb, ss, nops, tr);
    else if (kind == "PROXQP") walk<SolverPROXQP>(r, pb, ss, nops, tr);
    else return 3;
    tr.write(f);
  }
  std::fclose(f);
}
