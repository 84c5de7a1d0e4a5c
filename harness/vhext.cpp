// Gives Python the test problems of model.hpp.
#include <boost/python.hpp>
#include <eigenpy/eigenpy.hpp>

#include "pysession.hpp"

namespace bp = boost::python;
namespace vh {
double g_clock = 0;
double g_calc_cost = 0;
}  // namespace vh
using namespace vh;

struct PyProblem {
  Problem p;
  PyProblem(const std::string& kind, unsigned long seed, int i, bool plain) {
    Rng r(pySeed(kind, seed, i));
    p = pyProblem(r, kind, plain);
    p.build();
  }
  void constraints(int nh, int where) { p.build(nh, where); }
  std::shared_ptr<crocoddyl::ShootingProblem> sp() { return p.sp; }
  static Traj traj(const bp::object& o) {
    Traj r;
    for (int t = 0; t < bp::len(o); ++t) r.push_back(bp::extract<Vec>(o[t]));
    return r;
  }
  // what the model says at a trajectory, written as in the traces of the C++ solvers
  std::string nodes(const bp::object& xs, const bp::object& us) { return truthNodes(p, p.chart(traj(xs)), traj(us)); }
  std::string charts(const bp::object& xs) { return J::traj(p.chart(traj(xs))); }
  std::string head() {
    std::string a = "[", n = "[";
    for (int i = 0; i < p.nx; ++i) a += std::string(i ? "," : "") + (p.ang[i] ? "true" : "false");
    for (int t = 0; t < p.T; ++t) n += (t ? "," : "") + std::to_string(p.nodes[t].nu);
    J j;
    j.i("T", p.T).i("nx", p.nx).raw("nu", n + "]").raw("ang", a + "]").v("x0", p.x0);
    return j.done();
  }
  bp::list guessX(unsigned long s) {
    Rng r(s);
    bp::list l;
    for (int t = 0; t <= p.T; ++t) l.append(p.state->embed(r.vec(p.nx, 1.)));
    return l;
  }
  bp::list guessU(unsigned long s) {
    Rng r(s + 1);
    bp::list l;
    for (int t = 0; t < p.T; ++t) l.append(r.vec(p.nodes[t].nu, 1.));
    return l;
  }
};

static Vec diffOf(const VState& s, const Vec& a, const Vec& b) {
  Vec r(s.get_ndx());
  s.diff(a, b, r);
  return r;
}
static Vec integrateOf(const VState& s, const Vec& a, const Vec& d) {
  Vec r(s.get_nx());
  s.integrate(a, d, r);
  return r;
}
using Data = std::shared_ptr<crocoddyl::ActionDataAbstract>;
static void calcOf(TModel& m, const Data& d, const Vec& x) { m.calc(d, x); }
static void calcOf(TModel& m, const Data& d, const Vec& x, const Vec& u) { m.calc(d, x, u); }

BOOST_PYTHON_MODULE(vhext) {
  bp::import("crocoddyl");
  bp::class_<VState, bp::bases<crocoddyl::StateAbstract>, std::shared_ptr<VState>, boost::noncopyable>("State", bp::no_init)
      .def("diff", &diffOf)
      .def("integrate", &integrateOf);
  bp::class_<TModel, bp::bases<crocoddyl::ActionModelAbstract>, std::shared_ptr<TModel>, boost::noncopyable>("Model", bp::no_init)
      .def("calc", static_cast<void (*)(TModel&, const Data&, const Vec&)>(&calcOf))
      .def("calc", static_cast<void (*)(TModel&, const Data&, const Vec&, const Vec&)>(&calcOf));
  bp::class_<PyProblem, boost::noncopyable>("Problem", bp::init<std::string, unsigned long, int, bool>())
      .def("constraints", &PyProblem::constraints)
      .def("problem", &PyProblem::sp)
      .def("guess_x", &PyProblem::guessX)
      .def("guess_u", &PyProblem::guessU)
      .def("nodes", &PyProblem::nodes)
      .def("charts", &PyProblem::charts)
      .def("head", &PyProblem::head);
}
