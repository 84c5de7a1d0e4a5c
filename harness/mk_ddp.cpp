#include "probe_ddp.hpp"
namespace vh {
IProbe* make_ddp(Problem* p, Trace* t) { return new PDDP<mim_solvers::SolverDDP>(p, t); }
IProbe* make_fddp(Problem* p, Trace* t) { return new PDDP<mim_solvers::SolverFDDP>(p, t); }
}
