#include "probe_sqp.hpp"
namespace vh {
IProbe* make_sqp(Problem* p, Trace* t) { return new PSQP(p, t); }
}
