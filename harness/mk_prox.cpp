#include "probe_prox.hpp"
namespace vh {
IProbe* make_prox(Problem* p, Trace* t) { return new PPROX(p, t); }
}
