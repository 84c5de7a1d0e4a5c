#include "probe_csqp.hpp"
namespace vh {
IProbe* make_csqp(Problem* p, Trace* t) { return new PCSQP(p, t); }
}
