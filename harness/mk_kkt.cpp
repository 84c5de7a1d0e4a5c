#include "probe_kkt.hpp"
namespace vh {
IProbe* make_kkt(Problem* p, Trace* t) { return new PKKT(p, t); }
}
