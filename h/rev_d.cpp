#include "rev_impl.hpp"
namespace vh { template Res rev_t<double>(RevId, Ty const*, int, bool, DIV_ const*, int, int); template void mrp_t<double>(Ty const*, int, bool, DIV_ const*, Res*); }
