#include "rev_impl.hpp"
namespace vh { template Res rev_t<float>(RevId, Ty const*, int, bool, DIV_ const*, int, int); template void mrp_t<float>(Ty const*, int, bool, DIV_ const*, Res*); }
