#include "rev_impl.hpp"
namespace vh { template Res rev_t<LD>(RevId, Ty const*, int, bool, DIV_ const*, int, int); template void mrp_t<LD>(Ty const*, int, bool, DIV_ const*, Res*); }
