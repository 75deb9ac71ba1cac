#include "fwd_impl.hpp"
namespace vh { template Res fwd_t<LD>(OpId, int, bool, DIV_ const*, int); }
