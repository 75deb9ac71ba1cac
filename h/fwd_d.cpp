#include "fwd_impl.hpp"
namespace vh { template Res fwd_t<double>(OpId, int, bool, DIV_ const*, int); }
