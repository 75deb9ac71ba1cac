#include "fwd_impl.hpp"
namespace vh { template Res fwdm_t<LD>(OpId, Ty const*, int, bool, DIV_ const*, int); }
