#include "qry_impl.hpp"
namespace vh { VH_QRY_EXT(, float) }
