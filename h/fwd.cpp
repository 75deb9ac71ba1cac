#include "fwd.hpp"
namespace vh {
char const* const route_name[4] = {"flavor", "static", "free", "operator"};
extern template Res fwd_t<float>(OpId, int, bool, DIV_ const*, int);
extern template Res fwd_t<double>(OpId, int, bool, DIV_ const*, int);
extern template Res fwd_t<LD>(OpId, int, bool, DIV_ const*, int);
Res fwd(OpId op, Ty t, int route, bool dec, DIV_ const* a, int p) {
    switch (t) { case TF: return fwd_t<float>(op, route, dec, a, p); case TD: return fwd_t<double>(op, route, dec, a, p); default: return fwd_t<LD>(op, route, dec, a, p); }
}
}
