#include "fwd.hpp"
namespace vh {
extern template Res fwdm_t<float>(OpId, Ty const*, int, bool, DIV_ const*, int);
extern template Res fwdm_t<double>(OpId, Ty const*, int, bool, DIV_ const*, int);
extern template Res fwdm_t<LD>(OpId, Ty const*, int, bool, DIV_ const*, int);
bool fwd_mixed_supported(OpId op, Ty tr, Ty const* ta) {
    (void)tr; if (op != FMA) return true;
    switch (ta[0] * 9 + ta[1] * 3 + ta[2]) { case 0: case 1: case 5: case 9: case 13: case 21: case 26: return true; default: return false; }
}
Res fwd_mixed(OpId op, Ty tr, Ty const* ta, int route, bool dec, DIV_ const* a, int p) {
    switch (tr) { case TF: return fwdm_t<float>(op, ta, route, dec, a, p); case TD: return fwdm_t<double>(op, ta, route, dec, a, p); default: return fwdm_t<LD>(op, ta, route, dec, a, p); }
}
}
