#include "rev.hpp"
namespace vh {
char const* const rev_name[N_REV] = {"sqr_rev", "abs_rev", "cosh_rev", "sin_rev", "cos_rev", "tan_rev", "pown_rev", "mul_rev", "cancel_plus", "cancel_minus", "intersection", "convex_hull"};
extern template Res rev_t<float>(RevId, Ty const*, int, bool, DIV_ const*, int, int);
extern template Res rev_t<double>(RevId, Ty const*, int, bool, DIV_ const*, int, int);
extern template Res rev_t<LD>(RevId, Ty const*, int, bool, DIV_ const*, int, int);
extern template void mrp_t<float>(Ty const*, int, bool, DIV_ const*, Res*);
extern template void mrp_t<double>(Ty const*, int, bool, DIV_ const*, Res*);
extern template void mrp_t<LD>(Ty const*, int, bool, DIV_ const*, Res*);
bool rev_mixed3_ok(Ty const* ta) { switch (ta[0] * 9 + ta[1] * 3 + ta[2]) { case 0: case 1: case 5: case 9: case 13: case 21: case 26: return true; default: return false; } }
Res rev(RevId op, Ty t, Ty const* ta, int route, bool dec, DIV_ const* a, int n, int p) {
    switch (t) { case TF: return rev_t<float>(op, ta, route, dec, a, n, p); case TD: return rev_t<double>(op, ta, route, dec, a, n, p); default: return rev_t<LD>(op, ta, route, dec, a, n, p); }
}
void mul_rev_pair(Ty t, Ty const* ta, int route, bool dec, DIV_ const* a, Res out[2]) {
    switch (t) { case TF: return mrp_t<float>(ta, route, dec, a, out); case TD: return mrp_t<double>(ta, route, dec, a, out); default: return mrp_t<LD>(ta, route, dec, a, out); }
}
}
