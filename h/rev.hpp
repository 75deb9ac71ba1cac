// reverse, cancellative and set operations of the library, type erased
#ifndef VH_REV_HPP
#define VH_REV_HPP
#include "lib.hpp"
#include "oracle.hpp"
namespace vh {
enum RevId { SQR_REV, ABS_REV, COSH_REV, SIN_REV, COS_REV, TAN_REV, POWN_REV, MUL_REV, CANCEL_PLUS, CANCEL_MINUS, INTERSECTION, CONVEX_HULL, N_REV };
extern char const* const rev_name[N_REV];
// n: number of interval operands (unary forms exist for *_rev, binary for mul_rev).
// ta == nullptr: all of type t.  route 0 flavor, 1 static member, 2 free function (same type only)
Res rev(RevId op, Ty t, Ty const* ta, int route, bool dec, DIV_ const* a, int n, int p);
bool rev_mixed3_ok(Ty const* ta);
void mul_rev_pair(Ty t, Ty const* ta, int route, bool dec, DIV_ const* a, Res out[2]);
template <class T> Res rev_t(RevId op, Ty const* ta, int route, bool dec, DIV_ const* a, int n, int p);
template <class T> void mrp_t(Ty const* ta, int route, bool dec, DIV_ const* a, Res out[2]);
}
#endif
