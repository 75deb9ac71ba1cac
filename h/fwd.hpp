// forward operations of the library, type erased
#ifndef VH_FWD_HPP
#define VH_FWD_HPP
#include "lib.hpp"
#include "oracle.hpp"
namespace vh {
enum Route { RT_FLAVOR = 0, RT_STATIC = 1, RT_FREE = 2, RT_OPER = 3 };
// all operands and the result of type t
Res fwd(OpId op, Ty t, int route, bool dec, DIV_ const* a, int p);
// operand types ta[], result type tr; only routes flavor and static exist
bool fwd_mixed_supported(OpId op, Ty tr, Ty const* ta);
Res fwd_mixed(OpId op, Ty tr, Ty const* ta, int route, bool dec, DIV_ const* a, int p);

template <class T> Res fwd_t(OpId op, int route, bool dec, DIV_ const* a, int p);
template <class T> Res fwdm_t(OpId op, Ty const* ta, int route, bool dec, DIV_ const* a, int p);
extern char const* const route_name[4];
}
#endif
