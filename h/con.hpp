// Constructors and conversions of the library, type erased
#ifndef VH_CON_HPP
#define VH_CON_HPP
#include "lib.hpp"
namespace vh {
// routes: 0 flavor function, 1 class constructor
// interval of type t from numbers of types tl, tu
Res con2(Ty t, Ty tl, Ty tu, int route, bool dec, LD lo, LD hi);
// decorated interval from numbers and a decoration (raw value of the enumeration)
Res con3(Ty t, Ty tl, Ty tu, int route, LD lo, LD hi, int rawdec);
enum ConvId { BARE_BARE, DEC_DEC, BARE_DEC, DEC_BARE, DEC_BARE_D, N_CONV };
extern char const* const conv_name[N_CONV];
// routes: 0 flavor, 1 constructor, 2 assignment / implicit conversion (same type only, else as 1)
Res conv(ConvId k, Ty t, Ty ts, int route, DIV_ const& x, int rawdec);
Res constant(Ty t, int which, bool dec, int route);   // 0 default, 1 empty, 2 entire, 3 nai (dec)
int raw_dec(Dec d);
int dec_part(Ty t, int route, DIV_ const& x);      // 0 flavor, 1 static member, 2 free function; Dec, or -1
}
#endif
