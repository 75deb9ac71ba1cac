// Any call of the library with generated operands, reduced to a digest of
// everything the caller sees.
#ifndef VH_ANY_HPP
#define VH_ANY_HPP
#include "fwdgen.hpp"
#include "revgen.hpp"
#include "qry.hpp"
#include "con.hpp"
#include "io.hpp"
#include "red.hpp"
namespace vh {
enum AnyKind { K_FWD, K_REV, K_PAIR, K_CMP, K_PRED, K_NUM, K_MEMBER, K_OVERLAP, K_CONV, K_DECPART, K_NUMS, K_TEXT, K_PRINT, K_REDUCE, N_KIND };
unsigned const ANY_ALL = (1u << N_KIND) - 1, ANY_LIGHT = ANY_ALL & ~((1u << K_TEXT) | (1u << K_PRINT));
struct Any {
    AnyKind kind = K_FWD; FwdCase f; RevCase r;      // r also: intersection, hull, cancellation
    bool dec = false, mixed = false; int n = 1, route = 0, op = 0, raw = 0; Ty t = TD, ta[3] = {TD, TD, TD}; DIV_ a[3]; LD m = 0;
    std::string text; OutFmt fmt; std::vector<LD> v, w; int rnd = 0;
    // operands that are intervals
    int nops() const; DIV_& operand(int i); bool flavor_route() const; void use_flavor_route();
    std::string site() const, show() const;
    std::string run() const;                          // digest of the result
    std::string invalid_result() const;               // digest required when an operand is no interval
    bool deep = false;                                // the text functions clear the exception state
};
Any gen_any(Ctx& c, unsigned kinds, bool nai_ok);
std::string digest(LD x);
std::string digest(Res const& r);
}
#endif
