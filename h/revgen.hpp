// Generator and reference model for the reverse operations.
#ifndef VH_REVGEN_HPP
#define VH_REVGEN_HPP
#include "rev.hpp"
namespace vh {
struct RevCase {
    RevId op = RevId(0); Ty t = TD; int n = 1; int p = 0; bool dec = false; int route = 0; bool mixed = false; Ty ta[3] = {TD, TD, TD}; DIV_ a[3]; IV x[3];
    bool unary = false;          // form without the constraining interval
    IV c, dom, b;                // range constraint, domain constraint, factor (mul_rev)
    LD target = 0; bool has_target = false;   // a point of dom whose value is in c
    Res call() const { return rev(op, t, mixed ? ta : nullptr, route, dec, a, n, p); }
    std::string show() const;
};
// ops: which operations to draw from
RevCase gen_rev(Ctx& c, std::vector<int> const& ops, int mixed, int dec, bool nai_ok);
// hull of the solution set inside dom, in type t: `in` uses the exact set, `out` its closure
void rev_hull(RevCase const& r, IV& in, IV& out);
// solution set of x*b in c over all reals: none, one or two closed pieces, rounded outwards
std::vector<IV> mul_pieces(IV const& b, IV const& c, Ty t);
IV coerce(IV x, Ty t);
// an interval of type t related to y (shared or adjacent bounds)
IV gen_iv_near(Src& s, Ty t, IV const& y, Pool& p);
// value of the forward function at a point (b: factor for mul_rev)
bool rev_forward(RevId op, LD v, LD beta, int p, M& lo, M& hi);
}
#endif
