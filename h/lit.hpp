// Interval literals: an independent reader of the text grammar that yields the
// exact rational bounds, and a generator of literals.  Contains no code of the
// library under test.
#ifndef VH_LIT_HPP
#define VH_LIT_HPP
#include "num.hpp"
#include <gmpxx.h>
namespace vh {
struct Lit {
    bool ok = false;          // a literal of the grammar with lower <= upper and an admissible decoration
    bool unsure = false;      // a form the grammar leaves open: no claim about acceptance
    int kind = 0;             // 0 empty, 1 bounds, 2 nai
    bool loinf = false, hiinf = false;
    mpq_class lo, hi;         // exact bounds when not infinite
    int dec = -1;             // explicit decoration (0..4), -1 none
    size_t end = 0;           // characters consumed
    char const* why = "";
};
// what stream extraction reads from the start of s
Lit lit_read(std::string const& s, bool skipws = true);
// whole-text conversion: nothing but white space may follow
Lit lit_text(std::string const& s);
// the interval and decoration a decorated interval of type t gets (d = ILL for NaI)
void lit_value(Lit const& l, Ty t, IV& x, int& d);
LD q_round(mpq_class const& q, Ty t, int dir);
mpq_class q_of(LD x);         // exact
bool q_le(LD lo, mpq_class const& q);   // lo <= q, lo may be infinite
std::string gen_lit(Src& s, Ty t, bool dec);   // mostly valid literals, biased to bounds near numbers of type t
std::string gen_numlit(Src& s, Ty t, Pool& p);
std::string mutate(Src& s, std::string x);
bool slow_exponent(std::string const& x);      // an exponent the conversion needs very long for
std::string showtext(std::string const& s);    // printable
}
#endif
