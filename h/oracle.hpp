// Reference model: exact ranges of the P1788 operations, evaluated with MPFR
// at high precision in an unrestricted exponent range and rounded outwards to
// the requested format by our own code.  No code of the library under test.
#ifndef VH_ORACLE_HPP
#define VH_ORACLE_HPP
#include "num.hpp"
#include <mpfr.h>
namespace vh {

// restores MPFR's global exponent range and flags, which the library also uses
struct MpfrState {
    mpfr_exp_t emin, emax; mpfr_flags_t fl;
    MpfrState(); ~MpfrState();
};
struct M { // RAII mpfr
    mpfr_t v;
    explicit M(mpfr_prec_t p = 160) { mpfr_init2(v, p); }
    M(M const& o) { mpfr_init2(v, mpfr_get_prec(o.v)); mpfr_set(v, o.v, MPFR_RNDN); }
    M& operator=(M const& o) { if (this != &o) { mpfr_set_prec(v, mpfr_get_prec(o.v)); mpfr_set(v, o.v, MPFR_RNDN); } return *this; }
    ~M() { mpfr_clear(v); }
    operator mpfr_ptr() { return v; }
    operator mpfr_srcptr() const { return v; }
};
inline M mk(LD x) { M m(64); mpfr_set_ld(m, x, MPFR_RNDN); return m; }
LD to_ty(mpfr_srcptr v, Ty t, int dir);       // dir -1,0,+1

enum OpId { POS, NEG, ADD, SUB, MUL, DIV, RECIP, SQRT, FMA, SQR, POWN, POW, EXP, EXP2, EXP10, LOG, LOG2, LOG10,
    SIN, COS, TAN, ASIN, ACOS, ATAN, ATAN2, SINH, COSH, TANH, ASINH, ACOSH, ATANH, SIGN, CEIL, FLOOR, TRUNC,
    RTE, RTA, ABS, MIN_, MAX_, N_OPS };
extern char const* const op_name[N_OPS];
int op_arity(OpId);

struct Range {
    IV r;              // hull of the range over box /\ domain, rounded outwards
    bool def = false;  // box non-empty and inside the natural domain
    bool cont = false; // and the restriction to the box is continuous
    bool jump = false; // the box contains a point where the function itself is discontinuous
};
Range range_of(OpId op, Ty tr, IV const* a, int p);
Dec dec_of(Range const& g, IV const* a, int n);   // strongest true local decoration
// value at a point: false if outside the domain; [lo,hi] encloses it tightly
// (adjacent 160 bit numbers)
bool point_value(OpId op, LD const* a, int p, M& lo, M& hi);

// arithmetic on exact numbers, used by several oracles
LD rnd_op(int kind, LD a, LD b, Ty t, int dir);   // '+','-','*','/'
int cmp_sum(LD a, LD b, LD c, LD d);               // sign of (a+b)-(c+d), exact
}
#endif
