// Adapter between the type-erased harness values and the library under test.
// Uses only the library's public interface (interval classes, free functions,
// operators) and the flavor's documented static functions.
#ifndef VH_LIB_HPP
#define VH_LIB_HPP
#include "num.hpp"
#include "hold.hpp"
#include "p1788/p1788.hpp"

namespace vh {
template <class T> using FL = p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<T>;
template <class T> using BI = p1788::infsup::interval<T, p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor>;
template <class T> using DI = p1788::infsup::decorated_interval<T, p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor>;
typedef p1788::decoration::decoration LDec;

template <class T> struct TyOf;
template <> struct TyOf<float> { static Ty const v = TF; };
template <> struct TyOf<double> { static Ty const v = TD; };
template <> struct TyOf<LD> { static Ty const v = TL; };

inline LDec to_ldec(Dec d) {
    switch (d) { case ILL: return LDec::ill; case TRV: return LDec::trv; case DEF: return LDec::def; case DAC: return LDec::dac; default: return LDec::com; }
}
inline int from_ldec(LDec d) {
    switch (d) { case LDec::ill: return ILL; case LDec::trv: return TRV; case LDec::def: return DEF; case LDec::dac: return DAC; case LDec::com: return COM; }
    return -1;
}

// a result as the user sees it
struct Res {
    IV x; int d = COM; bool dec = false;
    bool valid = true;       // false: not a representation of any interval
    bool nai() const { return dec && d == ILL; }
};
inline std::string show(Res const& r) {
    std::string s = r.valid ? (r.nai() ? "[nai]" : show(r.x)) : "INVALID(" + hexld(r.x.lo) + "," + hexld(r.x.hi) + ")";
    if (r.dec && !r.nai()) s += std::string("_") + (r.d >= 0 && r.d <= 4 ? dec_name[r.d] : "?");
    return s;
}

template <class T> struct Cv {
    typedef typename FL<T>::representation rep;
    typedef typename FL<T>::representation_dec repd;
    static rep mk(IV const& x) {
        T n = std::numeric_limits<T>::quiet_NaN();
        return x.empty ? rep(n, n) : rep((T)x.lo, (T)x.hi);
    }
    static repd mkd(DIV_ const& x) { IV e; return repd(mk(x.nai() && !x.raw ? e : x.x), to_ldec(x.d)); }
    static BI<T> bi(IV const& x) { return x.empty ? BI<T>::empty() : BI<T>((T)x.lo, (T)x.hi); }
    static DI<T> di(DIV_ const& x) {
        if (x.nai()) return DI<T>::nai();
        return DI<T>(bi(x.x), to_ldec(x.d));
    }
    static void fill(Res& r, LD lo, LD hi) {
        if (std::isnan(lo) && std::isnan(hi)) { r.x = IV(); return; }
        r.x = IV(lo, hi);
        if (!(lo <= hi) || lo == INFL || hi == -INFL) r.valid = false;
    }
    static Res from(rep const& r) { Res q; fill(q, r.first, r.second); return q; }
    static Res from(repd const& r) {
        Res q; fill(q, r.first.first, r.first.second); q.dec = true; q.d = from_ldec(r.second);
        if (q.d < 0 || (q.x.empty && q.d > TRV) || (!q.x.empty && q.d == ILL) || (q.valid && q.d == COM && !q.x.bounded())) q.valid = false;
        return q;
    }
    static Res from(BI<T> const& b) {
        Res q;
        if (is_empty(b)) { q.x = IV(); return q; }
        q.x = IV((LD)inf(b), (LD)sup(b));
        if (!(q.x.lo <= q.x.hi) || q.x.lo == INFL || q.x.hi == -INFL) q.valid = false;
        return q;
    }
    static Res from(DI<T> const& b) {
        Res q; q.dec = true;
        q.d = from_ldec(decoration(b));
        if (is_nai(b)) { q.x = IV(); if (q.d != ILL) q.valid = false; q.d = ILL; return q; }
        if (q.d <= ILL) { q.valid = false; return q; }
        if (is_empty(b)) { q.x = IV(); if (q.d != TRV) q.valid = false; return q; }
        q.x = IV((LD)inf(b), (LD)sup(b));
        if (!(q.x.lo <= q.x.hi) || q.x.lo == INFL || q.x.hi == -INFL) q.valid = false;
        else if (q.d == COM && !q.x.bounded()) q.valid = false;
        return q;
    }
};

// exception bookkeeping
inline unsigned exc_state() { return (unsigned)p1788::exception::state(); }
inline void exc_clear() { p1788::exception::clear(); }
}
#endif
