#include "con.hpp"
namespace vh {
char const* const conv_name[N_CONV] = {"interval(interval)", "decorated_interval(decorated_interval)", "interval(decorated_interval)", "decorated_interval(interval)", "decorated_interval(interval,decoration)"};
int raw_dec(Dec d) { return (int)to_ldec(d); }
template <class T, class L, class U> static Res c2(int route, bool dec, L lo, U hi) {
    if (!dec) return route == 0 ? Cv<T>::from(FL<T>::nums_to_interval(lo, hi)) : Cv<T>::from(BI<T>(lo, hi));
    return route == 0 ? Cv<T>::from(FL<T>::nums_to_decorated_interval(lo, hi)) : Cv<T>::from(DI<T>(lo, hi));
}
template <class T, class L, class U> static Res c3(int route, L lo, U hi, LDec d) {
    return route == 0 ? Cv<T>::from(FL<T>::nums_dec_to_decorated_interval(lo, hi, d)) : Cv<T>::from(DI<T>(lo, hi, d));
}
template <class T, class L> static Res c2u(Ty tu, int route, bool dec, L lo, LD hi) {
    switch (tu) { case TF: return c2<T>(route, dec, lo, (float)hi); case TD: return c2<T>(route, dec, lo, (double)hi); default: return c2<T>(route, dec, lo, hi); }
}
template <class T, class L> static Res c3u(Ty tu, int route, L lo, LD hi, LDec d) {
    switch (tu) { case TF: return c3<T>(route, lo, (float)hi, d); case TD: return c3<T>(route, lo, (double)hi, d); default: return c3<T>(route, lo, hi, d); }
}
template <class T> static Res c2l(Ty tl, Ty tu, int route, bool dec, LD lo, LD hi) {
    switch (tl) { case TF: return c2u<T>(tu, route, dec, (float)lo, hi); case TD: return c2u<T>(tu, route, dec, (double)lo, hi); default: return c2u<T>(tu, route, dec, lo, hi); }
}
template <class T> static Res c3l(Ty tl, Ty tu, int route, LD lo, LD hi, LDec d) {
    switch (tl) { case TF: return c3u<T>(tu, route, (float)lo, hi, d); case TD: return c3u<T>(tu, route, (double)lo, hi, d); default: return c3u<T>(tu, route, lo, hi, d); }
}
Res con2(Ty t, Ty tl, Ty tu, int route, bool dec, LD lo, LD hi) {
    switch (t) { case TF: return c2l<float>(tl, tu, route, dec, lo, hi); case TD: return c2l<double>(tl, tu, route, dec, lo, hi); default: return c2l<LD>(tl, tu, route, dec, lo, hi); }
}
Res con3(Ty t, Ty tl, Ty tu, int route, LD lo, LD hi, int rd) {
    LDec d = static_cast<LDec>(rd);
    switch (t) { case TF: return c3l<float>(tl, tu, route, lo, hi, d); case TD: return c3l<double>(tl, tu, route, lo, hi, d); default: return c3l<LD>(tl, tu, route, lo, hi, d); }
}
// same type: copies, assignments, implicit conversions
template <class T> struct Same {
    static Res b(BI<T> const& s) { BI<T> x((T)1, (T)2); x = s; return Cv<T>::from(x); }
    static Res d(DI<T> const& s) { DI<T> x((T)1, (T)2); x = s; return Cv<T>::from(x); }
    static Res bd(DI<T> const& s) { BI<T> x((T)1, (T)2); x = s; return Cv<T>::from(x); }
    static Res db(BI<T> const& s) { DI<T> x((T)1, (T)2); x = s; return Cv<T>::from(x); }
};
template <class T> static Res cv_same(ConvId k, int route, DIV_ const& x, LDec d, bool& done) {
    done = true;
    if (route == 2) switch (k) {
        case BARE_BARE: return Same<T>::b(Cv<T>::bi(x.x));
        case DEC_DEC: return Same<T>::d(Cv<T>::di(x));
        case BARE_DEC: return Same<T>::bd(Cv<T>::di(x));
        case DEC_BARE: return Same<T>::db(Cv<T>::bi(x.x));
        default: break;
    }
    if (route == 0) { // flavor functions for equal types
        if (k == BARE_BARE) return Cv<T>::from(FL<T>::copy(Cv<T>::mk(x.x)));
        if (k == DEC_DEC) return Cv<T>::from(FL<T>::copy(Cv<T>::mkd(x)));
    }
    done = false; return Res();
}
template <class T, class F> static Res cv(ConvId k, int route, DIV_ const& x, LDec d) {
    switch (k) {
    case BARE_BARE: return route == 0 ? Cv<T>::from(FL<T>::convert_type(Cv<F>::mk(x.x))) : Cv<T>::from(BI<T>(Cv<F>::bi(x.x)));
    case DEC_DEC: return route == 0 ? Cv<T>::from(FL<T>::convert_type(Cv<F>::mkd(x))) : Cv<T>::from(DI<T>(Cv<F>::di(x)));
    case BARE_DEC: return route == 0 ? Cv<T>::from(FL<T>::interval_part(Cv<F>::mkd(x))) : Cv<T>::from(BI<T>(Cv<F>::di(x)));
    case DEC_BARE: return route == 0 ? Cv<T>::from(FL<T>::new_dec(Cv<F>::mk(x.x))) : Cv<T>::from(DI<T>(Cv<F>::bi(x.x)));
    default: return route == 0 ? Cv<T>::from(FL<T>::set_dec(Cv<F>::mk(x.x), d)) : Cv<T>::from(DI<T>(Cv<F>::bi(x.x), d));
    }
}
template <class T> static Res cvf(ConvId k, Ty t, Ty ts, int route, DIV_ const& x, LDec d) {
    if (t == ts) { bool done; Res r = cv_same<T>(k, route, x, d, done); if (done) return r; }
    switch (ts) { case TF: return cv<T, float>(k, route, x, d); case TD: return cv<T, double>(k, route, x, d); default: return cv<T, LD>(k, route, x, d); }
}
Res conv(ConvId k, Ty t, Ty ts, int route, DIV_ const& x, int rd) {
    LDec d = static_cast<LDec>(rd);
    switch (t) { case TF: return cvf<float>(k, t, ts, route, x, d); case TD: return cvf<double>(k, t, ts, route, x, d); default: return cvf<LD>(k, t, ts, route, x, d); }
}
template <class T> static Res cst(int which, bool dec, int route) {
    if (!dec) switch (which) {
        case 0: return Cv<T>::from(BI<T>());
        case 1: return route == 0 ? Cv<T>::from(FL<T>::empty()) : Cv<T>::from(BI<T>::empty());
        default: return route == 0 ? Cv<T>::from(FL<T>::entire()) : Cv<T>::from(BI<T>::entire());
    }
    switch (which) {
    case 0: return Cv<T>::from(DI<T>());
    case 1: return route == 0 ? Cv<T>::from(FL<T>::empty_dec()) : Cv<T>::from(DI<T>::empty());
    case 2: return route == 0 ? Cv<T>::from(FL<T>::entire_dec()) : Cv<T>::from(DI<T>::entire());
    default: return route == 0 ? Cv<T>::from(FL<T>::nai()) : Cv<T>::from(DI<T>::nai());
    }
}
Res constant(Ty t, int which, bool dec, int route) {
    switch (t) { case TF: return cst<float>(which, dec, route); case TD: return cst<double>(which, dec, route); default: return cst<LD>(which, dec, route); }
}
template <class T> static int dp(int route, DIV_ const& x) {
    if (route == 0) return from_ldec(FL<T>::decoration_part(Cv<T>::mkd(x)));
    if (route == 1) return from_ldec(DI<T>::decoration(Cv<T>::di(x)));
    return from_ldec(decoration(Cv<T>::di(x)));
}
int dec_part(Ty t, int route, DIV_ const& x) { switch (t) { case TF: return dp<float>(route, x); case TD: return dp<double>(route, x); default: return dp<LD>(route, x); } }
}
