#include "fwd.hpp"
namespace vh {
template <class T, class X> static X conv(DIV_ const&);
template <class T, bool D> struct Arg;
template <class T> struct Arg<T, false> {
    static typename Cv<T>::rep const& r(DIV_ const& x) { return hold<typename Cv<T>::rep>(x, Cv<T>::mk(x.x)); }
    static BI<T> const& o(DIV_ const& x) { return hold<BI<T>>(x, Cv<T>::bi(x.x)); }
    typedef BI<T> Obj;
};
template <class T> struct Arg<T, true> {
    static typename Cv<T>::repd const& r(DIV_ const& x) { return hold<typename Cv<T>::repd>(x, Cv<T>::mkd(x)); }
    static DI<T> const& o(DIV_ const& x) { return hold<DI<T>>(x, Cv<T>::di(x)); }
    typedef DI<T> Obj;
};
#define UN_LIST(X) X(POS, pos) X(NEG, neg) X(RECIP, recip) X(SQRT, sqrt) X(SQR, sqr) X(EXP, exp) X(EXP2, exp2) X(EXP10, exp10) \
    X(LOG, log) X(LOG2, log2) X(LOG10, log10) X(SIN, sin) X(COS, cos) X(TAN, tan) X(ASIN, asin) X(ACOS, acos) X(ATAN, atan) \
    X(SINH, sinh) X(COSH, cosh) X(TANH, tanh) X(ASINH, asinh) X(ACOSH, acosh) X(ATANH, atanh) X(SIGN, sign) X(CEIL, ceil) \
    X(FLOOR, floor) X(TRUNC, trunc) X(RTE, round_ties_to_even) X(RTA, round_ties_to_away) X(ABS, abs)
#define BIN_LIST(X) X(ADD, add) X(SUB, sub) X(MUL, mul) X(DIV, div) X(POW, pow) X(ATAN2, atan2) X(MIN_, min) X(MAX_, max)

template <class T, bool D> static Res fwd_d(OpId op, int route, DIV_ const* a, int p) {
    typedef Arg<T, D> A; typedef typename A::Obj O; typedef Cv<T> C;
    switch (op) {
#define X(E, F) case E: \
        if (route == RT_FLAVOR) return C::from(FL<T>::F(A::r(a[0]))); \
        if (route == RT_STATIC) return C::from(O::F(A::o(a[0]))); \
        if (route == RT_OPER && E == POS) return C::from(+A::o(a[0])); \
        if (route == RT_OPER && E == NEG) return C::from(-A::o(a[0])); \
        return C::from(F(A::o(a[0])));
        UN_LIST(X)
#undef X
#define X(E, F) case E: \
        if (route == RT_FLAVOR) return C::from(FL<T>::F(A::r(a[0]), A::r(a[1]))); \
        if (route == RT_STATIC) return C::from(O::F(A::o(a[0]), A::o(a[1]))); \
        if (route == RT_OPER && E == ADD) return C::from(A::o(a[0]) + A::o(a[1])); \
        if (route == RT_OPER && E == SUB) return C::from(A::o(a[0]) - A::o(a[1])); \
        if (route == RT_OPER && E == MUL) return C::from(A::o(a[0]) * A::o(a[1])); \
        if (route == RT_OPER && E == DIV) return C::from(A::o(a[0]) / A::o(a[1])); \
        return C::from(F(A::o(a[0]), A::o(a[1])));
        BIN_LIST(X)
#undef X
    case FMA:
        if (route == RT_FLAVOR) return C::from(FL<T>::fma(A::r(a[0]), A::r(a[1]), A::r(a[2])));
        if (route == RT_STATIC) return C::from(O::fma(A::o(a[0]), A::o(a[1]), A::o(a[2])));
        return C::from(fma(A::o(a[0]), A::o(a[1]), A::o(a[2])));
    case POWN:
        if (route == RT_FLAVOR) return C::from(FL<T>::pown(A::r(a[0]), p));
        if (route == RT_STATIC) return C::from(O::pown(A::o(a[0]), p));
        return C::from(pown(A::o(a[0]), p));
    default: throw std::logic_error("fwd");
    }
}
template <class T> Res fwd_t(OpId op, int route, bool dec, DIV_ const* a, int p) {
    return dec ? fwd_d<T, true>(op, route, a, p) : fwd_d<T, false>(op, route, a, p);
}

template <class T, class T1, bool D> static Res m1(OpId op, int route, DIV_ const* a, int p) {
    typedef Arg<T1, D> A; typedef typename Arg<T, D>::Obj O; typedef Cv<T> C;
    switch (op) {
#define X(E, F) case E: if (route == RT_FLAVOR) return C::from(FL<T>::F(A::r(a[0]))); return C::from(O::F(A::o(a[0])));
        UN_LIST(X)
#undef X
    case POWN: if (route == RT_FLAVOR) return C::from(FL<T>::pown(A::r(a[0]), p)); return C::from(O::pown(A::o(a[0]), p));
    default: throw std::logic_error("m1");
    }
}
template <class T, class T1, class T2, bool D> static Res m2(OpId op, int route, DIV_ const* a) {
    typedef Arg<T1, D> A; typedef Arg<T2, D> B; typedef typename Arg<T, D>::Obj O; typedef Cv<T> C;
    switch (op) {
#define X(E, F) case E: if (route == RT_FLAVOR) return C::from(FL<T>::F(A::r(a[0]), B::r(a[1]))); return C::from(O::F(A::o(a[0]), B::o(a[1])));
        BIN_LIST(X)
#undef X
    default: throw std::logic_error("m2");
    }
}
template <class T, class T1, class T2, class T3, bool D> static Res m3(int route, DIV_ const* a) {
    typedef Arg<T1, D> A; typedef Arg<T2, D> B; typedef Arg<T3, D> E; typedef typename Arg<T, D>::Obj O; typedef Cv<T> C;
    if (route == RT_FLAVOR) return C::from(FL<T>::fma(A::r(a[0]), B::r(a[1]), E::r(a[2])));
    return C::from(O::fma(A::o(a[0]), B::o(a[1]), E::o(a[2])));
}
template <class T, class T1> static Res m1d(OpId op, int route, bool dec, DIV_ const* a, int p) {
    return dec ? m1<T, T1, true>(op, route, a, p) : m1<T, T1, false>(op, route, a, p);
}
template <class T, class T1, class T2> static Res m2d(OpId op, int route, bool dec, DIV_ const* a) {
    return dec ? m2<T, T1, T2, true>(op, route, a) : m2<T, T1, T2, false>(op, route, a);
}
template <class T, class T1> static Res m2x(OpId op, Ty t2, int route, bool dec, DIV_ const* a) {
    switch (t2) { case TF: return m2d<T, T1, float>(op, route, dec, a); case TD: return m2d<T, T1, double>(op, route, dec, a); default: return m2d<T, T1, LD>(op, route, dec, a); }
}
template <class T, class T1, class T2, class T3> static Res m3d(int route, bool dec, DIV_ const* a) {
    return dec ? m3<T, T1, T2, T3, true>(route, a) : m3<T, T1, T2, T3, false>(route, a);
}
template <class T> Res fwdm_t(OpId op, Ty const* ta, int route, bool dec, DIV_ const* a, int p) {
    int n = op_arity(op);
    if (n == 1) switch (ta[0]) { case TF: return m1d<T, float>(op, route, dec, a, p); case TD: return m1d<T, double>(op, route, dec, a, p); default: return m1d<T, LD>(op, route, dec, a, p); }
    if (n == 2) switch (ta[0]) { case TF: return m2x<T, float>(op, ta[1], route, dec, a); case TD: return m2x<T, double>(op, ta[1], route, dec, a); default: return m2x<T, LD>(op, ta[1], route, dec, a); }
    int k = ta[0] * 9 + ta[1] * 3 + ta[2];
    switch (k) { // a representative selection of the 27 operand combinations
    case 0: return m3d<T, float, float, float>(route, dec, a);
    case 1: return m3d<T, float, float, double>(route, dec, a);
    case 5: return m3d<T, float, double, LD>(route, dec, a);
    case 9: return m3d<T, double, float, float>(route, dec, a);
    case 13: return m3d<T, double, double, double>(route, dec, a);
    case 21: return m3d<T, LD, double, float>(route, dec, a);
    case 26: return m3d<T, LD, LD, LD>(route, dec, a);
    default: throw std::logic_error("m3");
    }
}
}
