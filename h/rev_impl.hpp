#include "rev.hpp"
namespace vh {
template <class T, bool D> struct RArg;
template <class T> struct RArg<T, false> { static typename Cv<T>::rep const& r(DIV_ const& x) { return hold<typename Cv<T>::rep>(x, Cv<T>::mk(x.x)); } static BI<T> const& o(DIV_ const& x) { return hold<BI<T>>(x, Cv<T>::bi(x.x)); } typedef BI<T> Obj; };
template <class T> struct RArg<T, true> { static typename Cv<T>::repd const& r(DIV_ const& x) { return hold<typename Cv<T>::repd>(x, Cv<T>::mkd(x)); } static DI<T> const& o(DIV_ const& x) { return hold<DI<T>>(x, Cv<T>::di(x)); } typedef DI<T> Obj; };

#define REV1(X) X(SQR_REV, sqr_rev) X(ABS_REV, abs_rev) X(COSH_REV, cosh_rev) X(SIN_REV, sin_rev) X(COS_REV, cos_rev) X(TAN_REV, tan_rev)
#define SET2(X) X(CANCEL_PLUS, cancel_plus) X(CANCEL_MINUS, cancel_minus) X(INTERSECTION, intersection) X(CONVEX_HULL, convex_hull)
template <class T, bool D> static Res rev_same(RevId op, int route, DIV_ const* a, int n, int p) {
    typedef RArg<T, D> A; typedef typename A::Obj O; typedef Cv<T> C;
    switch (op) {
#define X(E, F) case E: \
        if (n == 1) { if (route == 0) return C::from(FL<T>::F(A::r(a[0]))); if (route == 1) return C::from(O::F(A::o(a[0]))); return C::from(F(A::o(a[0]))); } \
        if (route == 0) return C::from(FL<T>::F(A::r(a[0]), A::r(a[1]))); if (route == 1) return C::from(O::F(A::o(a[0]), A::o(a[1]))); return C::from(F(A::o(a[0]), A::o(a[1])));
        REV1(X)
#undef X
#define X(E, F) case E: \
        if (route == 0) return C::from(FL<T>::F(A::r(a[0]), A::r(a[1]))); if (route == 1) return C::from(O::F(A::o(a[0]), A::o(a[1]))); return C::from(F(A::o(a[0]), A::o(a[1])));
        SET2(X)
#undef X
    case POWN_REV:
        if (n == 1) { if (route == 0) return C::from(FL<T>::pown_rev(A::r(a[0]), p)); if (route == 1) return C::from(O::pown_rev(A::o(a[0]), p)); return C::from(pown_rev(A::o(a[0]), p)); }
        if (route == 0) return C::from(FL<T>::pown_rev(A::r(a[0]), A::r(a[1]), p)); if (route == 1) return C::from(O::pown_rev(A::o(a[0]), A::o(a[1]), p)); return C::from(pown_rev(A::o(a[0]), A::o(a[1]), p));
    case MUL_REV:
        if (n == 2) { if (route == 0) return C::from(FL<T>::mul_rev(A::r(a[0]), A::r(a[1]))); if (route == 1) return C::from(O::mul_rev(A::o(a[0]), A::o(a[1]))); return C::from(mul_rev(A::o(a[0]), A::o(a[1]))); }
        if (route == 0) return C::from(FL<T>::mul_rev(A::r(a[0]), A::r(a[1]), A::r(a[2]))); if (route == 1) return C::from(O::mul_rev(A::o(a[0]), A::o(a[1]), A::o(a[2]))); return C::from(mul_rev(A::o(a[0]), A::o(a[1]), A::o(a[2])));
    default: throw std::logic_error("rev_same");
    }
}
template <class T, class T1, bool D> static Res rev_m1(RevId op, int route, DIV_ const* a, int p) {
    typedef RArg<T1, D> A; typedef typename RArg<T, D>::Obj O; typedef Cv<T> C;
    switch (op) {
#define X(E, F) case E: if (route == 0) return C::from(FL<T>::F(A::r(a[0]))); return C::from(O::F(A::o(a[0])));
        REV1(X)
#undef X
    case POWN_REV: if (route == 0) return C::from(FL<T>::pown_rev(A::r(a[0]), p)); return C::from(O::pown_rev(A::o(a[0]), p));
    default: throw std::logic_error("rev_m1");
    }
}
template <class T, class T1, class T2, bool D> static Res rev_m2(RevId op, int route, DIV_ const* a, int n, int p) {
    typedef RArg<T1, D> A; typedef RArg<T2, D> B; typedef typename RArg<T, D>::Obj O; typedef Cv<T> C;
    switch (op) {
#define X(E, F) case E: if (route == 0) return C::from(FL<T>::F(A::r(a[0]), B::r(a[1]))); return C::from(O::F(A::o(a[0]), B::o(a[1])));
        REV1(X) SET2(X)
#undef X
    case POWN_REV: if (route == 0) return C::from(FL<T>::pown_rev(A::r(a[0]), B::r(a[1]), p)); return C::from(O::pown_rev(A::o(a[0]), B::o(a[1]), p));
    case MUL_REV: if (route == 0) return C::from(FL<T>::mul_rev(A::r(a[0]), B::r(a[1]))); return C::from(O::mul_rev(A::o(a[0]), B::o(a[1])));
    default: throw std::logic_error("rev_m2");
    }
}
template <class T, class T1, class T2, class T3, bool D> static Res rev_m3(int route, DIV_ const* a) {
    typedef RArg<T1, D> A; typedef RArg<T2, D> B; typedef RArg<T3, D> E; typedef typename RArg<T, D>::Obj O; typedef Cv<T> C;
    if (route == 0) return C::from(FL<T>::mul_rev(A::r(a[0]), B::r(a[1]), E::r(a[2]))); return C::from(O::mul_rev(A::o(a[0]), B::o(a[1]), E::o(a[2])));
}
template <class T, bool D> static Res rev_mx(RevId op, Ty const* ta, int route, DIV_ const* a, int n, int p) {
    if (n == 1) switch (ta[0]) { case TF: return rev_m1<T, float, D>(op, route, a, p); case TD: return rev_m1<T, double, D>(op, route, a, p); default: return rev_m1<T, LD, D>(op, route, a, p); }
    if (n == 2) switch (ta[0] * 3 + ta[1]) {
    case 0: return rev_m2<T, float, float, D>(op, route, a, n, p); case 1: return rev_m2<T, float, double, D>(op, route, a, n, p); case 2: return rev_m2<T, float, LD, D>(op, route, a, n, p);
    case 3: return rev_m2<T, double, float, D>(op, route, a, n, p); case 4: return rev_m2<T, double, double, D>(op, route, a, n, p); case 5: return rev_m2<T, double, LD, D>(op, route, a, n, p);
    case 6: return rev_m2<T, LD, float, D>(op, route, a, n, p); case 7: return rev_m2<T, LD, double, D>(op, route, a, n, p); default: return rev_m2<T, LD, LD, D>(op, route, a, n, p); }
    switch (ta[0] * 9 + ta[1] * 3 + ta[2]) {
    case 0: return rev_m3<T, float, float, float, D>(route, a);
    case 1: return rev_m3<T, float, float, double, D>(route, a);
    case 5: return rev_m3<T, float, double, LD, D>(route, a);
    case 9: return rev_m3<T, double, float, float, D>(route, a);
    case 13: return rev_m3<T, double, double, double, D>(route, a);
    case 21: return rev_m3<T, LD, double, float, D>(route, a);
    case 26: return rev_m3<T, LD, LD, LD, D>(route, a);
    default: throw std::logic_error("rev_m3");
    }
}
template <class T> Res rev_t(RevId op, Ty const* ta, int route, bool dec, DIV_ const* a, int n, int p) {
    if (!ta) return dec ? rev_same<T, true>(op, route, a, n, p) : rev_same<T, false>(op, route, a, n, p);
    return dec ? rev_mx<T, true>(op, ta, route, a, n, p) : rev_mx<T, false>(op, ta, route, a, n, p);
}
template <class T, bool D> static void mrp_same(int route, DIV_ const* a, Res out[2]) {
    typedef RArg<T, D> A; typedef typename A::Obj O; typedef Cv<T> C;
    if (route == 0) { auto r = FL<T>::mul_rev_to_pair(A::r(a[0]), A::r(a[1])); out[0] = C::from(r.first); out[1] = C::from(r.second); }
    else if (route == 1) { auto r = O::mul_rev_to_pair(A::o(a[0]), A::o(a[1])); out[0] = C::from(r.first); out[1] = C::from(r.second); }
    else { auto r = mul_rev_to_pair(A::o(a[0]), A::o(a[1])); out[0] = C::from(r.first); out[1] = C::from(r.second); }
}
template <class T, class T1, class T2, bool D> static void mrp_m(int route, DIV_ const* a, Res out[2]) {
    typedef RArg<T1, D> A; typedef RArg<T2, D> B; typedef typename RArg<T, D>::Obj O; typedef Cv<T> C;
    if (route == 0) { auto r = FL<T>::mul_rev_to_pair(A::r(a[0]), B::r(a[1])); out[0] = C::from(r.first); out[1] = C::from(r.second); }
    else { auto r = O::mul_rev_to_pair(A::o(a[0]), B::o(a[1])); out[0] = C::from(r.first); out[1] = C::from(r.second); }
}
template <class T, bool D> static void mrp_x(Ty const* ta, int route, DIV_ const* a, Res out[2]) {
    switch (ta[0] * 3 + ta[1]) {
    case 0: return mrp_m<T, float, float, D>(route, a, out); case 1: return mrp_m<T, float, double, D>(route, a, out); case 2: return mrp_m<T, float, LD, D>(route, a, out);
    case 3: return mrp_m<T, double, float, D>(route, a, out); case 4: return mrp_m<T, double, double, D>(route, a, out); case 5: return mrp_m<T, double, LD, D>(route, a, out);
    case 6: return mrp_m<T, LD, float, D>(route, a, out); case 7: return mrp_m<T, LD, double, D>(route, a, out); default: return mrp_m<T, LD, LD, D>(route, a, out); }
}
template <class T> void mrp_t(Ty const* ta, int route, bool dec, DIV_ const* a, Res out[2]) {
    if (!ta) { if (dec) mrp_same<T, true>(route, a, out); else mrp_same<T, false>(route, a, out); }
    else { if (dec) mrp_x<T, true>(ta, route, a, out); else mrp_x<T, false>(ta, route, a, out); }
}
}
