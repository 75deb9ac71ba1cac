#include "qry.hpp"
namespace vh {
template <class T, bool D> struct QArg;
template <class T> struct QArg<T, false> { static typename Cv<T>::rep const& r(DIV_ const& x) { return hold<typename Cv<T>::rep>(x, Cv<T>::mk(x.x)); } static BI<T> const& o(DIV_ const& x) { return hold<BI<T>>(x, Cv<T>::bi(x.x)); } typedef BI<T> Obj; };
template <class T> struct QArg<T, true> { static typename Cv<T>::repd const& r(DIV_ const& x) { return hold<typename Cv<T>::repd>(x, Cv<T>::mkd(x)); } static DI<T> const& o(DIV_ const& x) { return hold<DI<T>>(x, Cv<T>::di(x)); } typedef DI<T> Obj; };
template <class T, class U, bool D> static bool cmp_tu(CmpId op, int route, DIV_ const& a, DIV_ const& b) {
    typedef QArg<T, D> A; typedef QArg<U, D> B; typedef typename A::Obj O;
    switch (op) {
#define X(E, F) case E: if (route == 0) return FL<T>::F(A::r(a), B::r(b)); if (route == 1) return O::F(A::o(a), B::o(b)); return F(A::o(a), B::o(b));
    X(EQUAL, equal) X(SUBSET, subset) X(LESS, less) X(PRECEDES, precedes) X(INTERIOR, interior) X(STRICTLY_LESS, strictly_less) X(STRICTLY_PRECEDES, strictly_precedes) X(DISJOINT, disjoint)
#undef X
#define X(E, F) case E: if (route == 1) return O::F(A::o(a), B::o(b)); return F(A::o(a), B::o(b));
    X(SUPERSET, superset) X(GREATER, greater) X(SUCCEEDS, succeeds) X(CONTAINS_INTERIOR, contains_interior) X(STRICTLY_GREATER, strictly_greater) X(STRICTLY_SUCCEEDS, strictly_succeeds)
#undef X
    case OP_EQ: return A::o(a) == B::o(b);
    case OP_NE: return A::o(a) != B::o(b);
    default: throw std::logic_error("cmp");
    }
}
template <class T, class U, bool D> static int ov_tu(int route, DIV_ const& a, DIV_ const& b) {
    typedef QArg<T, D> A; typedef QArg<U, D> B; typedef typename A::Obj O;
    p1788::overlapping::overlapping_state s = route == 0 ? FL<T>::overlap(A::r(a), B::r(b)) : route == 1 ? O::overlap(A::o(a), B::o(b)) : overlap(A::o(a), B::o(b));
    using p1788::overlapping::overlapping_state;
    switch (s) {
    case overlapping_state::undefined: return 0; case overlapping_state::both_empty: return 1; case overlapping_state::first_empty: return 2; case overlapping_state::second_empty: return 3;
    case overlapping_state::before: return 4; case overlapping_state::meets: return 5; case overlapping_state::overlaps: return 6; case overlapping_state::starts: return 7;
    case overlapping_state::contained_by: return 8; case overlapping_state::finishes: return 9; case overlapping_state::equal: return 10; case overlapping_state::finished_by: return 11;
    case overlapping_state::contains: return 12; case overlapping_state::started_by: return 13; case overlapping_state::overlapped_by: return 14; case overlapping_state::met_by: return 15;
    case overlapping_state::after: return 16; }
    return -1;
}
template <class T, bool D> static bool pred_t_(PredId op, int route, DIV_ const& a) {
    typedef QArg<T, D> A; typedef typename A::Obj O;
    switch (op) {
#define X(E, F) case E: if (route == 0) return FL<T>::F(A::r(a)); if (route == 1) return O::F(A::o(a)); return F(A::o(a));
    X(P_EMPTY, is_empty) X(P_ENTIRE, is_entire) X(P_COMMON, is_common_interval) X(P_SINGLETON, is_singleton)
#undef X
    default: throw std::logic_error("pred");
    }
}
template <class T> static bool nai_t(int route, DIV_ const& a) { if (route == 0) return FL<T>::is_nai(Cv<T>::mkd(a)); if (route == 1) return DI<T>::is_nai(Cv<T>::di(a)); return is_nai(Cv<T>::di(a)); }
template <class T, class M, bool D> static bool mem_t(LD m, int route, DIV_ const& a) {
    typedef QArg<T, D> A; typedef typename A::Obj O;
    if (route == 0) return FL<T>::is_member((M)m, A::r(a)); if (route == 1) return O::is_member((M)m, A::o(a)); return is_member((M)m, A::o(a));
}
template <class T, class U, bool D> static NumR num_tu(NumId op, int route, DIV_ const& a) {
    typedef QArg<U, D> A; typedef typename QArg<T, D>::Obj O;
    NumR q; q.w = 0;
    switch (op) {
#define X(E, F) case E: q.v = route == 0 ? FL<T>::F(A::r(a)) : O::F(A::o(a)); break;
    X(N_INF, inf) X(N_SUP, sup) X(N_MID, mid) X(N_RAD, rad) X(N_WID, wid) X(N_MAG, mag) X(N_MIG, mig)
#undef X
    case N_MIDRAD: { std::pair<T, T> p = route == 0 ? FL<T>::mid_rad(A::r(a)) : O::mid_rad(A::o(a)); q.v = p.first; q.w = p.second; break; }
    default: throw std::logic_error("num");
    }
    return q;
}
template <class T, bool D> static NumR num_free(NumId op, DIV_ const& a) {
    typedef QArg<T, D> A; NumR q; q.w = 0;
    switch (op) {
#define X(E, F) case E: { T v = F(A::o(a)); q.v = v; break; }
    X(N_INF, inf) X(N_SUP, sup) X(N_MID, mid) X(N_RAD, rad) X(N_WID, wid) X(N_MAG, mag) X(N_MIG, mig)
#undef X
    case N_MIDRAD: { std::pair<T, T> p = mid_rad(A::o(a)); q.v = p.first; q.w = p.second; break; }
    default: throw std::logic_error("num");
    }
    return q;
}
template <class T> bool qcmp(CmpId op, Ty t2, int route, bool dec, DIV_ const& a, DIV_ const& b) {
    switch (t2) {
    case TF: return dec ? cmp_tu<T, float, true>(op, route, a, b) : cmp_tu<T, float, false>(op, route, a, b);
    case TD: return dec ? cmp_tu<T, double, true>(op, route, a, b) : cmp_tu<T, double, false>(op, route, a, b);
    default: return dec ? cmp_tu<T, LD, true>(op, route, a, b) : cmp_tu<T, LD, false>(op, route, a, b); }
}
template <class T> int qov(Ty t2, int route, bool dec, DIV_ const& a, DIV_ const& b) {
    switch (t2) {
    case TF: return dec ? ov_tu<T, float, true>(route, a, b) : ov_tu<T, float, false>(route, a, b);
    case TD: return dec ? ov_tu<T, double, true>(route, a, b) : ov_tu<T, double, false>(route, a, b);
    default: return dec ? ov_tu<T, LD, true>(route, a, b) : ov_tu<T, LD, false>(route, a, b); }
}
template <class T> bool qpred(PredId op, int route, bool dec, DIV_ const& a) {
    if (op == P_NAI) return nai_t<T>(route, a);
    return dec ? pred_t_<T, true>(op, route, a) : pred_t_<T, false>(op, route, a);
}
template <class T> bool qmem(Ty tm, LD m, int route, bool dec, DIV_ const& a) {
    switch (tm) {
    case TF: return dec ? mem_t<T, float, true>(m, route, a) : mem_t<T, float, false>(m, route, a);
    case TD: return dec ? mem_t<T, double, true>(m, route, a) : mem_t<T, double, false>(m, route, a);
    default: return dec ? mem_t<T, LD, true>(m, route, a) : mem_t<T, LD, false>(m, route, a); }
}
template <class T> NumR qnum(NumId op, Ty ta, int route, bool dec, DIV_ const& a) {
    if (route == 2) return dec ? num_free<T, true>(op, a) : num_free<T, false>(op, a);
    switch (ta) {
    case TF: return dec ? num_tu<T, float, true>(op, route, a) : num_tu<T, float, false>(op, route, a);
    case TD: return dec ? num_tu<T, double, true>(op, route, a) : num_tu<T, double, false>(op, route, a);
    default: return dec ? num_tu<T, LD, true>(op, route, a) : num_tu<T, LD, false>(op, route, a); }
}
#define VH_QRY_EXT(E, T) E template bool qcmp<T>(CmpId, Ty, int, bool, DIV_ const&, DIV_ const&); E template int qov<T>(Ty, int, bool, DIV_ const&, DIV_ const&); \
    E template bool qpred<T>(PredId, int, bool, DIV_ const&); E template bool qmem<T>(Ty, LD, int, bool, DIV_ const&); E template NumR qnum<T>(NumId, Ty, int, bool, DIV_ const&);
}
