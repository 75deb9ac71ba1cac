#include "red.hpp"
#include "p1788/p1788.hpp"
#include <deque>
namespace vh {
char const* const red_name[N_RED] = {"sum", "sum_abs", "sum_sqr", "dot"};
char const* const rr_name[4] = {"to_nearest", "downward", "upward", "to_zero"};
using p1788::reduction::rnd_mode;
template <class It> static LD go(RedId op, It a, It e, It b, rnd_mode r) {
    switch (op) { case R_SUM: return p1788::reduction::sum(a, e, r); case R_SUM_ABS: return p1788::reduction::sum_abs(a, e, r); case R_SUM_SQR: return p1788::reduction::sum_sqr(a, e, r); default: return p1788::reduction::dot(a, e, b, r); }
}
template <class T> static LD il(RedId op, std::initializer_list<T> a, std::initializer_list<T> b, rnd_mode r) {
    switch (op) { case R_SUM: return p1788::reduction::sum(a, r); case R_SUM_ABS: return p1788::reduction::sum_abs(a, r); case R_SUM_SQR: return p1788::reduction::sum_sqr(a, r); default: return p1788::reduction::dot(a, b, r); }
}
template <class T> static LD rt(RedId op, int rnd, int route, std::vector<LD> const& a, std::vector<LD> const& b) {
    rnd_mode const R[] = {rnd_mode::to_nearest, rnd_mode::downward, rnd_mode::upward, rnd_mode::to_zero}; rnd_mode r = R[rnd];
    std::vector<T> x(a.begin(), a.end()), y(b.begin(), b.end()); y.resize(x.size());
    if (route == 3 && x.size() <= 4) switch (x.size()) {
        case 0: return il<T>(op, {}, {}, r); case 1: return il<T>(op, {x[0]}, {y[0]}, r); case 2: return il<T>(op, {x[0], x[1]}, {y[0], y[1]}, r);
        case 3: return il<T>(op, {x[0], x[1], x[2]}, {y[0], y[1], y[2]}, r); default: return il<T>(op, {x[0], x[1], x[2], x[3]}, {y[0], y[1], y[2], y[3]}, r); }
    if (route == 1) return go<T*>(op, x.data(), x.data() + x.size(), y.data(), r);
    if (route == 2) { std::deque<T> p(x.begin(), x.end()), q(y.begin(), y.end()); return go(op, p.begin(), p.end(), q.begin(), r); }
    if (route == 4) return go<T const*>(op, x.data(), x.data() + x.size(), y.data(), r);
    return go(op, x.begin(), x.end(), y.begin(), r);
}
LD reduce(RedId op, Ty t, int rnd, int route, std::vector<LD> const& a, std::vector<LD> const& b) {
    switch (t) { case TF: return rt<float>(op, rnd, route, a, b); case TD: return rt<double>(op, rnd, route, a, b); default: return rt<LD>(op, rnd, route, a, b); }
}
}
