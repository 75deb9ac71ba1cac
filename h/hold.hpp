// Operands of a call as objects.  Operands with equal values may be one and the
// same object; the objects are left as they are by every call (hold_intact).
#ifndef VH_HOLD_HPP
#define VH_HOLD_HPP
#include "num.hpp"
#include <cstring>
#include <new>
#include <vector>
namespace vh {
// 0: every operand is an object of its own, 1: equal operands are one object,
// -1: one or the other, depending on the value
extern thread_local int alias_mode;
extern thread_local unsigned long alias_hits;            // operands that were an object already used
extern thread_local std::vector<bool (*)()>* hold_checks;
inline bool hold_same(LD a, LD b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
inline bool hold_same(DIV_ const& a, DIV_ const& b) {
    return a.d == b.d && a.raw == b.raw && a.x.empty == b.x.empty && ((a.x.empty && !a.raw) || (hold_same(a.x.lo, b.x.lo) && hold_same(a.x.hi, b.x.hi)));
}
inline bool hold_share(DIV_ const& a) {
    if (alias_mode >= 0) return alias_mode == 1;
    unsigned char b[10]; unsigned h = 7; LD v[2] = {a.x.empty ? 0 : a.x.lo, a.x.empty ? 0 : a.x.hi};
    for (LD q : v) { memcpy(b, &q, 10); for (unsigned char c : b) h = h * 31 + c; }
    return (h ^ (h >> 7)) & 1;
}
template <class O> struct Ring {
    enum { N = 8 };
    struct E { alignas(O) unsigned char at[sizeof(O)]; unsigned char image[sizeof(O)]; DIV_ of; bool used; unsigned long last; };
    E e[N]; unsigned long clock;    // the least recently used object is given up: those of the current call are never
    static Ring& get() { static thread_local Ring r; static thread_local bool known = false; if (!known) { known = true; if (!hold_checks) hold_checks = new std::vector<bool (*)()>; hold_checks->push_back(&intact); } return r; }
    Ring() : clock(0) { memset((void*)e, 0, sizeof e); }
    static bool intact() { Ring& r = get(); for (E& q : r.e) if (q.used && memcmp(q.at, q.image, sizeof(O))) return false; return true; }
};
template <class O> O const& hold(DIV_ const& of, O const& v) {
    Ring<O>& r = Ring<O>::get();
    if (hold_share(of)) for (auto& q : r.e) if (q.used && hold_same(q.of, of)) { ++alias_hits; q.last = ++r.clock; return *reinterpret_cast<O const*>(q.at); }
    auto* p = r.e; for (auto& q : r.e) if (q.last < p->last) p = &q;
    auto& q = *p; q.last = ++r.clock;
    memset(q.at, 0, sizeof(O)); new (q.at) O(v); memcpy(q.image, q.at, sizeof(O)); q.of = of; q.used = true;
    return *reinterpret_cast<O const*>(q.at);
}
inline bool hold_intact() { if (hold_checks) for (auto f : *hold_checks) if (!f()) return false; return true; }
}
#endif
