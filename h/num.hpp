// Numbers of the three binary formats, carried exactly in long double, and
// generators for them.  Contains no code of the library under test.
#ifndef VH_NUM_HPP
#define VH_NUM_HPP
#include "core.hpp"
#include <cmath>
#include <limits>
namespace vh {

enum Ty { TF = 0, TD = 1, TL = 2 };
extern char const* const ty_name[3];
struct Fmt { int p; int emin; int emax; };  // 0.1xxx * 2^e, emin <= e <= emax normal
extern Fmt const fmt[3];
LD t_max(Ty), t_dmin(Ty), t_nmin(Ty), t_eps(Ty);
LD succ(LD x, Ty t);
LD pred(LD x, Ty t);
bool representable(LD x, Ty t);
LD const INFL = std::numeric_limits<LD>::infinity();

// interval; empty or [lo,hi] with lo<=hi, lo<inf, hi>-inf
struct IV {
    bool empty = true; LD lo = 0, hi = 0;
    IV() {}
    IV(LD l, LD h) : empty(false), lo(l), hi(h) {}
    bool bounded() const { return !empty && std::isfinite(lo) && std::isfinite(hi); }
    bool singleton() const { return !empty && lo == hi; }
    bool entire() const { return !empty && lo == -INFL && hi == INFL; }
    bool has(LD x) const { return !empty && lo <= x && x <= hi && std::isfinite(x); }
};
inline bool same(IV const& a, IV const& b) { return a.empty == b.empty && (a.empty || (a.lo == b.lo && a.hi == b.hi)); }
std::string show(IV const&);

// decorations, numeric strength 0..4
enum Dec { ILL = 0, TRV = 1, DEF = 2, DAC = 3, COM = 4 };
extern char const* const dec_name[5];
struct DIV_ { IV x; Dec d = COM; bool raw = false; /* raw: pass bounds and decoration as they are */ bool nai() const { return d == ILL; } };
std::string show(DIV_ const&);

// one number of format t. `fin`: only finite.
LD gen_num(Src& s, Ty t, bool fin = false);
// number biased to useful arguments of bounded magnitude (for trig etc.)
LD gen_mod(Src& s, Ty t);
struct Pool { std::vector<LD> v; void add(LD x) { if (v.size() < 12) v.push_back(x); } void add(IV const& x) { if (!x.empty) { add(x.lo); add(x.hi); } } };
LD gen_rel(Src& s, Ty t, Pool const& p);   // maybe near a pooled value
IV gen_iv(Src& s, Ty t, Pool* p = nullptr, bool allow_empty = true);
Dec gen_dec_for(Src& s, IV const& x);      // a decoration that is legal for x
LD gen_point(Src& s, IV const& x);         // a finite long double inside x
LD round_ld(LD x, Ty t, int dir);          // dir -1 down, +1 up, 0 nearest
}
#endif
