// A11: overlap relation
#include "qry.hpp"
#include "revgen.hpp"
namespace vh {
char const* const prop_id = "A11";
char const* const prop_rule = "a case is one pair of intervals (bound types drawn independently, bounds shared or adjacent in most cases) put through overlap in both orders; non-trivial when both are non-empty and neither before nor after the other";
void prop_setup() {}
static int oracle(IV const& x, IV const& y) {
    if (x.empty && y.empty) return 1;
    if (x.empty) return 2;
    if (y.empty) return 3;
    if (x.hi < y.lo) return 4;
    if (y.hi < x.lo) return 16;
    bool le = x.lo == y.lo, ue = x.hi == y.hi;
    if (le && ue) return 10;
    if (le) return x.hi < y.hi ? 7 : 13;
    if (ue) return x.lo < y.lo ? 11 : 9;
    if (x.lo < y.lo && y.hi < x.hi) return 12;
    if (y.lo < x.lo && x.hi < y.hi) return 8;
    if (x.hi == y.lo) return 5;
    if (y.hi == x.lo) return 15;
    return x.lo < y.lo ? 6 : 14;
}
void run_case(Ctx& c) {
    Src& s = c.src; Pool pool;
    Ty t[2] = {Ty(s.draw(3)), Ty(s.draw(3))}; if (s.draw(2)) t[1] = t[0];
    bool dec = s.draw(3) == 2; int route = (int)s.draw(3);
    DIV_ a[2]; bool nai = false;
    a[0].x = coerce(gen_iv(s, t[0], &pool), t[0]); a[1].x = gen_iv_near(s, t[1], a[0].x, pool);
    if (s.draw(12) == 11) a[0].x = IV();
    for (int i = 0; i < 2; ++i) { a[i].d = dec ? gen_dec_for(s, a[i].x) : COM; if (dec && s.draw(16) == 15) { a[i].d = ILL; a[i].x = IV(); nai = true; } }
    if (t[0] != t[1]) c.label("mixed types"); if (dec) c.label("decorated"); if (nai) c.label("NaI operand");
    for (int sw = 0; sw < 2; ++sw) {
        if (sw) { std::swap(a[0], a[1]); std::swap(t[0], t[1]); }
        std::string d = std::string("overlap via ") + (route == 0 ? "flavor" : route == 1 ? "static" : "free") + "\n  x (" + ty_name[t[0]] + ") = " + (dec ? show(a[0]) : show(a[0].x)) + "\n  y (" + ty_name[t[1]] + ") = " + (dec ? show(a[1]) : show(a[1].x));
        int g = overlap2(t[0], t[1], route, dec, a[0], a[1]), e = nai ? 0 : oracle(a[0].x, a[1].x);
        if (c.verbose) c.note(d + "\n  result " + (g < 0 ? "?" : ov_name[g]));
        c.label(std::string("state:") + ov_name[e]);
        if (e >= 5 && e <= 15) c.nontrivial = true;
        if (g != e) c.fail(std::string("A11:") + ov_name[e], d + "\n  result " + (g < 0 ? "?" : ov_name[g]) + ", expected " + ov_name[e]);
    }
}
}
