// A07: two-output division
#include "revgen.hpp"
namespace vh {
char const* const prop_id = "A07";
char const* const prop_rule = "a case is one call of mul_rev_to_pair (bare or decorated, same or mixed bound types); non-trivial when the exact solution set is neither empty nor the whole line";
void prop_setup() {}
void run_case(Ctx& c) {
    Src& s = c.src; Pool pool;
    Ty t = Ty(s.pick(std::vector<int>{TD, TF, TL, TD})), ta[2] = {t, t};
    bool mixed = s.draw(4) == 3, dec = s.draw(2);
    int route = mixed ? (int)s.draw(2) : (int)s.draw(3);
    if (mixed) for (int i = 0; i < 2; ++i) ta[i] = Ty(s.draw(3));
    DIV_ a[2]; bool nai = false;
    for (int i = 0; i < 2; ++i) {
        a[i].x = coerce(gen_iv(s, ta[i], &pool), ta[i]);
        a[i].d = dec ? gen_dec_for(s, a[i].x) : COM;
        if (dec && s.draw(24) == 23) { a[i].d = ILL; a[i].x = IV(); nai = true; }
    }
    IV b = a[0].x, cc = a[1].x;
    std::string d = std::string("mul_rev_to_pair<") + ty_name[t] + "> via " + (route == 0 ? "flavor" : route == 1 ? "static" : "free") + "\n  b (" + ty_name[ta[0]] + ") = " + (dec ? show(a[0]) : show(b)) + "\n  c (" + ty_name[ta[1]] + ") = " + (dec ? show(a[1]) : show(cc));
    if (c.verbose) c.note(d);
    Res r[2]; mul_rev_pair(t, mixed ? ta : nullptr, route, dec, a, r);
    if (c.verbose) c.note("  result = " + show(r[0]) + " , " + show(r[1]));
    c.label(std::string("type:") + ty_name[t]); if (mixed) c.label("mixed types"); if (dec) c.label("decorated");
    std::string key = std::string("A07:") + (mixed ? "mixed" : "same") + (dec ? ":dec" : ":bare");
    std::string m = d + "\n  result = " + show(r[0]) + " , " + show(r[1]);
    if (nai) { c.label("NaI operand"); if (!r[0].nai() || !r[1].nai()) c.fail(key + ":nai", m + ", expected [nai] , [nai]"); return; }
    std::vector<IV> v = mul_pieces(b, cc, t);
    IV e[2]; for (size_t i = 0; i < v.size(); ++i) e[i] = v[i];
    c.label(v.empty() ? "no solution" : v.size() == 1 ? "one piece" : "two pieces");
    if (!v.empty() && !(v.size() == 1 && v[0].entire())) c.nontrivial = true;
    Dec ed = TRV;
    if (dec && !v.empty() && !b.has(0)) { ed = e[0].bounded() ? COM : DAC; for (int i = 0; i < 2; ++i) if (a[i].d < ed) ed = a[i].d; }
    std::string ex = m + "\n  expected " + show(e[0]) + (dec ? std::string("_") + dec_name[ed] : "") + " , " + show(e[1]) + (dec ? "_trv" : "");
    if (!r[0].valid || !r[1].valid) c.fail(key + ":invalid", ex);
    for (int i = 0; i < 2; ++i) if (!same(r[i].x, e[i])) c.fail(key + ":value", ex);
    if (dec && (r[0].d != ed || r[1].d != TRV)) c.fail(key + ":decoration", ex);
}
}
