// A09: intersection and convex hull
#include "revgen.hpp"
#include <algorithm>
namespace vh {
char const* const prop_id = "A09";
char const* const prop_rule = "a case is one call of intersection or convex_hull (bare or decorated, same or mixed bound types) together with the call with exchanged operands; non-trivial when both operands are non-empty and neither contains the other";
void prop_setup() {}
void run_case(Ctx& c) {
    Src& s = c.src; Pool pool;
    RevId op = s.draw(2) ? INTERSECTION : CONVEX_HULL;
    Ty t = Ty(s.pick(std::vector<int>{TD, TF, TL, TD})), ta[2] = {t, t};
    bool mixed = s.draw(2), dec = s.draw(3) == 2;
    int route = mixed ? (int)s.draw(2) : (int)s.draw(3);
    if (mixed) for (int i = 0; i < 2; ++i) ta[i] = Ty(s.draw(3));
    DIV_ a[2]; bool nai = false;
    a[0].x = coerce(gen_iv(s, ta[0], &pool), ta[0]); a[1].x = gen_iv_near(s, ta[1], a[0].x, pool);
    for (int i = 0; i < 2; ++i) { a[i].d = dec ? gen_dec_for(s, a[i].x) : COM; if (dec && s.draw(24) == 23) { a[i].d = ILL; a[i].x = IV(); nai = true; } }
    IV x = a[0].x, y = a[1].x, e;
    if (op == INTERSECTION) { if (!x.empty && !y.empty) { LD l = std::max(x.lo, y.lo), h = std::min(x.hi, y.hi); if (l <= h) e = IV(l, h); } }
    else if (x.empty) e = y; else if (y.empty) e = x; else e = IV(std::min(x.lo, y.lo), std::max(x.hi, y.hi));
    if (!e.empty) { e = IV(round_ld(e.lo, t, -1), round_ld(e.hi, t, 1)); if (e.lo == INFL) e.lo = t_max(t); if (e.hi == -INFL) e.hi = -t_max(t); }
    auto sub = [](IV const& p, IV const& q) { return p.empty || (!q.empty && q.lo <= p.lo && p.hi <= q.hi); };
    if (!x.empty && !y.empty && !sub(x, y) && !sub(y, x)) c.nontrivial = true;
    std::string d = std::string(rev_name[op]) + "<" + ty_name[t] + "> via " + (route == 0 ? "flavor" : route == 1 ? "static" : "free") + "\n  x (" + ty_name[ta[0]] + ") = " + (dec ? show(a[0]) : show(x)) + "\n  y (" + ty_name[ta[1]] + ") = " + (dec ? show(a[1]) : show(y));
    if (c.verbose) c.note(d);
    c.label(rev_name[op]); c.label(std::string("type:") + ty_name[t]); if (mixed) c.label("mixed types"); if (dec) c.label("decorated"); if (e.empty) c.label("empty result");
    std::string key = std::string("A09:") + rev_name[op] + (mixed ? ":mixed" : ":same");
    for (int sw = 0; sw < 2; ++sw) {
        if (sw) { std::swap(a[0], a[1]); std::swap(ta[0], ta[1]); }
        Res r = rev(op, t, mixed ? ta : nullptr, route, dec, a, 2, 0);
        if (c.verbose) c.note("  result = " + show(r));
        std::string m = d + (sw ? "\n  (operands exchanged)" : "") + "\n  result = " + show(r);
        if (nai) { c.label("NaI operand"); if (!r.nai()) c.fail(key + ":nai", m + ", expected [nai]"); continue; }
        std::string ex = m + "\n  expected " + show(e) + (dec ? "_trv" : "");
        if (!r.valid || r.nai() || (dec && r.d != TRV)) c.fail(key + ":invalid", ex);
        if (!same(r.x, e)) c.fail(key + ":value", ex);
    }
}
}
