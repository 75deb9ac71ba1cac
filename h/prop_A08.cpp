// A08: cancellative addition and subtraction
#include "revgen.hpp"
namespace vh {
char const* const prop_id = "A08";
char const* const prop_rule = "a case is one call of cancel_plus or cancel_minus (bare or decorated, same or mixed bound types); non-trivial when both operands are non-empty and bounded";
void prop_setup() {}
void run_case(Ctx& c) {
    Src& s = c.src; Pool pool;
    RevId op = s.draw(2) ? CANCEL_PLUS : CANCEL_MINUS;
    Ty t = Ty(s.pick(std::vector<int>{TD, TF, TL, TD})), ta[2] = {t, t};
    bool mixed = s.draw(3) == 2, dec = s.draw(3) == 2;
    int route = mixed ? (int)s.draw(2) : (int)s.draw(3);
    if (mixed) for (int i = 0; i < 2; ++i) ta[i] = Ty(s.draw(3));
    DIV_ a[2]; bool nai = false;
    IV y = coerce(gen_iv(s, ta[1], &pool), ta[1]), x;
    switch (s.draw(4)) {   // x: often y shifted, so that the widths (nearly) agree
    case 0: x = coerce(gen_iv(s, ta[0], &pool), ta[0]); break;
    case 1: x = gen_iv_near(s, ta[0], y, pool); break;
    default: if (y.bounded()) { LD h = gen_rel(s, ta[0], pool), k = gen_rel(s, ta[0], pool); if (s.draw(3)) k = h; x = IV(round_ld(y.lo + h, ta[0], 0), round_ld(y.hi + k, ta[0], 0));
                 int n = s.range(-2, 2); while (n > 0) x.hi = succ(x.hi, ta[0]), --n; while (n < 0) x.lo = pred(x.lo, ta[0]), ++n;
                 if (!(x.lo <= x.hi) || x.lo == INFL || x.hi == -INFL) x = IV(0, 1); }
             else x = coerce(gen_iv(s, ta[0], &pool), ta[0]); }
    if (op == CANCEL_PLUS && !y.empty && s.draw(2)) y = IV(-y.hi, -y.lo);
    a[0].x = x; a[1].x = y;
    for (int i = 0; i < 2; ++i) { a[i].d = dec ? gen_dec_for(s, a[i].x) : COM; if (dec && s.draw(24) == 23) { a[i].d = ILL; a[i].x = IV(); nai = true; } }
    x = a[0].x; y = a[1].x;
    std::string d = std::string(rev_name[op]) + "<" + ty_name[t] + "> via " + (route == 0 ? "flavor" : route == 1 ? "static" : "free") + "\n  x (" + ty_name[ta[0]] + ") = " + (dec ? show(a[0]) : show(x)) + "\n  y (" + ty_name[ta[1]] + ") = " + (dec ? show(a[1]) : show(y));
    if (c.verbose) c.note(d);
    Res r = rev(op, t, mixed ? ta : nullptr, route, dec, a, 2, 0);
    if (c.verbose) c.note("  result = " + show(r));
    c.label(rev_name[op]); c.label(std::string("type:") + ty_name[t]); if (mixed) c.label("mixed types"); if (dec) c.label("decorated");
    std::string key = std::string("A08:") + rev_name[op] + (mixed ? ":mixed" : ":same"), m = d + "\n  result = " + show(r);
    if (nai) { c.label("NaI operand"); if (!r.nai()) c.fail(key + ":nai", m + ", expected [nai]"); return; }
    IV z = op == CANCEL_PLUS && !y.empty ? IV(-y.hi, -y.lo) : y, e;
    bool ux = !x.empty && !x.bounded(), uy = !z.empty && !z.bounded();
    if (ux || uy) { e = IV(-INFL, INFL); c.label("unbounded operand"); }
    else if (x.empty) { e = IV(); c.label("first operand empty"); }
    else if (z.empty) { e = IV(-INFL, INFL); c.label("second operand empty"); }
    else {
        c.nontrivial = true;
        int w = cmp_sum(x.hi, z.lo, z.hi, x.lo);
        c.label(w < 0 ? "wid(x) < wid(y)" : w == 0 ? "wid(x) = wid(y)" : "wid(x) > wid(y)");
        if (w < 0) e = IV(-INFL, INFL); else e = IV(rnd_op('-', x.lo, z.lo, t, -1), rnd_op('-', x.hi, z.hi, t, 1));
    }
    std::string ex = m + "\n  expected " + show(e) + (dec ? "_trv" : "");
    if (!r.valid || r.nai() || (dec && r.d != TRV)) c.fail(key + ":invalid", ex);
    if (!same(r.x, e)) c.fail(key + ":value", ex);
}
}
