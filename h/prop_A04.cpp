// A04: inclusion isotonicity of the forward operations
#include "fwdgen.hpp"
namespace vh {
char const* const prop_id = "A04";
char const* const prop_rule = "a case is a pair of calls of one operation on an operand box and on a randomly shrunk sub-box of it; non-trivial when the sub-box differs from the box and both results are non-empty";
void prop_setup() {}
static IV sub_iv(Src& s, IV const& x, Ty t) {
    if (x.empty) return x;
    if (s.draw(12) == 11) return IV();
    LD a = gen_point(s, x), b = gen_point(s, x);
    IV r = a <= b ? IV(a, b) : IV(b, a);
    // keep the endpoints representable and inside
    r.lo = round_ld(r.lo, t, -1); if (r.lo < x.lo) r.lo = x.lo; if (r.lo == -INFL && x.lo != -INFL) r.lo = x.lo;
    r.hi = round_ld(r.hi, t, 1); if (r.hi > x.hi) r.hi = x.hi;
    switch (s.draw(6)) { case 0: r.lo = x.lo; break; case 1: r.hi = x.hi; break; case 2: if (std::isfinite(x.lo)) { r.lo = r.hi = x.lo; } break; case 3: if (std::isfinite(x.hi)) r.lo = r.hi = x.hi; break; default: break; }
    if (r.lo == INFL || r.hi == -INFL || r.lo > r.hi) return x;
    return r;
}
void run_case(Ctx& c) {
    FwdCase f = gen_fwd(c, 1, 1);
    FwdCase g = f; bool differs = false;
    for (int i = 0; i < f.n; ++i) {
        g.x[i] = sub_iv(c.src, f.x[i], f.ta[i]); if (!same(g.x[i], f.x[i])) differs = true;
        g.a[i].x = g.x[i];
        // the sub-operand's decoration may only be stronger, and must be legal
        g.a[i].d = g.x[i].empty ? TRV : (f.a[i].d == COM && !g.x[i].bounded()) ? DAC : f.x[i].empty ? TRV : f.a[i].d;
    }
    if (!f.mixed) g.route = (int)c.src.draw(4);
    Res r = f.call(), q = g.call();
    if (c.verbose) { c.note("  result = " + show(r)); c.note(g.show()); c.note("  result = " + show(q)); }
    bool ok = q.valid && r.valid && (q.x.empty || (!r.x.empty && r.x.lo <= q.x.lo && q.x.hi <= r.x.hi));
    if (differs && !q.x.empty) c.nontrivial = true;
    if (differs) c.label("proper sub-box"); if (!q.x.empty && same(q.x, r.x)) c.label("equal results");
    if (!ok) c.fail("A04:" + f.site() + ":" + ty_name[f.t], f.show() + "\n  result = " + show(r) + "\nsub-box: " + g.show() + "\n  result = " + show(q) + " is not a subset");
    // the decoration may only get stronger
    bool none = false; for (int i = 0; i < g.n; ++i) if (g.x[i].empty) none = true;
    if (f.dec && !none && !q.x.empty && q.d < r.d) c.fail("A04:dec:" + f.site() + ":" + ty_name[f.t], f.show() + "\n  result = " + show(r) + "\nsub-box: " + g.show() + "\n  result = " + show(q) + " has a weaker decoration");
}
}
