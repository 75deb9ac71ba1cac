// A02: forward results are the tightest representable enclosures
#include "fwdgen.hpp"
namespace vh {
char const* const prop_id = "A02";
char const* const prop_rule = "a case is one call of a forward operation (random operation, type, route, operands); non-trivial when the exact result is neither empty nor the entire line";
void prop_setup() {}
void run_case(Ctx& c) {
    FwdCase f = gen_fwd(c, 0, 1);
    Res r = f.call();
    if (c.verbose) c.note("  result = " + show(r));
    Range g = range_of(f.op, f.t, f.x, f.p);
    if (g.r.empty) c.label("empty result"); else if (g.r.entire()) c.label("entire result");
    else { c.nontrivial = true; c.label(g.r.bounded() ? "bounded result" : "half-bounded result"); if (g.r.singleton()) c.label("singleton result"); }
    if (!r.valid || r.nai() || !same(r.x, g.r))
        c.fail("A02:" + f.site() + ":" + ty_name[f.t], f.show() + "\n  result   = " + show(r) + "\n  tightest = " + show(g.r));
}
}
