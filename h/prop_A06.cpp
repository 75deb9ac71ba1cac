// A06: tightness of the algebraic reverse operations
#include "revgen.hpp"
namespace vh {
char const* const prop_id = "A06";
char const* const prop_rule = "a case is one call of sqr_rev, abs_rev, cosh_rev, pown_rev or mul_rev; non-trivial when the exact solution set is non-empty and not the whole domain constraint";
void prop_setup() {}
void run_case(Ctx& c) {
    static std::vector<int> const ops{SQR_REV, ABS_REV, COSH_REV, POWN_REV, MUL_REV, POWN_REV, MUL_REV};
    RevCase f = gen_rev(c, ops, 0, 1, false);
    Res r = f.call();
    if (c.verbose) c.note("  result = " + show(r));
    IV in, out; rev_hull(f, in, out);
    if (!in.empty && !same(in, f.dom)) c.nontrivial = true;
    if (in.empty) c.label("no solution");
    auto sub = [](IV const& a, IV const& b) { return a.empty || (!b.empty && b.lo <= a.lo && a.hi <= b.hi); };
    std::string m = f.show() + "\n  result   = " + show(r) + "\n  tightest = " + show(in) + (same(in, out) ? "" : " (closure " + show(out) + ")");
    std::string site = std::string("A06:") + rev_name[f.op] + (f.op == POWN_REV ? (f.p < 0 ? (f.p % 2 ? ":p<0 odd" : ":p<0 even") : (f.p % 2 ? ":p>0 odd" : ":p>0 even")) : "") + ":" + ty_name[f.t];
    if (!r.valid || r.nai()) c.fail(site + ":invalid", m);
    if (!sub(in, r.x)) c.fail(site + ":unsound", m);
    if (!sub(r.x, out)) c.fail(site + ":wide", m);
}
}
