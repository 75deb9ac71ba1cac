// A27: the periodic reverse operations stop next to the outermost solutions
#include "revgen.hpp"
#include "fwdgen.hpp"
#include <algorithm>
namespace vh {
char const* const prop_id = "A27";
char const* const prop_rule = "a case is one call of sin_rev, cos_rev or tan_rev; non-trivial when the result has a bound that is inside the range in which tightness is claimed and the solution set is not the whole domain constraint";
void prop_setup() {}
void run_case(Ctx& c) {
    static std::vector<int> const ops{SIN_REV, COS_REV, TAN_REV};
    RevCase f = gen_rev(c, ops, 1, 1, false);
    Res r = f.call();
    if (c.verbose) c.note("  result = " + show(r));
    if (r.x.empty) { c.label("empty result"); return; }
    std::string site = std::string("A27:") + rev_name[f.op] + ":" + ty_name[f.t];
    OpId op = f.op == SIN_REV ? SIN : f.op == COS_REV ? COS : TAN;
    if (f.c.empty || f.dom.empty || (op != TAN && (f.c.hi < -1 || f.c.lo > 1))) c.fail(site + ":no solution", f.show() + "\n  result = " + show(r) + ", expected the empty set");
    // type in which the operation is carried out
    Ty w = f.t; for (int i = 0; i < f.n; ++i) w = std::max(w, f.ta[i]);
    LD limit = ldexpl(1, std::min(fmt[w].p, 63) - 2);
    for (int k = 0; k < 2; ++k) {
        LD v = k ? r.x.hi : r.x.lo, b = k ? f.dom.hi : f.dom.lo;
        // an unreduced bound: the bound of the domain constraint, or, if nothing is found next to it, the other one
        if (std::isinf(v) || fabsl(v) >= limit || (fabsl(b) > limit && !std::isinf(b)) || std::isinf(b)) continue;
        if (fabsl(v) > t_max(f.t) / 4) continue;
        LD m = std::max(fabsl(v), 4.0L), tol = 16 * (succ(round_ld(m, f.t, 1), f.t) - round_ld(m, f.t, 1));
        IV y(v - tol, v + tol); Range g = range_of(op, TL, &y, 0);
        c.nontrivial = c.nontrivial || !same(r.x, f.dom);
        if (g.r.empty || (g.r.lo <= f.c.hi && f.c.lo <= g.r.hi)) continue;
        c.fail(site + (k ? ":upper" : ":lower"), f.show() + "\n  result = " + show(r) + "\n  no solution near the " + (k ? "upper" : "lower") + " bound: " + op_name[op] + show(y) + " = " + show(g.r));
    }
}
}
