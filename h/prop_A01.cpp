// A01: forward results enclose every point value
#include "fwdgen.hpp"
namespace vh {
char const* const prop_id = "A01";
char const* const prop_rule = "a case is one call of a forward operation (random operation, type, route, operand types, decorations, operands) plus up to 6 sample points of the operand box; non-trivial when at least one sample point lies in the domain of the operation and the result is not the entire line";
void prop_setup() {}
void run_case(Ctx& c) {
    Src& s = c.src;
    FwdCase f = gen_fwd(c, 1, 1);
    Res r = f.call();
    if (c.verbose) c.note("  result = " + show(r));
    for (int i = 0; i < f.n; ++i) if (f.x[i].empty) { c.label("empty operand"); return; }
    int inside = 0;
    for (int k = 0; k < 6; ++k) {
        LD pt[3] = {0, 0, 0};
        for (int i = 0; i < f.n; ++i) pt[i] = gen_point(s, f.x[i]);
        if (f.n == 3 && k == 5) { } 
        M lo(160), hi(160);
        if (!point_value(f.op, pt, f.p, lo, hi)) continue;
        ++inside;
        // the exact value v satisfies lo <= v <= hi, adjacent 160 bit numbers
        bool ok = r.valid && !r.x.empty && !r.nai();
        if (ok) { MpfrState st; M l = mk(r.x.lo), u = mk(r.x.hi); ok = mpfr_cmp((mpfr_srcptr)l, (mpfr_srcptr)hi) <= 0 && mpfr_cmp((mpfr_srcptr)u, (mpfr_srcptr)lo) >= 0;
            // strict side: an inexact value must not fall outside by less than one 160 bit ulp
            if (ok && mpfr_cmp((mpfr_srcptr)lo, (mpfr_srcptr)hi) != 0) ok = mpfr_cmp((mpfr_srcptr)l, (mpfr_srcptr)lo) <= 0 && mpfr_cmp((mpfr_srcptr)u, (mpfr_srcptr)hi) >= 0; }
        if (!ok) {
            std::string m = f.show() + "\n  result = " + show(r) + "\n  does not contain the value at the point (";
            for (int i = 0; i < f.n; ++i) m += (i ? ", " : "") + hexld(pt[i]);
            c.fail("A01:" + f.site() + ":" + ty_name[f.t], m + "), about " + strf("%.20Lg", mpfr_get_ld(lo, MPFR_RNDN)));
        }
    }
    if (inside) { c.label("points in the domain"); if (!r.x.entire()) c.nontrivial = true; }
    else c.label("no point in the domain");
}
}
