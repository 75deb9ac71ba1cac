// A05: reverse operations keep every solution
#include "revgen.hpp"
namespace vh {
char const* const prop_id = "A05";
char const* const prop_rule = "a case is one call of a reverse operation plus the constructed solution and up to 4 further sample points of the domain constraint; non-trivial when at least one sampled point provably solves the constraint and the result is a proper subset of the domain constraint";
void prop_setup() {}
void run_case(Ctx& c) {
    Src& s = c.src;
    static std::vector<int> const ops{SQR_REV, ABS_REV, COSH_REV, SIN_REV, COS_REV, TAN_REV, POWN_REV, MUL_REV, SIN_REV, COS_REV, TAN_REV};
    RevCase f = gen_rev(c, ops, 1, 1, true);
    Res r = f.call();
    if (c.verbose) c.note("  result = " + show(r));
    std::string site = std::string("A05:") + rev_name[f.op];
    bool nai = false, emp = f.c.empty || f.dom.empty || (f.op == MUL_REV && f.b.empty);
    for (int i = 0; i < f.n; ++i) { nai = nai || f.a[i].nai(); emp = emp || f.x[i].empty; }
    if (nai) { c.label("NaI operand"); if (!r.nai()) c.fail(site + ":nai", f.show() + "\n  result = " + show(r) + ", expected [nai]"); return; }
    if (!r.valid || r.nai() || (f.dec && r.d != TRV)) c.fail(site + ":invalid", f.show() + "\n  result = " + show(r) + " is not a valid interval" + (f.dec ? " decorated trv" : ""));
    if (emp) { c.label("empty operand"); if (!r.x.empty) c.fail(site + ":empty", f.show() + "\n  result = " + show(r) + ", expected the empty set"); return; }
    // never outside of the domain constraint (rounded outwards to the result type)
    if (!r.x.empty && (r.x.lo < round_ld(f.dom.lo, f.t, -1) || r.x.hi > round_ld(f.dom.hi, f.t, 1)))
        c.fail(site + ":outside", f.show() + "\n  result = " + show(r) + " is not contained in the domain constraint");
    int sol = 0;
    for (int k = 0; k < 5; ++k) {
        LD v = k == 0 && f.has_target ? f.target : gen_point(s, f.dom);
        LD beta = f.op == MUL_REV ? gen_point(s, f.b) : 0;
        M lo(160), hi(160);
        if (f.op == MUL_REV) {
            // v solves when some factor of b works: use the exact solution-set model only for points, via both ends
            bool solves = false;
            for (LD be : {beta, f.b.lo, f.b.hi}) if (std::isfinite(be) && rev_forward(f.op, v, be, 0, lo, hi)) { MpfrState st; if (mpfr_cmp_ld((mpfr_srcptr)lo, f.c.lo) >= 0 && mpfr_cmp_ld((mpfr_srcptr)hi, f.c.hi) <= 0) { solves = true; break; } }
            if (!solves) continue;
        } else {
            if (!rev_forward(f.op, v, 0, f.p, lo, hi)) continue;
            MpfrState st; if (mpfr_cmp_ld((mpfr_srcptr)lo, f.c.lo) < 0 || mpfr_cmp_ld((mpfr_srcptr)hi, f.c.hi) > 0) continue;
        }
        ++sol;
        if (r.x.empty || v < r.x.lo || v > r.x.hi)
            c.fail(site + ":lost", f.show() + "\n  result = " + show(r) + "\n  loses the solution " + hexld(v) + " with value about " + strf("%.20Lg", mpfr_get_ld(lo, MPFR_RNDN)));
    }
    if (sol) { c.label("solution sampled"); if (!same(r.x, f.dom)) c.nontrivial = true; }
}
}
