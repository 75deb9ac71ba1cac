// A03: decorations
#include "fwdgen.hpp"
namespace vh {
char const* const prop_id = "A03";
char const* const prop_rule = "a case is one decorated call of a forward operation, operands carrying random legal decorations or being NaI; non-trivial when no operand is empty or NaI, so that the local decoration decides";
void prop_setup() {}
void run_case(Ctx& c) {
    FwdCase f = gen_fwd(c, 1, 2, true);
    Res r = f.call();
    if (c.verbose) c.note("  result = " + show(r));
    int m = COM; bool nai = false;
    for (int i = 0; i < f.n; ++i) { m = std::min(m, (int)f.a[i].d); if (f.a[i].nai()) nai = true; }
    if (nai) {
        c.label("NaI operand");
        if (!r.nai()) c.fail("A03:nai:" + f.site(), f.show() + "\n  result = " + show(r) + ", expected [nai]");
        return;
    }
    Range g = range_of(f.op, f.t, f.x, f.p);
    Dec loc = dec_of(g, f.x, f.n);
    int want = std::min(m, (int)loc);
    if (g.r.empty) want = TRV;
    c.label(std::string("local ") + dec_name[loc]);
    bool ne = true; for (int i = 0; i < f.n; ++i) if (f.x[i].empty) ne = false;
    if (ne) c.nontrivial = true;
    if (!r.valid || r.d != want)
        c.fail(std::string("A03:") + (r.d > want ? "too strong:" : "too weak:") + f.site(), f.show() + "\n  result = " + show(r) + ", true decoration = " + dec_name[want] + " (local " + dec_name[loc] + ", exact range " + show(g.r) + ")");
}
}
