// A22: results do not depend on what happened before
#include "any.hpp"
#include <cfenv>
#include <locale>
#include <malloc.h>
#include <mpfr.h>
namespace vh {
char const* const prop_id = "A22";
char const* const prop_rule = "a case is a history: up to five generated calls of any function are evaluated once each in the initial state of the process and then again in random order between perturbations (exponent range, default precision, rounding mode and flags of MPFR, freed MPFR caches, setup and teardown of the flavor, exception state, contents of fresh memory, errno, global C++ locale, floating-point rounding mode); non-trivial when at least two calls and one perturbation of MPFR's exponent range or precision precede a repeated call";
static mpfr_exp_t emin0, emax0;
void prop_setup() { emin0 = mpfr_get_emin(); emax0 = mpfr_get_emax(); }
struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } std::string do_grouping() const override { return "\3"; } char do_thousands_sep() const override { return '.'; } };
static std::locale& punct() { static std::locale l(std::locale::classic(), new Punct); return l; }
static bool loc = false;
static void locale(bool p) { if (p != loc) std::locale::global(p ? punct() : std::locale::classic()); loc = p; }
static int frm = FE_TONEAREST; // floating-point rounding mode during the calls
static void reset() { frm = FE_TONEAREST; locale(false);  mpfr_set_emin(emin0); mpfr_set_emax(emax0); mpfr_set_default_prec(53); mpfr_set_default_rounding_mode(MPFR_RNDN); mpfr_clear_flags(); mallopt(M_PERTURB, 0); exc_clear(); }
// the sign of a zero bound has no meaning and depends on the rounding mode
static std::string nozero(std::string s) { for (size_t p; (p = s.find("-0x0p+0(-0)(-)")) != std::string::npos;) s.replace(p, 14, "0x0p+0(0)"); return s; }
void run_case(Ctx& c) {
    Src& s = c.src; int n = s.range(1, 5); std::vector<Any> g; std::string d;
    for (int i = 0; i < n; ++i) { g.push_back(gen_any(c, ANY_ALL, true)); d += strf("call %d: ", i + 1) + g.back().show() + "\n"; }
    if (c.verbose) c.note(d);
    std::vector<std::string> base; std::string hist; bool strong = false, nt = false;
    auto run = [&](int i) { int r0 = frm; std::fesetround(r0); std::string r = g[i].run(); int r1 = std::fegetround(); std::fesetround(FE_TONEAREST); if (r1 != r0) { c.fail("A22:rounding mode:" + g[i].site(), d + hist + strf("\n  call %d changed the floating-point rounding mode", i + 1)); } return r; };
    for (int i = 0; i < n; ++i) { reset(); base.push_back(run(i)); }
    reset(); int steps = s.range(2, 14);
    for (int k = 0; k < steps; ++k) {
        int a = (int)s.draw(15); std::string w;
        switch (a) {
        case 0: { long lo = -(long)s.draw(3) * s.range(1, 400) - 1; mpfr_set_emin(lo); w = strf("mpfr_set_emin(%ld)", lo); strong = true; break; }
        case 1: { long hi = (long)s.draw(3) * s.range(1, 400) + 1; mpfr_set_emax(hi); w = strf("mpfr_set_emax(%ld)", hi); strong = true; break; }
        case 2: { mpfr_prec_t p = s.draw(2) ? s.range(2, 20) : s.range(100, 400); mpfr_set_default_prec(p); w = strf("mpfr_set_default_prec(%ld)", (long)p); strong = true; break; }
        case 3: { mpfr_rnd_t r = (mpfr_rnd_t)s.draw(5); mpfr_set_default_rounding_mode(r); w = strf("mpfr_set_default_rounding_mode(%d)", (int)r); break; }
        case 4: { unsigned m = (unsigned)s.draw(64); mpfr_flags_restore((mpfr_flags_t)m, MPFR_FLAGS_ALL); w = strf("MPFR flags %u", m); break; }
        case 5: { int z = (int)s.draw(5); switch (z) { case 0: mpfr_free_cache(); break; case 1: FL<float>::setup(); break; case 2: FL<LD>::setup(); break; case 3: FL<double>::teardown(); break; default: FL<float>::teardown(); } static char const* N[] = {"mpfr_free_cache", "setup of float", "setup of long double", "teardown of double", "teardown of float"}; w = N[z]; break; }
        case 6: { unsigned m = (unsigned)s.draw(16); p1788::exception::state() = p1788::exception::exception_bits(m); w = strf("exception state %u", m); break; }
        case 7: { int b = (int)s.draw(256); mallopt(M_PERTURB, b); w = strf("fresh memory filled with %d", b); errno = b % 40; break; }
        case 8: { bool p = s.draw(2); locale(p); w = p ? "global C++ locale with decimal comma and digit grouping" : "classic locale"; break; }
        case 9: { static int const R[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO}; static char const* const N[] = {"nearest", "downward", "upward", "towards zero"}; int z = (int)s.draw(4); frm = R[z]; w = std::string("floating-point rounding mode ") + N[z]; break; }
        default: {
            int i = (int)s.draw(n); hist += strf("\n  then call %d", i + 1); std::string r = run(i); if (strong && n >= 2) nt = true;
            if (r != base[i] && !(frm != FE_TONEAREST && nozero(r) == nozero(base[i]))) { std::string m = d + "history:" + hist + "\n  result " + r + "\n  in the initial state: " + base[i]; reset(); c.fail("A22:" + g[i].site(), m); } }
        }
        if (!w.empty()) hist += "\n  " + w;
    }
    if (c.verbose) c.note("history:" + hist);
    reset(); c.nontrivial = nt;
}
}
