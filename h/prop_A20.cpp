// A20: invalid operands are detected, valid ones never raise an exception flag
#include "any.hpp"
namespace vh {
char const* const prop_id = "A20";
char const* const prop_rule = "a case is one call of any function with one or more operands that are no interval (unordered, infinite singleton or half-NaN bounds, contradictory decoration) or with valid operands only, started in a random exception state and control word; non-trivial when an operand is invalid, or when all are valid, non-empty and not NaI";
void prop_setup() {}
namespace ex = p1788::exception;
static LD const NaN = std::numeric_limits<LD>::quiet_NaN();
static void spoil(Src& s, DIV_& x, Ty t, bool dec, std::string& how) {
    int k = (int)s.draw(dec ? 8 : 5); Dec d = x.d == ILL ? TRV : x.d; LD lo, hi;
    if (x.x.empty) { LD v = gen_num(s, t, true); lo = hi = v; } else { lo = x.x.lo; hi = x.x.hi; }
    x.raw = true;
    switch (k) {
    case 0: { if (lo == hi) { if (s.draw(2) && std::isfinite(lo)) hi = pred(lo, t); else lo = hi == INFL ? 0 : INFL, hi = std::isfinite(hi) ? hi : 0; } else std::swap(lo, hi); how = "unordered bounds"; break; }
    case 1: lo = hi = INFL; how = "both bounds +inf"; break;
    case 2: lo = hi = -INFL; how = "both bounds -inf"; break;
    case 3: lo = NaN; how = "lower bound NaN"; break;
    case 4: hi = NaN; how = "upper bound NaN"; break;
    case 5: if (!(lo <= hi)) std::swap(lo, hi); d = ILL; how = "decoration ill on a non-empty interval"; break;
    case 6: { d = COM; int w = (int)s.draw(3); if (w != 1) lo = -INFL; if (w != 0) hi = INFL; how = "decoration com on an unbounded interval"; break; }
    default: lo = hi = NaN; d = Dec(s.range(DEF, COM)); how = "empty interval decorated better than trv"; break;
    }
    x.x = IV(lo, hi); x.d = d;
}
void run_case(Ctx& c) {
    Src& s = c.src; bool inv = s.draw(3) != 2; unsigned kinds = ANY_ALL & ~((1u << K_TEXT) | (1u << K_NUMS));
    unsigned st = s.draw(2) ? (unsigned)s.draw(16) : 0, mask = s.draw(3) == 2 ? (unsigned)s.draw(16) : 0;
    if (inv) kinds &= ~(1u << K_REDUCE);
    Any g = gen_any(c, kinds, true); std::string how; bool bad = false;
    if (inv && g.flavor_route()) {
        g.use_flavor_route(); int n = g.nops(); int i = (int)s.draw(n);
        for (int k = 0; k < n; ++k) if (k == i || s.draw(8) == 7) {
            Ty t = g.kind == K_FWD ? (g.f.mixed ? g.f.ta[k] : g.f.t) : g.kind == K_REV ? (g.r.mixed ? g.r.ta[k] : g.r.t) : g.ta[k];
            spoil(s, g.operand(k), t, g.dec, how);
            if (g.kind == K_FWD) g.f.x[k] = g.f.a[k].x; if (g.kind == K_REV) g.r.x[k] = g.r.a[k].x;
        }
        bad = true; c.label("invalid: " + how); if (n > 1) c.label(strf("invalid operand %d of %d", i + 1, n));
    }
    bool nai = false, emp = false; for (int k = 0; k < g.nops(); ++k) { DIV_ const& x = g.operand(k); if (g.dec && x.nai() && !x.raw) nai = true; if (x.x.empty) emp = true; }
    if (!bad && g.kind == K_CONV && g.op == BARE_DEC && nai) { c.label("interval part of NaI"); return; }
    static char const* kn[] = {"forward", "reverse and set", "two-output division", "relation", "predicate", "numeric", "member", "overlap", "conversion", "decoration", "numbers", "text", "printing", "reduction"};
    c.label(kn[g.kind]); c.nontrivial = bad || (!nai && !emp); if (mask) c.label("control word set");
    std::string d = g.show(); if (bad) { d += "\n  operands as passed:"; for (int k = 0; k < g.nops(); ++k) { DIV_ const& x = g.operand(k); d += strf("\n    %d: ", k + 1) + (x.raw ? "[" + hexld(x.x.lo) + "," + hexld(x.x.hi) + "]" + (g.dec ? std::string("_") + dec_name[x.d] : "") + "  (raw)" : show(x.x)); } }
    d += strf("\n  exception state %u, control word %u", st, mask);
    if (c.verbose) c.note(d);
    ex::state() = ex::exception_bits(st); ex::set_throw_exception_cwd(ex::exception_bits(mask));
    std::string r, threw;
    try { r = g.run(); } catch (ex::invalid_operand_exception const&) { threw = "invalid_operand_exception"; } catch (std::exception const& e) { threw = std::string("exception: ") + e.what(); }
    unsigned after = (unsigned)ex::state(); ex::set_throw_exception_cwd(ex::none_bit); exc_clear();
    std::string res = threw.empty() ? "result " + r : "threw " + threw; d += "\n  " + res + strf(", exception state afterwards %u", after);
    bool pr = g.kind == K_PRINT; // the adapter of the printing functions reports the state and an exception itself
    if (bad) {
        std::string want = g.invalid_result();
        if (mask & 8) {
            if (pr ? r.find("Invalid operand") == std::string::npos : threw != "invalid_operand_exception") c.fail("A20:" + g.site() + ":no exception", d + "\n  expected an invalid_operand_exception");
        } else {
            if (!threw.empty()) c.fail("A20:" + g.site() + ":exception", d + "\n  no exception expected");
            if (r != want) c.fail("A20:" + g.site() + ":result", d + "\n  expected " + want);
        }
        if (!pr && after != (st | 8)) c.fail("A20:" + g.site() + ":state", d + strf("\n  expected exception state %u", st | 8));
    } else {
        if (!threw.empty()) c.fail("A20:" + g.site() + ":exception on valid operands", d);
        if (r.find("INVALID") != std::string::npos) c.fail("A20:" + g.site() + ":invalid result", d);
        if (pr ? r.substr(r.size() - 7) != "flags 0" : after != st) c.fail("A20:" + g.site() + ":state changed", d);
    }
}
}
