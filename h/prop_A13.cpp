// A13: constructors and conversions
#include "con.hpp"
#include "revgen.hpp"
namespace vh {
char const* const prop_id = "A13";
char const* const prop_rule = "a case is one construction (two numbers, two numbers and a decoration, conversion between interval kinds or bound types, constant) with all types drawn independently; non-trivial when the source is a non-empty interval or a pair of ordered numbers and the result type cannot represent both source bounds, or the source is invalid";
void prop_setup() {}
static bool ok2(LD lo, LD hi) { return lo <= hi && lo < INFL && hi > -INFL; }
static IV hull(LD lo, LD hi, Ty t) { LD a = round_ld(lo, t, -1), b = round_ld(hi, t, 1); return IV(a, b); }
static std::string want(bool nai, IV const& x, int d, bool dec) { Res r; r.x = x; r.dec = dec; r.d = nai ? ILL : d; return show(r); }
static LD gen_bound(Src& s, Ty t, Pool& p) {
    switch (s.draw(14)) {
    case 12: return s.draw(2) ? INFL : -INFL;
    case 13: return std::numeric_limits<LD>::quiet_NaN();
    case 11: { Ty o = Ty(s.draw(3)); LD x = s.draw(2) ? t_max(o) : s.draw(2) ? t_dmin(o) : t_nmin(o); if (s.draw(2)) x = -x; LD y = s.draw(2) ? x : s.draw(2) ? std::nextafterl(x, INFL) : std::nextafterl(x, -INFL); return round_ld(y, t, s.range(-1, 1)); }
    case 8: case 9: case 10: { LD x = gen_rel(s, t, p); return x; }
    default: return gen_num(s, t);
    }
}
void run_case(Ctx& c) {
    Src& s = c.src; Pool pool; exc_clear();
    Ty t = Ty(s.draw(3)); int kind = (int)s.draw(9);
    std::string d; Res r; bool nai = false; IV ex; int ed = COM; bool dec = false; unsigned ef = 0; std::string key;
    if (kind == 0) {
        int which = (int)s.draw(4); dec = s.draw(2) || which == 3; int route = (int)s.draw(2);
        key = "constant"; d = strf("constant %d of %s%s", which, ty_name[t], dec ? " decorated" : "");
        if (c.verbose) c.note(d);
        r = constant(t, which, dec, route); c.label("constants");
        if (which == 2) { ex = IV(-INFL, INFL); ed = DAC; } else ed = TRV;
        nai = which == 3;
    } else if (kind <= 4) {
        Ty tl = Ty(s.draw(3)), tu = Ty(s.draw(3)); if (s.draw(3) == 0) tl = tu = t;
        bool three = kind >= 3; dec = three || s.draw(2); int route = (int)s.draw(2);
        LD lo = gen_bound(s, tl, pool); pool.add(lo); LD hi = gen_bound(s, tu, pool);
        if (s.draw(4) && lo > hi) { LD a = round_ld(hi, tl, -1), b = round_ld(lo, tu, 1); lo = a; hi = b; }
        int rd = raw_dec(Dec(s.draw(5))); if (s.draw(2)) rd = raw_dec(COM); bool junk = three && s.draw(24) == 23; if (junk) rd = s.range(1, 3) + 4 * s.range(0, 5);
        d = std::string(three ? "from two numbers and a decoration" : "from two numbers") + strf(" (%s, %s) to %s%s, route %d\n  lo = ", ty_name[tl], ty_name[tu], ty_name[t], dec ? " decorated" : "", route) + hexld(lo) + "  hi = " + hexld(hi) + (three ? strf("  decoration code %d", rd) : std::string());
        if (c.verbose) c.note(d);
        bool ok = ok2(lo, hi);
        int dd = from_ldec((LDec)rd);
        if (three && !junk && (dd == ILL || (dd == COM && !(std::isfinite(lo) && std::isfinite(hi))))) ok = false;
        if (junk) { ok = false; ef = 8; } else if (!ok) ef = 1;
        if (ok) { ex = hull(lo, hi, t); ed = three ? dd : COM; if (!ex.bounded() && ed == COM) ed = DAC; if (three && ex.bounded() && false) ed = dd; }
        else { nai = dec; }
        c.nontrivial = !ok || ex.lo != lo || ex.hi != hi; c.label(ok ? "numbers: accepted" : junk ? "numbers: junk decoration" : "numbers: rejected");
        if (ok && !ex.bounded() && std::isfinite(lo) && std::isfinite(hi)) c.label("numbers: overflow");
        key = three ? "nums+dec" : "nums";
        r = three ? con3(t, tl, tu, route, lo, hi, rd) : con2(t, tl, tu, route, dec, lo, hi);
    } else {
        ConvId k = ConvId(s.draw(N_CONV)); Ty ts = Ty(s.draw(3)); int route = (int)s.draw(3);
        DIV_ x; x.x = gen_iv(s, ts, &pool);
        if (s.draw(6) == 5 && !x.x.empty) { Ty o = Ty(s.draw(3)); LD v = s.draw(3) == 2 ? t_max(o) : t_dmin(o); v = std::nextafterl(v, s.draw(2) ? INFL : 0); if (s.draw(2)) v = -v; v = round_ld(v, ts, s.range(-1, 1)); LD w = s.draw(2) ? v : gen_num(s, ts); x.x = std::isfinite(v) ? IV(std::fmin(v, w), std::fmax(v, w)) : x.x; if (x.x.lo == INFL || x.x.hi == -INFL) x.x = IV(0, 0); }
        x.d = gen_dec_for(s, x.x); if ((k == DEC_DEC || k == BARE_DEC) && s.draw(8) == 7) { x.d = ILL; x.x = IV(); }
        int rd = raw_dec(Dec(s.draw(5))); bool junk = k == DEC_BARE_D && s.draw(12) == 11; if (junk) rd = s.range(1, 3) + 4 * s.range(0, 5);
        d = std::string(conv_name[k]) + strf(" from %s to %s, route %d\n  x = ", ty_name[ts], ty_name[t], route) + (k == DEC_DEC || k == BARE_DEC ? show(x) : show(x.x)) + (k == DEC_BARE_D ? strf("  decoration code %d", rd) : std::string());
        if (c.verbose) c.note(d);
        key = conv_name[k]; dec = k == DEC_DEC || k == DEC_BARE || k == DEC_BARE_D;
        ex = x.x; if (!ex.empty) ex = hull(ex.lo, ex.hi, t);
        if (junk) { nai = true; ef = 8; ex = IV(); c.label("set_dec: junk decoration"); }
        else if (k == DEC_DEC) ed = x.d; else if (k == DEC_BARE_D) ed = from_ldec((LDec)rd);
        if ((k == DEC_DEC && x.nai()) || (k == DEC_BARE_D && ed == ILL)) { nai = true; ex = IV(); }
        if (k == BARE_DEC && x.nai()) { ef = 4; ex = IV(); }
        if (ed == COM && !ex.empty && !ex.bounded()) ed = DAC;
        if (ex.empty) ed = TRV;
        c.nontrivial = nai || ef || (!x.x.empty && (ex.lo != x.x.lo || ex.hi != x.x.hi));
        c.label(conv_name[k]); if (!ex.empty && x.x.bounded() && !ex.bounded()) c.label("conversion: overflow");
        r = conv(k, t, ts, route, x, rd);
    }
    unsigned fl = exc_state(); exc_clear();
    bool good = r.valid && r.dec == dec && (dec && (nai || r.nai()) ? (nai && r.nai()) : same(r.x, ex) && (!dec || r.d == ed));
    if (!good) c.fail("A13:" + key, d + "\n  result " + show(r) + "\n  expected " + want(nai, ex, ed, dec));
    if (fl != ef) c.fail("A13:flags:" + key, d + strf("\n  result ", 0) + show(r) + strf("\n  exception state %u, expected %u", fl, ef));
}
}
