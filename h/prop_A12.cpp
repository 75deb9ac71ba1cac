// A12: numeric functions of intervals
#include "qry.hpp"
#include "revgen.hpp"
#include <algorithm>
namespace vh {
char const* const prop_id = "A12";
char const* const prop_rule = "a case is one interval put through inf, sup, mid, rad, wid, mag, mig and mid_rad in one route, result type and operand type drawn independently; non-trivial when the interval is non-empty, bounded and not a singleton";
void prop_setup() {}
static std::string sg(LD v) { return hexld(v); }
static bool eqz(LD a, LD b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
// an interval whose midpoint or width is at or next to a number where the rounding to type t decides
static IV gen_edge(Src& s, Ty ta, Ty t) {
    LD v = s.draw(3) == 2 ? (LD)s.range(0, 40) * t_dmin(t) : s.draw(2) ? (LD)s.range(0, 1 << 23) * t_dmin(t) : gen_num(s, t, true);
    if (s.draw(2)) v = -v;
    int k; std::frexp(v == 0 ? t_dmin(t) : v, &k);
    LD h = std::ldexp(1.0L + (LD)s.range(0, 1 << 20) / (1 << 20), k - s.range(-2, s.draw(2) ? 70 : 12)); if (s.draw(3) == 2) h = t_dmin(ta) * (LD)s.range(1, 9);
    LD lo, hi;
    if (s.draw(4) == 3) { lo = round_ld(gen_num(s, ta, true), ta, 0); hi = round_ld(lo + fabsl(v), ta, 0); }
    else {
        int dir = s.draw(2) ? 1 : -1; LD w = round_ld(std::nextafterl(v, dir * INFL), t, dir);
        LD m = std::isfinite(w) ? v / 2 + w / 2 : v;
        lo = round_ld(m - h, ta, 0); hi = round_ld(2 * m - lo, ta, 0);
    }
    int dir = s.range(-1, 1); if (dir && std::isfinite(hi)) hi = round_ld(std::nextafterl(hi, dir * INFL), ta, dir);
    if (!std::isfinite(lo) || !std::isfinite(hi) || lo > hi) return IV(std::fmin(v, 0), std::fmax(v, 0));
    return IV(lo, hi);
}
void run_case(Ctx& c) {
    Src& s = c.src; Pool pool;
    Ty ta = Ty(s.draw(3)), t = s.draw(3) == 2 ? Ty(s.draw(3)) : ta;
    bool dec = s.draw(3) == 2; int route = t == ta ? (int)s.draw(3) : (int)s.draw(2);
    DIV_ a; a.x = s.draw(5) == 4 ? coerce(gen_edge(s, ta, t), ta) : coerce(gen_iv(s, ta, &pool), ta);
    a.d = dec ? gen_dec_for(s, a.x) : COM;
    if (dec && s.draw(24) == 23) { a.d = ILL; a.x = IV(); }
    IV x = a.x; LD const NaN = std::numeric_limits<LD>::quiet_NaN();
    bool nai = dec && a.nai();
    std::string d = std::string("<") + ty_name[t] + "> via " + (route == 0 ? "flavor" : route == 1 ? "static" : "free") + ", x (" + ty_name[ta] + ") = " + (dec ? show(a) : show(x));
    if (c.verbose) c.note(d);
    if (t != ta) c.label("mixed types"); if (dec) c.label("decorated"); if (nai) c.label("NaI operand"); if (x.empty) c.label("empty operand"); else if (!x.bounded()) c.label("unbounded operand");
    if (x.bounded() && !x.singleton()) c.nontrivial = true;
    NumR r[N_NUM];
    for (int k = 0; k < N_NUM; ++k) { r[k] = num1(NumId(k), t, ta, route, dec, a); if (c.verbose) c.note(std::string("  ") + num_name[k] + " = " + sg(r[k].v) + (k == N_MIDRAD ? " , " + sg(r[k].w) : "")); }
    auto bad = [&](NumId k, std::string const& e) { c.fail(std::string("A12:") + num_name[k] + (t != ta ? ":mixed" : ""), std::string(num_name[k]) + d + "\n  result = " + sg(r[k].v) + (k == N_MIDRAD ? " , " + sg(r[k].w) : "") + "\n  expected " + e); };
    auto want = [&](NumId k, LD e) { if (!eqz(r[k].v, e)) bad(k, sg(e)); };
    auto zero = [](LD v) { return v == 0 ? 0.0L : v; };
    if (nai) { for (int k = 0; k < N_NUM; ++k) if (!std::isnan(r[k].v) || (k == N_MIDRAD && !std::isnan(r[k].w))) bad(NumId(k), "nan"); return; }
    if (x.empty) {
        want(N_INF, INFL); want(N_SUP, -INFL);
        for (NumId k : {N_MID, N_RAD, N_WID, N_MAG, N_MIG}) want(k, NaN);
        if (!std::isnan(r[N_MIDRAD].v) || !std::isnan(r[N_MIDRAD].w)) bad(N_MIDRAD, "nan , nan");
        return;
    }
    LD l = round_ld(x.lo, t, -1), u = round_ld(x.hi, t, 1);
    // a zero lower bound is -0, a zero upper bound +0
    if (x.lo == 0 || l == 0) { if (r[N_INF].v != 0 || (x.lo == 0 && !std::signbit(r[N_INF].v))) bad(N_INF, "-0"); } else want(N_INF, l);
    if (x.hi == 0 || u == 0) { if (r[N_SUP].v != 0 || (x.hi == 0 && std::signbit(r[N_SUP].v))) bad(N_SUP, "+0"); } else want(N_SUP, u);
    // midpoint
    LD m;
    if (x.entire()) m = 0; else if (x.lo == -INFL) m = -t_max(t); else if (x.hi == INFL) m = t_max(t);
    else { MpfrState st; M q(33000); M p = mk(x.lo), h = mk(x.hi); mpfr_add(q, p, h, MPFR_RNDN); mpfr_div_2ui(q, q, 1, MPFR_RNDN); m = to_ty(q, t, 0); m = zero(m); }
    want(N_MID, m);
    // radius: smallest number such that mid +- rad encloses x
    if (std::isfinite(m)) {
        LD e;
        if (!x.bounded()) e = INFL;
        else { LD e1 = rnd_op('-', m, x.lo, t, 1), e2 = rnd_op('-', x.hi, m, t, 1); e = zero(std::max(e1, e2)); }
        want(N_RAD, e);
        if (!eqz(r[N_MIDRAD].v, m) || !eqz(r[N_MIDRAD].w, e)) bad(N_MIDRAD, sg(m) + " , " + sg(e));
    } else { c.label("midpoint overflows in the result type"); if (!eqz(r[N_MIDRAD].v, m)) bad(N_MIDRAD, sg(m)); }
    want(N_WID, x.bounded() ? zero(rnd_op('-', x.hi, x.lo, t, 1)) : INFL);
    LD mg = std::max(fabsl(x.lo), fabsl(x.hi));
    want(N_MAG, round_ld(mg, t, 1));
    LD mi = x.lo <= 0 && x.hi >= 0 ? 0 : std::min(fabsl(x.lo), fabsl(x.hi));
    want(N_MIG, zero(round_ld(mi, t, -1)));
}
}
