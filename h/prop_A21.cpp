// A21: reductions are correctly rounded
#include "red.hpp"
#include "oracle.hpp"
namespace vh {
char const* const prop_id = "A21";
char const* const prop_rule = "a case is one reduction over a generated vector (cancelling, overlapping, overflowing, underflowing or special elements) in one rounding mode; non-trivial when there are at least two finite non-zero terms and the exact result is not representable or an intermediate sum or product overflows or underflows";
void prop_setup() {}
static LD one(LD x) { return x; }
void run_case(Ctx& c) {
    Src& s = c.src; RedId op = RedId(s.draw(N_RED)); Ty t = Ty(s.draw(3)); int rnd = (int)s.draw(4), route = (int)s.draw(5);
    int n = s.draw(6) ? s.range(0, 6) : s.draw(24) ? s.range(0, 40) : s.range(40, 600); std::vector<LD> a, b; Pool p; int style = (int)s.draw(6); bool fin = s.draw(8) != 7;
    auto num = [&]() -> LD { LD x; switch (style) { case 1: x = gen_mod(s, t); break; case 2: x = ldexpl((LD)(long)s.range(-64, 64), s.range(fmt[t].emax - 70, fmt[t].emax - 7)); break; case 3: x = ldexpl((LD)(long)s.range(-64, 64), s.range(fmt[t].emin - fmt[t].p, fmt[t].emin + 60)); break; case 4: x = ldexpl((LD)(long)s.range(-9, 9), s.range(fmt[t].emin / 2 - 90, fmt[t].emin / 2 + 20)); break; case 5: x = ldexpl((LD)(long)s.range(-9, 9), s.range(fmt[t].emax / 2 - 20, fmt[t].emax / 2 + 8)); break; default: x = gen_rel(s, t, p); }
        x = round_ld(x, t, 0); if (fin && !std::isfinite(x)) x = std::isnan(x) ? 1 : std::copysign(t_max(t), x); p.add(x); return x; };
    for (int i = 0; i < n; ++i) {
        if (i && s.draw(4) == 3) { int k = (int)s.draw(i); a.push_back(-a[k]); b.push_back(b[k]); if (s.draw(3) == 2 && std::isfinite(a[k])) a.back() = s.draw(2) ? succ(a.back(), t) : pred(a.back(), t); if (fin && !std::isfinite(a.back())) a.back() = 0; continue; }
        a.push_back(num()); b.push_back(op == R_DOT ? num() : 0);
    }
    if (!fin && n && s.draw(3) == 2) a[s.draw(n)] = std::numeric_limits<LD>::quiet_NaN();
    if (fin && n <= 8 && s.draw(8) == 7) { // the exact result is a middle between two numbers, or misses it by little
        int P = fmt[t].p, low = fmt[t].emin - P, E = s.draw(2) ? low + s.range(1, P + 1) : low + s.range(1, fmt[t].emax - low - 2), u = std::max(E - P, low); if (op == R_SUM_SQR && !(u & 1)) ++u;
        auto put = [&](LD m, int e) { // the term m * 2^e
            LD x = m, y = 0;
            if (op == R_DOT) { int mx = fmt[t].emax - P - 1, k = s.range(std::max(low, e - mx), std::min(mx, e - low)); if (e < 2 * low || e > 2 * mx) return; x = std::ldexp(m, k); y = std::ldexp(1.0L, e - k); if (s.draw(2)) std::swap(x, y); }
            else if (op == R_SUM_SQR) { if (e & 1) return; x = std::ldexp(m, e / 2); } else x = std::ldexp(m, e);
            if (!representable(x, t) || !representable(y, t) || !std::isfinite(x)) return;
            size_t at = s.draw(a.size() + 1); a.insert(a.begin() + at, x); b.insert(b.begin() + at, y); };
        LD sg = op == R_SUM_SQR || op == R_SUM_ABS || s.draw(2) ? 1 : -1; a.clear(); b.clear(); int w = std::min(P, E - low);
        if (op == R_SUM_SQR) { put((LD)(s.draw(0) >> (64 - std::max(1, w / 2))), u + 1); if (s.draw(2)) put((LD)s.range(0, 3), u + 1); }
        else put(sg * (LD)(s.draw(0) >> (64 - std::max(1, std::min(P, E - u)))), u);
        put(op == R_SUM_SQR ? 1 : sg, u - 1); int far = s.range(0, 3); for (int i = 0; i < far; ++i) put((op == R_SUM_SQR || s.draw(2)) ? 1 : -1, u - 1 - (s.draw(3) ? s.range(1, 2 * P) : s.range(1, 4 * P + 200)));
        n = (int)a.size(); if (n >= 2) c.label("next to a tie"); if (!n) { a.push_back(1); b.push_back(1); n = 1; }
    }
    int const block = n;
    if (n && n <= 40 && s.draw(1200) == 1199) { // a long vector: the same terms again and again, and some of their own at the end
        long len = (1L << s.range(9, t == TL ? 14 : 17)) + s.range(-2, 2); std::vector<LD> ta, tb; int tail = s.range(0, std::min(n, 4));
        for (int i = 0; i < tail; ++i) { ta.push_back(num()); tb.push_back(op == R_DOT ? num() : 0); }
        for (int i = 0; (long)a.size() < len; ++i) { a.push_back(a[i]); b.push_back(b[i]); }
        a.insert(a.end(), ta.begin(), ta.end()); b.insert(b.end(), tb.begin(), tb.end()); n = (int)a.size(); c.label("long vector");
    }
    auto desc = [&] { std::string d = strf("%s, %s, %s, route %d", red_name[op], ty_name[t], rr_name[rnd], route);
        if (n != block) d += strf("\n  %d terms, a block of %d repeated, then the last terms shown", n, block);
        for (int i = 0; i < n; ++i) if (n == block || i < block || i >= n - 4) d += "\n  " + hexld(a[i]) + (op == R_DOT ? " * " + hexld(b[i]) : std::string());
        return d; };
    if (c.verbose) c.note(desc());
    // exact value
    LD want; bool nan = false, pinf = false, ninf = false; int nz = 0; bool tricky = false;
    {
        MpfrState st; mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max());
        int P = t == TF ? 900 : t == TD ? 5000 : 70000; // a million terms more than fits the widest sum of squares
        M sum(P), term(256); mpfr_set_zero(sum, 1);
        for (int i = 0; i < n; ++i) {
            LD x = a[i], y = op == R_DOT ? b[i] : op == R_SUM_SQR ? x : one(1); if (op == R_SUM_ABS) x = std::fabs(x);
            LD q = std::isfinite(x) && std::isfinite(y) ? 0 : x * y;
            if (std::isnan(q)) nan = true; else if (q == INFL) pinf = true; else if (q == -INFL) ninf = true;
            else { mpfr_set_ld(term, x, MPFR_RNDN); M yy = mk(y); mpfr_mul(term, term, yy, MPFR_RNDN); if (mpfr_cmp_ui(term, 0) != 0) { ++nz; LD v = to_ty(term, t, 0); if (!std::isfinite(v) || v == 0 || std::fabs(v) < t_nmin(t)) tricky = true; }
                if (mpfr_add(sum, sum, term, MPFR_RNDN) != 0) c.fail("A21:oracle", "the oracle's accumulator is too short"); LD v = to_ty(sum, t, 0); if (!std::isfinite(v)) tricky = true; }
        }
        if (nan || (pinf && ninf)) want = std::numeric_limits<LD>::quiet_NaN(); else if (pinf) want = INFL; else if (ninf) want = -INFL;
        else { int dir = rnd == RR_NEAR ? 0 : rnd == RR_DOWN ? -1 : rnd == RR_UP ? 1 : mpfr_sgn(sum.v) >= 0 ? -1 : 1; want = to_ty(sum, t, dir); M w = mk(want); if (nz >= 2 && mpfr_cmp(w, sum) != 0) tricky = true; }
    }
    c.nontrivial = nz >= 2 && tricky; c.label(red_name[op]); if (std::isnan(want)) c.label("NaN result"); else if (std::isinf(want)) c.label("infinite result"); else if (want == 0) c.label("zero result"); else if (std::fabs(want) < t_nmin(t)) c.label("subnormal result"); if (n == 0) c.label("no elements");
    LD got = reduce(op, t, rnd, route, a, b);
    bool ok = std::isnan(want) ? std::isnan(got) : got == want && (want != 0 || std::signbit(got) == (rnd == RR_DOWN));
    if (!ok) c.fail(std::string("A21:") + red_name[op], desc() + "\n  result " + hexld(got) + (std::signbit(got) ? " (sign bit)" : "") + "\n  expected " + hexld(want));
}
}
