#include "oracle.hpp"
#include <functional>
#include <algorithm>
namespace vh {

MpfrState::MpfrState() : emin(mpfr_get_emin()), emax(mpfr_get_emax()), fl(mpfr_flags_save()) {
    mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max());
}
MpfrState::~MpfrState() { mpfr_set_emin(emin); mpfr_set_emax(emax); mpfr_flags_restore(fl, MPFR_FLAGS_ALL); }

static mpfr_rnd_t R(int dir) { return dir < 0 ? MPFR_RNDD : dir > 0 ? MPFR_RNDU : MPFR_RNDN; }

LD to_ty(mpfr_srcptr v, Ty t, int dir) {
    if (mpfr_nan_p(v)) return std::numeric_limits<LD>::quiet_NaN();
    if (mpfr_inf_p(v)) return mpfr_sgn(v) > 0 ? INFL : -INFL;
    if (mpfr_zero_p(v)) return 0.0L;
    Fmt const& f = fmt[t];
    mpfr_exp_t e = mpfr_get_exp(v); bool neg = mpfr_sgn(v) < 0;
    mpfr_exp_t ep = e >= f.emin ? f.p : f.p - (f.emin - e);
    LD r;
    if (ep < 1) { // below the smallest subnormal
        if (dir == 0) {
            // half of dmin: tie goes to zero
            bool big = ep == 0 && !(mpfr_cmp_si_2exp(v, neg ? -1 : 1, f.emin - f.p - 1) == 0);
            r = big ? t_dmin(t) : 0.0L;
        } else r = ((dir > 0) != neg) ? t_dmin(t) : 0.0L;
        return neg ? -r : r;
    }
    M w((mpfr_prec_t)ep);
    mpfr_set(w, v, R(dir));
    if (mpfr_get_exp((mpfr_srcptr)w) > f.emax) {
        bool away = dir == 0 || ((dir > 0) != neg);
        r = away ? INFL : t_max(t);
        return neg ? -r : r;
    }
    return mpfr_get_ld(w, MPFR_RNDN);
}

char const* const op_name[N_OPS] = {"pos", "neg", "add", "sub", "mul", "div", "recip", "sqrt", "fma", "sqr", "pown", "pow", "exp", "exp2", "exp10",
    "log", "log2", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "sign", "ceil",
    "floor", "trunc", "round_ties_to_even", "round_ties_to_away", "abs", "min", "max"};
int op_arity(OpId o) {
    switch (o) { case ADD: case SUB: case MUL: case DIV: case POW: case ATAN2: case MIN_: case MAX_: return 2; case FMA: return 3; default: return 1; }
}

typedef int (*F1)(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
static mpfr_prec_t const W = 160;

static LD ev1(F1 f, LD x, Ty t, int dir) {
    M a = mk(x), r(W); f(r, a, R(dir)); return to_ty(r, t, dir);
}
static int f_rint_rte(mpfr_ptr r, mpfr_srcptr a, mpfr_rnd_t) { return mpfr_roundeven(r, a); }
static int f_rint_rta(mpfr_ptr r, mpfr_srcptr a, mpfr_rnd_t) { return mpfr_round(r, a); }
static int f_ceil(mpfr_ptr r, mpfr_srcptr a, mpfr_rnd_t) { return mpfr_ceil(r, a); }
static int f_floor(mpfr_ptr r, mpfr_srcptr a, mpfr_rnd_t) { return mpfr_floor(r, a); }
static int f_trunc(mpfr_ptr r, mpfr_srcptr a, mpfr_rnd_t) { return mpfr_trunc(r, a); }
static int f_sign(mpfr_ptr r, mpfr_srcptr a, mpfr_rnd_t) { return mpfr_set_si(r, mpfr_sgn(a), MPFR_RNDN); }

struct Mono { F1 f; LD dlo, dhi; bool olo, ohi; int sgn; };
static bool mono_of(OpId op, Mono& m) {
    switch (op) {
    case SQRT: m = {mpfr_sqrt, 0, INFL, false, false, 1}; return true;
    case EXP: m = {mpfr_exp, -INFL, INFL, false, false, 1}; return true;
    case EXP2: m = {mpfr_exp2, -INFL, INFL, false, false, 1}; return true;
    case EXP10: m = {mpfr_exp10, -INFL, INFL, false, false, 1}; return true;
    case LOG: m = {mpfr_log, 0, INFL, true, false, 1}; return true;
    case LOG2: m = {mpfr_log2, 0, INFL, true, false, 1}; return true;
    case LOG10: m = {mpfr_log10, 0, INFL, true, false, 1}; return true;
    case ASIN: m = {mpfr_asin, -1, 1, false, false, 1}; return true;
    case ACOS: m = {mpfr_acos, -1, 1, false, false, -1}; return true;
    case ATAN: m = {mpfr_atan, -INFL, INFL, false, false, 1}; return true;
    case SINH: m = {mpfr_sinh, -INFL, INFL, false, false, 1}; return true;
    case TANH: m = {mpfr_tanh, -INFL, INFL, false, false, 1}; return true;
    case ASINH: m = {mpfr_asinh, -INFL, INFL, false, false, 1}; return true;
    case ACOSH: m = {mpfr_acosh, 1, INFL, false, false, 1}; return true;
    case ATANH: m = {mpfr_atanh, -1, 1, true, true, 1}; return true;
    case CEIL: m = {f_ceil, -INFL, INFL, false, false, 1}; return true;
    case FLOOR: m = {f_floor, -INFL, INFL, false, false, 1}; return true;
    case TRUNC: m = {f_trunc, -INFL, INFL, false, false, 1}; return true;
    case RTE: m = {f_rint_rte, -INFL, INFL, false, false, 1}; return true;
    case RTA: m = {f_rint_rta, -INFL, INFL, false, false, 1}; return true;
    case SIGN: m = {f_sign, -INFL, INFL, false, false, 1}; return true;
    case POS: m = {mpfr_set, -INFL, INFL, false, false, 1}; return true;
    case NEG: m = {mpfr_neg, -INFL, INFL, false, false, -1}; return true;
    default: return false;
    }
}

// hull accumulator over corner values
struct Hull {
    Ty t; bool any = false; LD lo = 0, hi = 0;
    explicit Hull(Ty t_) : t(t_) {}
    void addv(LD l, LD h) { if (!any) { lo = l; hi = h; any = true; } else { lo = std::min(lo, l); hi = std::max(hi, h); } }
    void addx(LD v) { addv(round_ld(v, t, -1), round_ld(v, t, 1)); }  // exact long double value
    void fn(std::function<void(mpfr_ptr, mpfr_rnd_t)> const& f) {
        M r(W); f(r, MPFR_RNDD); if (mpfr_nan_p((mpfr_srcptr)r)) return; LD l = to_ty(r, t, -1);
        f(r, MPFR_RNDU); addv(l, to_ty(r, t, 1));
    }
    IV iv() const { IV r; if (any) r = IV(lo == INFL ? t_max(t) : lo, hi == -INFL ? -t_max(t) : hi); return r; }
};

// number of n with  a <= c + n*s <= b  being non-zero, c = num*pi/2, s = pi*step
static bool hits(LD a, LD b, int num, int step) {
    int ea = 0, eb = 0; if (a != 0) frexpl(a, &ea); if (b != 0) frexpl(b, &eb);
    mpfr_prec_t p = 192 + std::max(0, std::max(ea, eb));
    for (;; p *= 2) {
        M pi(p), q(p), u(p), v(p), fl(p), ce(p);
        mpfr_const_pi(pi, MPFR_RNDN);
        // n range: (x - num*pi/2)/(step*pi) = x/(step*pi) - num/(2 step)
        auto red = [&](LD x, M& r) {
            M xx = mk(x); mpfr_div(r, xx, pi, MPFR_RNDN); mpfr_div_si(r, r, step, MPFR_RNDN);
            M c(p); mpfr_set_si(c, num, MPFR_RNDN); mpfr_div_si(c, c, 2 * step, MPFR_RNDN); mpfr_sub(r, r, c, MPFR_RNDN); };
        red(a, u); red(b, v);
        // errors are below 2^-150; x = 0 is the only exact case
        bool amb = false;
        auto near_int = [&](M& z) { M i(p), d(p); mpfr_rint(i, z, MPFR_RNDN); mpfr_sub(d, z, i, MPFR_RNDN); return mpfr_zero_p((mpfr_srcptr)d) || mpfr_get_exp((mpfr_srcptr)d) < -140; };
        if ((a != 0 && near_int(u)) || (b != 0 && near_int(v))) amb = true;
        if (amb && p < 200000) continue;
        mpfr_ceil(ce, u); mpfr_floor(fl, v);
        return mpfr_cmp((mpfr_srcptr)ce, (mpfr_srcptr)fl) <= 0;
    }
}

static void mulx(mpfr_ptr r, LD x, LD y, mpfr_rnd_t d) { // 0*inf = 0
    if (x == 0 || y == 0) { mpfr_set_zero(r, 1); return; }
    M a = mk(x), b = mk(y); mpfr_mul(r, a, b, d);
}

static Range trig(OpId op, Ty tr, IV const& x) {
    Range g; Hull h(tr);
    g.def = g.cont = true;
    bool wide = !x.bounded();
    LD w = INFL;
    if (!wide) { M a = mk(x.hi), b = mk(x.lo), d(80); mpfr_sub(d, a, b, MPFR_RNDD); w = mpfr_get_ld(d, MPFR_RNDD); }
    if (op == TAN) {
        if (w > 4 || hits(x.lo, x.hi, 1, 1)) { g.def = g.cont = false; g.r = IV(-INFL, INFL); return g; }
        h.addv(ev1(mpfr_tan, x.lo, tr, -1), ev1(mpfr_tan, x.hi, tr, 1)); g.r = h.iv(); return g;
    }
    if (w > 7) { g.r = IV(-1, 1); return g; }
    F1 f = op == SIN ? mpfr_sin : mpfr_cos;
    h.addv(ev1(f, x.lo, tr, -1), ev1(f, x.lo, tr, 1));
    h.addv(ev1(f, x.hi, tr, -1), ev1(f, x.hi, tr, 1));
    // maxima: sin at pi/2 + 2k pi, cos at 2k pi; minima sin at -pi/2, cos at pi
    if (hits(x.lo, x.hi, op == SIN ? 1 : 0, 2)) h.addx(1);
    if (hits(x.lo, x.hi, op == SIN ? -1 : 2, 2)) h.addx(-1);
    g.r = h.iv(); return g;
}

static LD mag_(IV const& x) { return std::max(fabsl(x.lo), fabsl(x.hi)); }
static LD mig_(IV const& x) { return x.lo <= 0 && x.hi >= 0 ? 0.0L : std::min(fabsl(x.lo), fabsl(x.hi)); }

static Range pown_r(Ty tr, IV const& x, int n) {
    Range g; Hull h(tr); g.def = g.cont = true;
    if (n == 0) { h.addx(1); g.r = h.iv(); return g; }
    auto pw = [&](LD v) { M a = mk(v); h.fn([&](mpfr_ptr r, mpfr_rnd_t d) { mpfr_pow_si(r, a, n, d); }); };
    bool even = n % 2 == 0;
    if (n > 0) {
        if (even) { pw(mag_(x)); pw(mig_(x)); } else { pw(x.lo); pw(x.hi); }
        g.r = h.iv(); return g;
    }
    bool zero = x.lo <= 0 && x.hi >= 0;
    if (zero) g.def = g.cont = false;
    if (x.lo == 0 && x.hi == 0) return g;
    if (even) {
        if (zero) { pw(mag_(x)); h.addv(INFL, INFL); } else { pw(x.lo); pw(x.hi); }
    } else {
        if (x.hi > 0) { pw(x.hi); if (x.lo <= 0) h.addv(INFL, INFL); else pw(x.lo); }
        if (x.lo < 0) { pw(x.lo); if (x.hi >= 0) h.addv(-INFL, -INFL); else pw(x.hi); }
    }
    g.r = h.iv(); return g;
}

static Range div_r(Ty tr, IV const& x, IV const& y) {
    Range g; Hull h(tr);
    g.def = g.cont = !(y.lo <= 0 && y.hi >= 0);
    auto corner = [&](LD a, LD b, int side) { // side: sign of b when b == 0 (limit)
        if (b == 0) { if (a == 0) h.addx(0); else { LD v = (a > 0) == (side > 0) ? INFL : -INFL; h.addv(v, v); } return; }
        if (std::isinf(b)) { if (!std::isinf(a)) h.addx(0); return; }
        if (std::isinf(a)) { LD v = (a > 0) == (b > 0) ? INFL : -INFL; h.addv(v, v); return; }
        M p = mk(a), q = mk(b); h.fn([&](mpfr_ptr r, mpfr_rnd_t d) { mpfr_div(r, p, q, d); });
    };
    if (y.hi > 0) { LD l = std::max(y.lo, 0.0L); for (LD a : {x.lo, x.hi}) { corner(a, l, 1); corner(a, y.hi, 1); } if (x.has(0)) h.addx(0); }
    if (y.lo < 0) { LD u = std::min(y.hi, 0.0L); for (LD a : {x.lo, x.hi}) { corner(a, u, -1); corner(a, y.lo, -1); } if (x.has(0)) h.addx(0); }
    g.r = h.iv(); return g;
}

static Range pow_r(Ty tr, IV const& x0, IV const& y) {
    Range g; Hull h(tr);
    g.def = g.cont = x0.lo > 0 || (x0.lo == 0 && y.lo > 0);
    if (x0.hi < 0) return g;
    IV x(std::max(x0.lo, 0.0L), x0.hi);
    if (x.hi == 0) { if (y.hi > 0) { h.addx(0); } g.r = h.iv(); return g; }
    std::vector<LD> xs{x.lo, x.hi}, ys{y.lo, y.hi};
    if (x.lo < 1 && x.hi > 1) xs.push_back(1);
    if (y.lo < 0 && y.hi > 0) ys.push_back(0);
    for (LD a : xs) for (LD b : ys) {
        if (b == 0 || a == 1) { h.addx(1); continue; }
        if (std::isinf(b)) { bool big = (a > 1) == (b > 0); if (big) h.addv(INFL, INFL); else h.addx(0); continue; }
        if (a == 0) { if (b > 0) h.addx(0); else h.addv(INFL, INFL); continue; }
        if (std::isinf(a)) { if (b > 0) h.addv(INFL, INFL); else h.addx(0); continue; }
        M p = mk(a), q = mk(b);
        h.fn([&](mpfr_ptr r, mpfr_rnd_t d) { mpfr_pow(r, p, q, d); });
    }
    // a = 0 is reached in the limit only for negative or zero exponents: the corner values above are the limits
    g.r = h.iv(); return g;
}

static Range atan2_r(Ty tr, IV const& y, IV const& x) {
    Range g; Hull h(tr);
    bool origin = y.has(0) && x.has(0);
    g.def = !origin;
    g.cont = g.def && !(x.lo < 0 && y.lo < 0 && y.hi >= 0);
    g.jump = y.has(0) && x.lo < 0;
    auto at = [&](LD b, LD a, int ysign) { // ysign: quadrant side used when b == 0
        if (b == 0 && a == 0) return;
        M p = mk(b), q = mk(a);
        if (b == 0) mpfr_set_zero(p, ysign);
        h.fn([&](mpfr_ptr r, mpfr_rnd_t d) { mpfr_atan2(r, p, q, d); });
    };
    for (int sy = -1; sy <= 1; sy += 2) for (int sx = -1; sx <= 1; sx += 2) {
        IV yy, xx;
        if (sy > 0) { if (y.hi < 0) continue; yy = IV(std::max(y.lo, 0.0L), y.hi); }
        else { if (y.lo >= 0) continue; yy = IV(y.lo, std::min(y.hi, 0.0L)); }   // the open lower half plane
        if (sx > 0) { if (x.hi < 0) continue; xx = IV(std::max(x.lo, 0.0L), x.hi); }
        else { if (x.lo > 0) continue; xx = IV(x.lo, std::min(x.hi, 0.0L)); }
        for (LD b : {yy.lo, yy.hi}) for (LD a : {xx.lo, xx.hi}) {
            if (std::isinf(a) && std::isinf(b)) continue;
            at(b, a, sy);
        }
    }
    g.r = h.iv(); return g;
}

Range range_of(OpId op, Ty tr, IV const* a, int p) {
    MpfrState st;
    Range g; int n = op_arity(op);
    for (int i = 0; i < n; ++i) if (a[i].empty) return g;
    Mono m;
    if (mono_of(op, m)) {
        IV x = a[0];
        g.def = (m.olo ? x.lo > m.dlo : x.lo >= m.dlo) && (m.ohi ? x.hi < m.dhi : x.hi <= m.dhi);
        g.cont = g.def;
        if (op == SIGN || op == CEIL || op == FLOOR || op == TRUNC || op == RTE || op == RTA) {
            M u = mk(x.lo), v = mk(x.hi), fu(64), fv(64); m.f(fu, u, MPFR_RNDN); m.f(fv, v, MPFR_RNDN);
            g.cont = x.bounded() ? mpfr_equal_p((mpfr_srcptr)fu, (mpfr_srcptr)fv) : (op == SIGN && mpfr_equal_p((mpfr_srcptr)fu, (mpfr_srcptr)fv));
        }
        if (op == SIGN) g.jump = x.has(0);
        if (op == CEIL || op == FLOOR || op == TRUNC || op == RTE || op == RTA) {
            // a jump point inside: twice the endpoints is exact, look for a (half) integer between
            M u = mk(x.lo), v = mk(x.hi), k(80), k2(80);
            if (!x.bounded()) g.jump = true;
            else if (op == RTE || op == RTA) { // k + 1/2 in [lo, hi]
                M d(80); mpfr_set_ld(d, 0.5L, MPFR_RNDN); M ww(17000); mpfr_sub(ww, u, d, MPFR_RNDN);
                mpfr_ceil(ww, ww); mpfr_add(ww, ww, d, MPFR_RNDN); g.jump = mpfr_lessequal_p((mpfr_srcptr)ww, (mpfr_srcptr)v);
            } else {
                mpfr_ceil(k, u); g.jump = mpfr_lessequal_p((mpfr_srcptr)k, (mpfr_srcptr)v);
                if (op == TRUNC && g.jump && mpfr_zero_p((mpfr_srcptr)k)) { mpfr_floor(k2, v); g.jump = !mpfr_zero_p((mpfr_srcptr)k2); }
            }
        }
        if (m.olo ? x.hi <= m.dlo : x.hi < m.dlo) return g;
        if (m.ohi ? x.lo >= m.dhi : x.lo > m.dhi) return g;
        LD l = std::max(x.lo, m.dlo), u = std::min(x.hi, m.dhi);
        LD rl = ev1(m.f, m.sgn > 0 ? l : u, tr, -1), ru = ev1(m.f, m.sgn > 0 ? u : l, tr, 1);
        Hull h(tr); h.addv(rl, ru); g.r = h.iv();
        return g;
    }
    Hull h(tr);
    g.def = g.cont = true;
    switch (op) {
    case ADD: case SUB: {
        IV x = a[0], y = a[1]; if (op == SUB) y = IV(-y.hi, -y.lo);
        auto s = [&](LD u, LD v, int dir) { M p1 = mk(u), q = mk(v), r(W); mpfr_add(r, p1, q, R(dir)); return to_ty(r, tr, dir); };
        h.addv(s(x.lo, y.lo, -1), s(x.hi, y.hi, 1)); g.r = h.iv(); return g; }
    case MUL:
        for (LD u : {a[0].lo, a[0].hi}) for (LD v : {a[1].lo, a[1].hi}) h.fn([&](mpfr_ptr r, mpfr_rnd_t d) { mulx(r, u, v, d); });
        g.r = h.iv(); return g;
    case FMA:
        for (LD u : {a[0].lo, a[0].hi}) for (LD v : {a[1].lo, a[1].hi}) for (LD w : {a[2].lo, a[2].hi})
            h.fn([&](mpfr_ptr r, mpfr_rnd_t d) {
                if (u == 0 || v == 0) { mpfr_set_ld(r, w, d); return; }
                M x = mk(u), y = mk(v), z = mk(w); mpfr_fma(r, x, y, z, d); });
        g.r = h.iv(); return g;
    case DIV: return div_r(tr, a[0], a[1]);
    case RECIP: return div_r(tr, IV(1, 1), a[0]);
    case SQR: return pown_r(tr, a[0], 2);
    case POWN: return pown_r(tr, a[0], p);
    case POW: return pow_r(tr, a[0], a[1]);
    case SIN: case COS: case TAN: return trig(op, tr, a[0]);
    case ATAN2: return atan2_r(tr, a[0], a[1]);
    case COSH: h.addv(ev1(mpfr_cosh, mig_(a[0]), tr, -1), ev1(mpfr_cosh, mag_(a[0]), tr, 1)); g.r = h.iv(); return g;
    case ABS: h.addv(round_ld(mig_(a[0]), tr, -1), round_ld(mag_(a[0]), tr, 1)); g.r = h.iv(); return g;
    case MIN_: h.addv(round_ld(std::min(a[0].lo, a[1].lo), tr, -1), round_ld(std::min(a[0].hi, a[1].hi), tr, 1)); g.r = h.iv(); return g;
    case MAX_: h.addv(round_ld(std::max(a[0].lo, a[1].lo), tr, -1), round_ld(std::max(a[0].hi, a[1].hi), tr, 1)); g.r = h.iv(); return g;
    default: break;
    }
    return g;
}

Dec dec_of(Range const& g, IV const* a, int n) {
    bool bounded = true;
    for (int i = 0; i < n; ++i) { if (a[i].empty) return TRV; bounded = bounded && a[i].bounded(); }
    if (g.cont) return bounded && !g.jump && g.r.bounded() ? COM : DAC;
    if (g.def) return DEF;
    return TRV;
}

bool point_value(OpId op, LD const* a, int p, M& lo, M& hi) {
    MpfrState st;
    M x = mk(a[0]);
    auto both = [&](std::function<int(mpfr_ptr, mpfr_rnd_t)> const& f) { f(lo, MPFR_RNDD); f(hi, MPFR_RNDU); return true; };
    Mono m;
    if (mono_of(op, m)) {
        if (a[0] < m.dlo || a[0] > m.dhi || (m.olo && a[0] == m.dlo) || (m.ohi && a[0] == m.dhi)) return false;
        return both([&](mpfr_ptr r, mpfr_rnd_t d) { return m.f(r, x, d); });
    }
    int n = op_arity(op);
    M y = mk(n > 1 ? a[1] : 0), z = mk(n > 2 ? a[2] : 0);
    switch (op) {
    case ADD: return both([&](mpfr_ptr r, mpfr_rnd_t d) { return mpfr_add(r, x, y, d); });
    case SUB: return both([&](mpfr_ptr r, mpfr_rnd_t d) { return mpfr_sub(r, x, y, d); });
    case MUL: return both([&](mpfr_ptr r, mpfr_rnd_t d) { return mpfr_mul(r, x, y, d); });
    case DIV: if (a[1] == 0) return false; return both([&](mpfr_ptr r, mpfr_rnd_t d) { return mpfr_div(r, x, y, d); });
    case RECIP: if (a[0] == 0) return false; return both([&](mpfr_ptr r, mpfr_rnd_t d) { return mpfr_ui_div(r, 1, x, d); });
    case FMA: return both([&](mpfr_ptr r, mpfr_rnd_t d) { return mpfr_fma(r, x, y, z, d); });
    case SQR: return both([&](mpfr_ptr r, mpfr_rnd_t d) { return mpfr_sqr(r, x, d); });
    case POWN: if (a[0] == 0 && p < 0) return false; return both([&](mpfr_ptr r, mpfr_rnd_t d) { return mpfr_pow_si(r, x, p, d); });
    case POW: if (a[0] < 0 || (a[0] == 0 && a[1] <= 0)) return false; return both([&](mpfr_ptr r, mpfr_rnd_t d) { return mpfr_pow(r, x, y, d); });
    case SIN: return both([&](mpfr_ptr r, mpfr_rnd_t d) { return mpfr_sin(r, x, d); });
    case COS: return both([&](mpfr_ptr r, mpfr_rnd_t d) { return mpfr_cos(r, x, d); });
    case TAN: return both([&](mpfr_ptr r, mpfr_rnd_t d) { return mpfr_tan(r, x, d); });
    case ATAN2: if (a[0] == 0 && a[1] == 0) return false;
        if (a[0] == 0) mpfr_set_zero(x, 1);
        return both([&](mpfr_ptr r, mpfr_rnd_t d) { return mpfr_atan2(r, x, y, d); });
    case COSH: return both([&](mpfr_ptr r, mpfr_rnd_t d) { return mpfr_cosh(r, x, d); });
    case ABS: return both([&](mpfr_ptr r, mpfr_rnd_t d) { return mpfr_abs(r, x, d); });
    case MIN_: return both([&](mpfr_ptr r, mpfr_rnd_t d) { return mpfr_min(r, x, y, d); });
    case MAX_: return both([&](mpfr_ptr r, mpfr_rnd_t d) { return mpfr_max(r, x, y, d); });
    default: return false;
    }
}

LD rnd_op(int kind, LD a, LD b, Ty t, int dir) {
    MpfrState st;
    M x = mk(a), y = mk(b), r(W);
    switch (kind) {
    case '+': mpfr_add(r, x, y, R(dir)); break;
    case '-': mpfr_sub(r, x, y, R(dir)); break;
    case '*': mpfr_mul(r, x, y, R(dir)); break;
    default: mpfr_div(r, x, y, R(dir)); break;
    }
    return to_ty(r, t, dir); // dir 0: callers use it only where double rounding cannot matter
}
int cmp_sum(LD a, LD b, LD c, LD d) {
    MpfrState st;
    M t[4] = {mk(a), mk(b), mk(-c), mk(-d)};
    mpfr_ptr tab[4] = {t[0], t[1], t[2], t[3]};
    M r(64); mpfr_sum(r, tab, 4, MPFR_RNDN);
    return mpfr_sgn((mpfr_srcptr)r);
}
}
