#include "num.hpp"
#include "hold.hpp"
#include <algorithm>
namespace vh {
thread_local int alias_mode = -1; thread_local unsigned long alias_hits = 0; thread_local std::vector<bool (*)()>* hold_checks = nullptr;
char const* const ty_name[3] = {"float", "double", "long double"};
char const* const dec_name[5] = {"ill", "trv", "def", "dac", "com"};
Fmt const fmt[3] = {{24, -125, 128}, {53, -1021, 1024}, {64, -16381, 16384}};

template <class T> static LD maxof() { return std::numeric_limits<T>::max(); }
LD t_max(Ty t) { return t == TF ? maxof<float>() : t == TD ? maxof<double>() : maxof<LD>(); }
LD t_dmin(Ty t) { return ldexpl(1.0L, fmt[t].emin - fmt[t].p); }
LD t_nmin(Ty t) { return ldexpl(1.0L, fmt[t].emin - 1); }
LD t_eps(Ty t) { return ldexpl(1.0L, 1 - fmt[t].p); }
LD succ(LD x, Ty t) {
    if (t == TF) return std::nextafterf((float)x, std::numeric_limits<float>::infinity());
    if (t == TD) return std::nextafter((double)x, std::numeric_limits<double>::infinity());
    return std::nextafterl(x, INFL);
}
LD pred(LD x, Ty t) { return -succ(-x, t); }
bool representable(LD x, Ty t) { return std::isnan(x) || (t == TF ? (LD)(float)x == x : t == TD ? (LD)(double)x == x : true); }
LD round_ld(LD x, Ty t, int dir) {
    LD y = t == TF ? (LD)(float)x : t == TD ? (LD)(double)x : x;
    if (dir < 0 && y > x) y = pred(y, t);
    if (dir > 0 && y < x) y = succ(y, t);
    return y;
}
std::string show(IV const& x) { return x.empty ? "[empty]" : "[" + hexld(x.lo) + ", " + hexld(x.hi) + "]"; }
std::string show(DIV_ const& x) { return x.nai() ? "[nai]" : show(x.x) + "_" + dec_name[x.d]; }

static LD rnd(LD x, Ty t) { return t == TF ? (LD)(float)x : t == TD ? (LD)(double)x : x; }
static LD mant(Src& s, int p) { // in [1,2)
    switch (s.draw(4)) {
    case 0: return 1.0L;
    case 1: { uint64_t k = s.draw(16); return 1.0L + k / 16.0L; }
    case 2: return 2.0L - ldexpl(1.0L + s.draw(4), 1 - p);
    default: { uint64_t m = s.bits(p - 1); return 1.0L + ldexpl((LD)m, 1 - p); }
    }
}
static LD nudge(Src& s, LD x, Ty t) {
    int k = (int)s.draw(8);
    switch (k) { case 5: return succ(x, t); case 6: return pred(x, t); case 7: { int n = s.range(2, 9); bool up = s.draw(2); while (n--) x = up ? succ(x, t) : pred(x, t); return x; } default: return x; }
}
static LD const PI_L = 3.141592653589793238462643383279502884L;
LD gen_num(Src& s, Ty t, bool fin) {
    Fmt const& f = fmt[t];
    LD x = 0;
    switch (s.draw(16)) {
    case 0: case 1: x = (LD)s.draw(9); break;
    case 2: x = (LD)s.draw(64) / (LD)(1 << s.draw(5)); break;
    case 3: { LD sp[] = {0, 1, 0.5L, 2, t_dmin(t), t_nmin(t), t_max(t), 1 + t_eps(t), 1 - t_eps(t) / 2, t_eps(t), pred(t_nmin(t), t), pred(t_max(t), t), 10, 3};
              x = s.pick(std::vector<LD>(sp, sp + 14)); break; }
    case 4: case 5: { int e = s.range(f.emin - f.p, f.emax - 1); LD m = mant(s, f.p); x = rnd(ldexpl(m, e), t); if (std::isinf(x)) x = t_max(t); break; }
    case 6: case 7: case 8: { int e = s.range(-12, 12); x = rnd(ldexpl(mant(s, f.p), e), t); break; }
    case 9: { LD k = s.draw(3) ? (LD)s.draw(20) : s.draw(2) ? (LD)s.draw(1u << 20) : (LD)s.bits(s.range(20, 62)); x = rnd(k * PI_L / 2, t); break; }
    case 10: { LD lg = (LD)f.emax * 0.69314718055994530942L, ls = (LD)(f.p - f.emin) * 0.69314718055994530942L;
               LD sp[] = {lg, ls, (LD)f.emax, (LD)(f.p - f.emin), (LD)f.emax * 0.30102999566398119521L, (LD)(f.p - f.emin) * 0.30102999566398119521L,
                          sqrtl(t_max(t)), sqrtl(t_nmin(t)), sqrtl(t_dmin(t)), ldexpl(1, f.p - 1), ldexpl(1, f.p), lg + 0.69314718L, 1.5707963267948966L, ls - 36, (LD)f.p * 0.35L};
               x = rnd(sp[s.draw(15)], t); break; }
    case 11: { x = (LD)s.bits(s.range(1, f.p < 60 ? f.p : 60)); x = rnd(x, t) + (s.draw(2) ? 0.5L : 0.0L); x = rnd(x, t); break; }
    case 12: x = ldexpl(1.0L, s.draw(3) ? s.range(-40, 40) : s.range(f.emin - f.p, f.emax - 1)); break;
    case 13: { LD k = (LD)s.draw(2000); x = s.draw(2) ? rnd(k * k, t) : rnd(powl(10.0L, s.draw(3) ? s.range(-8, 12) : s.range(-37, 37)), t); break; }
    case 14: x = rnd((LD)s.draw(1000) / (s.draw(2) ? 10.0L : 1000.0L), t); break;
    case 15: x = rnd(ldexpl(mant(s, f.p), s.range(-f.p - 3, f.p + 3)), t); break;
    }
    x = nudge(s, x, t);
    if (s.draw(2)) x = -x;
    if (fin && std::isinf(x)) x = x > 0 ? t_max(t) : -t_max(t);
    return x;
}
LD gen_mod(Src& s, Ty t) {
    switch (s.draw(4)) {
    case 0: return gen_num(s, t, true);
    case 1: { LD k = (LD)s.draw(64); LD x = rnd(k * PI_L / 2, t); x = nudge(s, x, t); return s.draw(2) ? -x : x; }
    default: { LD x = rnd(ldexpl(mant(s, fmt[t].p), s.range(-8, 8)), t); return s.draw(2) ? -x : x; }
    }
}
LD gen_rel(Src& s, Ty t, Pool const& p) {
    if (!p.v.empty() && s.draw(3) == 2) {
        LD x = s.pick(p.v);
        switch (s.draw(6)) {
        case 0: break;
        case 1: x = -x; break;
        case 2: x = x / 2; break;
        case 3: x = x * 2; break;
        case 4: if (x != 0 && std::isfinite(x)) x = 1 / x; break;
        case 5: x = x + (LD)s.range(-2, 2); break;
        }
        x = rnd(x, t);
        if (std::isnan(x)) x = 0;
        x = nudge(s, x, t);
        if (std::isinf(x)) x = x > 0 ? t_max(t) : -t_max(t);
        return x;
    }
    return gen_num(s, t, true);
}
IV gen_iv(Src& s, Ty t, Pool* p, bool allow_empty) {
    static Pool none; Pool const& q = p ? *p : none;
    IV r;
    unsigned k = (unsigned)s.draw(24);
    LD a, b;
    switch (k) {
    case 0: a = gen_rel(s, t, q); r = IV(a, a); break;
    case 1: a = gen_rel(s, t, q); b = succ(a, t); r = IV(a, std::isinf(b) ? a : b); break;
    case 2: if (allow_empty && s.draw(3) == 0) { r = IV(); break; }
            // fall through
    case 3: r = IV(-INFL, INFL); if (s.draw(2)) { a = gen_rel(s, t, q); r = IV(a, INFL); } break;
    case 4: a = gen_rel(s, t, q); r = IV(-INFL, a); break;
    case 5: a = gen_rel(s, t, q); r = IV(a, INFL); break;
    case 6: a = fabsl(gen_rel(s, t, q)); r = IV(-a, a); break;
    case 7: a = fabsl(gen_rel(s, t, q)); r = IV(s.draw(2) ? 0.0L : -0.0L, a); break;
    case 8: a = fabsl(gen_rel(s, t, q)); r = IV(-a, s.draw(2) ? 0.0L : -0.0L); break;
    case 9: { a = gen_rel(s, t, q); b = a; int n = s.range(1, 40); while (n--) b = succ(b, t); r = IV(a, std::isinf(b) ? t_max(t) : b); break; }
    case 10: case 11: { a = gen_rel(s, t, q); b = a + fabsl(a) * ldexpl(1, -s.range(0, 30)); b = rnd(b, t); if (!(b >= a)) b = a; if (std::isinf(b)) b = t_max(t); r = IV(a, b); break; }
    case 12: case 13: case 14: { a = gen_mod(s, t); LD w = rnd(fabsl(gen_mod(s, t)), t); b = rnd(a + w, t); if (!(b >= a)) b = a; if (std::isinf(b)) b = t_max(t); r = IV(a, b); break; }
    case 15: { a = gen_mod(s, t); LD w = PI_L * (LD)s.range(1, 5) / 2; b = rnd(a + w, t); b = nudge(s, b, t); if (!(b >= a)) b = a; if (std::isinf(b)) b = t_max(t); r = IV(a, b); break; }
    default: a = gen_rel(s, t, q); b = gen_rel(s, t, q); r = a <= b ? IV(a, b) : IV(b, a); break;
    }
    if (!r.empty && r.lo > r.hi) std::swap(r.lo, r.hi);
    if (p) p->add(r);
    return r;
}
Dec gen_dec_for(Src& s, IV const& x) {
    if (x.empty) return TRV;
    return Dec((x.bounded() ? COM : DAC) - (int)s.draw(x.bounded() ? 4 : 3));
}
LD gen_point(Src& s, IV const& x) {
    LD lo = std::isinf(x.lo) ? -std::numeric_limits<LD>::max() : x.lo;
    LD hi = std::isinf(x.hi) ? std::numeric_limits<LD>::max() : x.hi;
    if (std::isinf(x.lo) && x.hi == -std::numeric_limits<LD>::max()) lo = x.hi;
    auto clip = [&](LD v) { return v < lo ? lo : v > hi ? hi : v; };
    switch (s.draw(10)) {
    case 0: return lo;
    case 1: return hi;
    case 2: return clip(lo / 2 + hi / 2);
    case 3: return clip((LD)s.range(-3, 3));
    case 4: return clip(std::nextafterl(lo, INFL));
    case 5: return clip(std::nextafterl(hi, -INFL));
    case 6: { LD u = ldexpl((LD)s.bits(62), -62); return clip(lo + (hi / 2 - lo / 2) * u * 2); }
    case 7: { // log-uniform
        LD m = ldexpl(1.0L + ldexpl((LD)s.bits(40), -40), s.range(-200, 200)); if (s.draw(2)) m = -m; return clip(m); }
    case 8: { LD k = (LD)s.range(-40, 40); return clip(k * PI_L / 2); }
    default: { LD u = ldexpl(1.0L + (LD)s.bits(20), -s.range(20, 60)); return s.draw(2) ? clip(lo + fabsl(lo) * u) : clip(hi - fabsl(hi) * u); }
    }
}
}
