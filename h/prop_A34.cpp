// A34: conversion of numbers and representations, verdicts on representations,
// and the number wrapper everything is computed with
#include "lib.hpp"
#include "p1788/util/mpfr_var.hpp"
#include "p1788/util/mpfr_util.hpp"
#include "oracle.hpp"
#include <climits>
namespace vh {
char const* const prop_id = "A34";
char const* const prop_rule = "a case is one conversion of a number or a representation between two types, one verdict on a representation, one sum of two numbers with its error, or one value put into a number wrapper of some precision and exponent range and read back; non-trivial when something is rounded, a bound is NaN or infinite, the representation is invalid or the number is subnormal in its target";
void prop_setup() {}
namespace ex = p1788::exception;
typedef unsigned __int128 U128;
static LD const NaN = std::numeric_limits<LD>::quiet_NaN();

// ---- independent rounding of m * 2^k to a format given by precision and range
struct Num { int kind = 0; /* 0 finite, 1 infinite, 2 nan */ bool neg = false; U128 m = 0; int k = 0; };
static int blen(U128 m) { int n = 0; while (m) { ++n; m >>= 1; } return n; }
struct F { int p, emin, emax; bool sub; };
static Num from_ld(LD x) {
    Num n; n.neg = std::signbit(x);
    if (std::isnan(x)) { n.kind = 2; return n; }
    if (std::isinf(x)) { n.kind = 1; return n; }
    if (x == 0) return n;
    int e; LD f = std::frexp(fabsl(x), &e); n.m = (unsigned long long)std::ldexp(f, 64); n.k = e - 64;
    while (!(n.m & 1)) { n.m >>= 1; ++n.k; }
    return n;
}
// sign of (rounded - exact) in *t
static Num rnd(Num n, F f, mpfr_rnd_t r, int* t = nullptr, bool* inexact = nullptr) {
    if (t) *t = 0;
    if (inexact) *inexact = false;
    if (n.kind || !n.m) return n;
    bool up = r == MPFR_RNDA || (r == MPFR_RNDU && !n.neg) || (r == MPFR_RNDD && n.neg), near = r == MPFR_RNDN;
    int e = blen(n.m) + n.k, q = e - f.p;
    if (f.sub ? q < f.emin - 1 : e < f.emin) q = f.emin - 1;
    int drop = q - n.k; Num o = n; bool bigger = false, inex = false;
    if (drop > 0) {
        U128 keep = drop >= 128 ? 0 : n.m >> drop, rest = drop >= 128 ? n.m : n.m & ((U128(1) << drop) - 1);
        if (rest) {
            inex = true;
            int half = drop > 128 ? -1 : drop == 128 ? (n.m > (U128(1) << 127) ? 1 : n.m == (U128(1) << 127) ? 0 : -1) : (rest > (U128(1) << (drop - 1)) ? 1 : rest == (U128(1) << (drop - 1)) ? 0 : -1);
            bigger = up || (near && (half > 0 || (half == 0 && (keep & 1))));
        }
        o.m = keep + (bigger ? 1 : 0); o.k = q;
    }
    if (o.m && blen(o.m) + o.k > f.emax) {
        inex = true;
        if (up || near) { o.kind = 1; bigger = true; }
        else { o.m = (U128(1) << f.p) - 1; o.k = f.emax - f.p; bigger = false; }
    }
    if (o.kind == 0 && o.m == 0) o.k = 0;
    while (o.m && !(o.m & 1)) { o.m >>= 1; ++o.k; }
    if (t) *t = !inex ? 0 : bigger != n.neg ? 1 : -1;
    if (inexact) *inexact = inex;
    return o;
}
static F fmt_of(Ty t) { return F{fmt[t].p, t == TF ? -148 : t == TD ? -1073 : -16444, t == TF ? 128 : t == TD ? 1024 : 16384, true}; }
static LD to_ld(Num const& n) { LD v = n.kind == 2 ? NaN : n.kind == 1 ? INFL : 0; if (!n.kind && n.m) { U128 m = n.m; v = std::ldexp((LD)(unsigned long long)(m >> 64), n.k + 64) + std::ldexp((LD)(unsigned long long)m, n.k); } return n.neg ? -v : v; }
static bool same_num(LD a, LD b, bool zs) { return (std::isnan(a) && std::isnan(b)) || (a == b && (!zs || a != 0 || std::signbit(a) == std::signbit(b))); }

// ---- generators
// a number of type ts, often next to a number of type t or to a middle of two
static LD gen_val(Src& s, Ty ts, Ty t) {
    switch (s.draw(6)) {
    case 0: { static LD const V[] = {0, -0.0L, INFL, -INFL, NaN, 1, -1}; return V[s.draw(7)]; }
    case 1: case 2: {
        LD v = s.draw(2) ? gen_num(s, t, true) : (LD)s.range(0, 1 << (s.draw(2) ? 4 : 24)) * t_dmin(t), w = v; if (s.draw(2)) v = w = -v;
        if (s.draw(12) == 11) v = w = s.draw(2) ? t_max(t) : -t_max(t);
        if (s.draw(2)) { int q; std::frexp(v == 0 ? t_dmin(t) : v, &q); w = v + std::ldexp(s.draw(2) ? 1.0L : -1.0L, std::max(q - fmt[t].p, fmt_of(t).emin - 1) - 1); }
        w = round_ld(w, ts, 0); int d = s.range(-1, 1); if (d && std::isfinite(w)) w = round_ld(std::nextafterl(w, d * INFL), ts, d);
        return w; }
    default: return gen_num(s, ts);
    }
}
template <class T> T narrow_nan(LD v) { return std::isnan(v) ? std::numeric_limits<T>::quiet_NaN() : (T)v; }
static char const* rname(mpfr_rnd_t r) { return r == MPFR_RNDN ? "to nearest" : r == MPFR_RNDD ? "downwards" : r == MPFR_RNDU ? "upwards" : r == MPFR_RNDZ ? "towards zero" : "away from zero"; }

// what a call for another type leaves behind
static void stir(unsigned long long& w) { int k = w % 4; w /= 4; if (k == 3) { mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max()); } else { F f = fmt_of(Ty(k)); mpfr_set_emin(f.emin); mpfr_set_emax(f.emax); } }
static unsigned long long stirring = 0;
template <class T, class S> void conv_num(Ctx& c, LD v) {
    Ty t = TyOf<T>::v, ts = TyOf<S>::v; S x = narrow_nan<S>(v); Num n = from_ld(v);
    static mpfr_rnd_t const R[] = {MPFR_RNDD, MPFR_RNDN, MPFR_RNDU}; static char const* N[] = {"convert_rndd", "convert_rndn", "convert_rndu"};
    bool inex = false;
    for (int i = 0; i < 3; ++i) {
        stir(stirring); LD g = i == 0 ? FL<T>::convert_rndd(x) : i == 1 ? FL<T>::convert_rndn(x) : FL<T>::convert_rndu(x); bool ie; LD e = to_ld(rnd(n, fmt_of(t), R[i], nullptr, &ie)); inex |= ie;
        if (e == 0) e = i == 0 ? -0.0L : 0.0L;
        if (!same_num(g, e, true)) c.fail(std::string("A34:") + N[i], strf("%s<%s>(%s %s)\n  gives %s\n  expected %s", N[i], ty_name[t], ty_name[ts], hexld(v).c_str(), hexld(g).c_str(), hexld(e).c_str()));
    }
    if (inex || std::isnan(v)) c.nontrivial = true;
    if (ex::state() != ex::none_bit) c.fail("A34:conversion raises", "a conversion of the number " + hexld(v) + " raises a flag");
}
template <class T, class S> void conv_rep(Ctx& c, bool dec, LD a, LD b, int code) {
    Ty t = TyOf<T>::v, ts = TyOf<S>::v; typedef typename FL<S>::representation R; typedef typename FL<S>::representation_dec RD;
    R x(narrow_nan<S>(a), narrow_nan<S>(b));
    LD el = to_ld(rnd(from_ld(a), fmt_of(t), MPFR_RNDD)), eu = to_ld(rnd(from_ld(b), fmt_of(t), MPFR_RNDU)), gl, gu; int gc = 0, ec = code; if (el == 0) el = -0.0L; if (eu == 0) eu = 0.0L;
    stir(stirring);
    if (!dec) { auto r = FL<T>::convert_hull(x); gl = r.first; gu = r.second; }
    else {
        RD y(x, (LDec)code); auto r = FL<T>::convert_hull(y); gl = r.first.first; gu = r.first.second; gc = (int)r.second;
        if (code == (int)LDec::com && (el == -INFL || eu == INFL)) ec = (int)LDec::dac;
        if (code == (int)LDec::ill) { ec = code; if (std::isnan(a) && std::isnan(b)) el = eu = NaN; else { c.label("convert_hull: ill with bounds"); return; } }
    }
    bool valid = (std::isnan(a) && std::isnan(b)) || (a <= b && a != INFL && b != -INFL); if (!valid) c.label("convert_hull: no interval"); if (!valid || el != a || eu != b) c.nontrivial = true;
    if (!same_num(gl, el, true) || !same_num(gu, eu, true) || (dec && gc != ec)) c.fail("A34:convert_hull", strf("convert_hull<%s>((%s,%s)%s of %s)\n  gives (%s,%s)%s\n  expected (%s,%s)%s", ty_name[t], hexld(a).c_str(), hexld(b).c_str(), dec ? strf(" decoration code %d", code).c_str() : "", ty_name[ts], hexld(gl).c_str(), hexld(gu).c_str(), dec ? strf(" code %d", gc).c_str() : "", hexld(el).c_str(), hexld(eu).c_str(), dec ? strf(" code %d", ec).c_str() : ""));
}
template <class T> void verdict(Ctx& c, bool dec, LD a, LD b, int code) {
    typedef typename FL<T>::representation R; typedef typename FL<T>::representation_dec RD; R x(narrow_nan<T>(a), narrow_nan<T>(b));
    bool emp = std::isnan(a) && std::isnan(b), prop = a <= b && a != INFL && b != -INFL, want;
    if (!dec) want = emp || prop;
    else { bool known = code == 0 || code == 4 || code == 8 || code == 12 || code == 16; want = known && (emp ? code == 0 || code == 4 : prop && code != 0 && (code != 16 || (std::isfinite(a) && std::isfinite(b)))); if (!known) { c.label("is_valid: decoration that is none"); return; } }
    bool got = dec ? FL<T>::is_valid(RD(x, (LDec)code)) : FL<T>::is_valid(x); unsigned f = (unsigned)ex::state(); ex::clear();
    if (!want || emp || !std::isfinite(a) || !std::isfinite(b)) c.nontrivial = true; if (!want) c.label("is_valid: invalid representation");
    std::string d = strf("is_valid((%s,%s)%s of %s)", hexld(a).c_str(), hexld(b).c_str(), dec ? strf(" decoration code %d", code).c_str() : "", ty_name[TyOf<T>::v]);
    if (got != want) c.fail("A34:is_valid", d + strf("\n  gives %s", got ? "true" : "false"));
    if (f != (want ? 0u : 8u)) c.fail("A34:is_valid:flag", d + strf("\n  leaves exception state %u, expected %u", f, want ? 0u : 8u));
    // predicates on representations follow from it
    if (want) {
        bool e = dec ? FL<T>::is_empty(RD(x, (LDec)code)) : FL<T>::is_empty(x), n = dec && FL<T>::is_nai(RD(x, (LDec)code));
        if (e != (emp && !(dec && code == 0)) || n != (dec && code == 0)) c.fail("A34:is_empty", d + strf("\n  is_empty %d, is_nai %d", e, n));
    }
}
template <class T> void sum_err(Ctx& c, LD a, LD b) {
    Ty t = TyOf<T>::v; if (!std::isfinite(a) || !std::isfinite(b)) return;
    stir(stirring); auto r = p1788::util::two_sum<T>((T)a, (T)b); LD s = rnd_op('+', a, b, t, 0); if (fabsl(s) > t_max(t) / 4) { c.label("two_sum: near the largest number"); return; }
    MpfrState st; M q(33000), p = mk(a), h = mk(b), z = mk(s); mpfr_add(q, p, h, MPFR_RNDN); mpfr_sub(q, q, z, MPFR_RNDN); LD e = mpfr_get_ld(q, MPFR_RNDN); if (e != 0) c.nontrivial = true;
    if (!same_num(r.first, s, false) || !same_num(r.second, e, false)) c.fail("A34:two_sum", strf("two_sum<%s>(%s, %s)\n  gives %s , %s\n  expected %s , %s", ty_name[t], hexld(a).c_str(), hexld(b).c_str(), hexld(r.first).c_str(), hexld(r.second).c_str(), hexld(s).c_str(), hexld(e).c_str()));
}

// ---- the wrapper
template <class V> static Num value_of(V const& v) {   // exact value held, through mpfr integers
    Num n; mpfr_srcptr x = v(); n.neg = mpfr_signbit(x);
    if (mpfr_nan_p(x)) { n.kind = 2; return n; } if (mpfr_inf_p(x)) { n.kind = 1; return n; } if (mpfr_zero_p(x)) return n;
    mpz_t z; mpz_init(z); n.k = (int)mpfr_get_z_2exp(z, x); mpz_abs(z, z); mpz_t h; mpz_init(h); mpz_tdiv_q_2exp(h, z, 64); mpz_tdiv_r_2exp(z, z, 64);
    auto u64 = [](mpz_t y) { unsigned long long o = 0; size_t cnt = 0; mpz_export(&o, &cnt, -1, 8, 0, 0, y); return cnt ? o : 0ull; };
    n.m = (U128(u64(h)) << 64) | u64(z); mpz_clear(z); mpz_clear(h); while (n.m && !(n.m & 1)) { n.m >>= 1; ++n.k; }
    return n;
}
static bool eqn(Num const& a, Num const& b) { return a.kind == b.kind && (a.kind == 2 || (a.neg == b.neg && (a.kind == 1 || (a.m == b.m && (!a.m || a.k == b.k))))); }
static std::string shown(Num const& n) { if (n.kind == 2) return "nan"; if (n.kind == 1) return n.neg ? "-inf" : "inf"; return strf("%s0x%llx%016llx*2^%d", n.neg ? "-" : "", (unsigned long long)(n.m >> 64), (unsigned long long)n.m, n.k); }
template <class V> static void put(V& v, int how, LD x, unsigned long u, long i, mpfr_rnd_t r) { switch (how) { case 0: v.set((float)x, r); break; case 1: v.set((double)x, r); break; case 2: v.set(x, r); break; case 3: v.set(u, r); break; default: v.set(i, r); } }
template <class V> struct Get { template <class T> static LD as(V& v, mpfr_rnd_t r) { return v.template get<T>(r); } };
template <class V> void wrap(Ctx& c) {
    Src& s = c.src; F f{(int)V::PREC, (int)V::EMIN, (int)V::EMAX, V::SUBNORMALIZE};
    static mpfr_rnd_t const R[] = {MPFR_RNDN, MPFR_RNDD, MPFR_RNDU, MPFR_RNDZ, MPFR_RNDA};
    int how = (int)s.draw(5); mpfr_rnd_t r = R[s.draw(5)], r2 = R[s.draw(5)]; bool ctor = s.draw(2); LD x = 0; unsigned long u = 0; long i = 0; Num n;
    if (how < 3) {
        Ty ts = Ty(how); 
        if (s.draw(2)) { // about the limits of the format
            int e = s.draw(4) == 3 ? f.emax : s.draw(3) ? f.emin + s.range(-3, 4) + (int)s.draw(2) * f.p : s.range(-30, 30); int extra = s.range(1, 3);
            Num g; g.neg = s.draw(2); g.m = s.draw(0) >> (64 - std::min(64, f.p + extra)); if (s.draw(3) == 2) g.m = (U128(1) << std::min(63, f.p + 1)) - 1 - s.draw(2); g.k = e - std::min(64, f.p + extra);
            x = round_ld(to_ld(rnd(g, fmt_of(TL), MPFR_RNDN)), ts, 0); if (!std::isfinite(x)) x = t_max(ts);
        } else x = gen_val(s, ts, Ty(s.draw(3)));
        n = from_ld(x);
    } else if (how == 3) { u = s.draw(0) >> s.draw(64); n.m = u; while (n.m && !(n.m & 1)) { n.m >>= 1; ++n.k; } }
    else { unsigned long w = s.draw(0) >> s.draw(64); i = (long)w; if (s.draw(16) == 15) i = s.draw(2) ? LONG_MIN : LONG_MAX; n.neg = i < 0; n.m = i < 0 ? 0ul - (unsigned long)i : (unsigned long)i; while (n.m && !(n.m & 1)) { n.m >>= 1; ++n.k; } }
    std::string d = strf("mpfr_var<%d,%d,%d,%s> %s %s %s", f.p, f.emin, f.emax, f.sub ? "true" : "false", ctor ? "constructed from" : "set to", how == 0 ? "float" : how == 1 ? "double" : how == 2 ? "long double" : how == 3 ? "unsigned long" : "long", shown(n).c_str()) + ", rounded " + rname(r);
    if (c.verbose) c.note(d);
    V::setup();
    V a; Num got; if (!mpfr_nan_p(a())) c.fail("A34:wrapper:default", "a default constructed " + d + " is not NaN");
    if (ctor) switch (how) { case 0: { V b((float)x, r); got = value_of(b); break; } case 1: { V b((double)x, r); got = value_of(b); break; } case 2: { V b(x, r); got = value_of(b); break; } case 3: { V b(u, r); got = value_of(b); break; } default: { V b(i, r); got = value_of(b); } }
    put(a, how, x, u, i, r); if (!ctor) got = value_of(a);
    bool ie; Num want = rnd(n, f, r, nullptr, &ie); if (ie || n.kind) c.nontrivial = true;
    if (!eqn(got, want)) c.fail("A34:wrapper:set", d + "\n  holds " + shown(got) + "\n  expected " + shown(want));
    // reading
    for (int k = 0; k < 3; ++k) {
        LD g = k == 0 ? Get<V>::template as<float>(a, r2) : k == 1 ? Get<V>::template as<double>(a, r2) : Get<V>::template as<LD>(a, r2), e = to_ld(rnd(want, fmt_of(Ty(k)), r2));
        if (!same_num(g, e, true)) c.fail("A34:wrapper:get", d + "\n  read as " + ty_name[k] + " rounded " + rname(r2) + " gives " + hexld(g) + "\n  expected " + hexld(e));
    }
    if (!want.kind) {
        Num z = rnd(want, F{400, 1, 1 << 20, false}, r2); U128 mag = 0; bool big = blen(z.m) + z.k > 100; z = want; int e = blen(want.m) + want.k;
        if (!big) { // round to an integer
            if (want.k >= 0) mag = want.m << want.k; else { Num o = rnd(want, F{std::max(e, 1), e >= 1 ? -1000000 : 1, 1 << 20, false}, r2); if (e >= 1) mag = o.k >= 0 ? o.m << o.k : 0; else mag = o.m ? U128(1) : U128(0); if (e >= 1 && o.k < 0) big = true; }
        }
        if (!big || e > 64) {
            if (e > 64) mag = U128(1) << 100;
            U128 lim = want.neg ? U128(1) << 63 : (U128(1) << 63) - 1; long wi = mag > lim ? (want.neg ? LONG_MIN : LONG_MAX) : want.neg ? (long)(0ul - (unsigned long)mag) : (long)mag; unsigned long wu = want.neg ? 0ul : mag >> 64 ? ULONG_MAX : (unsigned long)mag;
            long gi = a.template get<long>(r2); unsigned long gu = a.template get<unsigned long>(r2);
            if (gi != wi || gu != wu) c.fail("A34:wrapper:integer", d + strf("\n  read as long and unsigned long rounded %s gives %ld , %lu\n  expected %ld , %lu", rname(r2), gi, gu, wi, wu));
        }
    }
    if (!eqn(value_of(a), want)) c.fail("A34:wrapper:get changes", d + "\n  reading changes the value");
    // the sum of two numbers, rounded once more to the format, with the direction of its error
    if (!want.kind) {
        Num y; y.neg = s.draw(2); y.m = s.draw(0) >> (64 - std::min(64, f.p)); y.k = want.k + s.range(-20, 20); int k = y.k; y = rnd(y, f, MPFR_RNDZ); V b, q; (void)k;
        if (!y.kind) {
            mpfr_set_uj_2exp(b(), (unsigned long long)y.m, y.k, MPFR_RNDN); if (y.neg) mpfr_neg(b(), b(), MPFR_RNDN);
            int k0 = std::min(want.k, y.k); if (!want.m) k0 = y.k; if (!y.m) k0 = want.k;
            if ((!want.m || blen(want.m) + want.k - k0 < 124) && (!y.m || blen(y.m) + y.k - k0 < 124) && eqn(value_of(b), y) && y.m && want.m) {
                __int128 p = (__int128)(want.m << (want.k - k0)), h = (__int128)(y.m << (y.k - k0)); __int128 w = (want.neg ? -p : p) + (y.neg ? -h : h); Num z; z.neg = w < 0; z.m = w < 0 ? U128(-w) : U128(w); z.k = k0;
                if (w != 0) {
                    int t, gt = q.subnormalize(mpfr_add(q(), a(), b(), r2), r2); Num e = rnd(z, f, r2, &t, &ie); if (ie) { c.nontrivial = true; c.label("sum in the wrapper: rounded"); }
                    Num gv = value_of(q); gt = gt > 0 ? 1 : gt < 0 ? -1 : 0;
                    if (!eqn(gv, e) || gt != t) c.fail("A34:wrapper:subnormalize", d + "\n  plus " + shown(y) + " rounded " + rname(r2) + " gives " + shown(gv) + strf(" with error sign %d", gt) + "\n  expected " + shown(e) + strf(" with error sign %d", t));
                }
            }
        }
    }
}
template <class T> static void constants(Ctx& c) {
    auto n = std::numeric_limits<T>::quiet_NaN(); (void)n; auto e = FL<T>::empty(); auto w = FL<T>::entire(); auto ed = FL<T>::empty_dec(); auto wd = FL<T>::entire_dec(); auto na = FL<T>::nai(); T i = std::numeric_limits<T>::infinity();
    bool ok = std::isnan(e.first) && std::isnan(e.second) && w.first == -i && w.second == i && std::isnan(ed.first.first) && std::isnan(ed.first.second) && ed.second == LDec::trv && wd.first.first == -i && wd.first.second == i && wd.second == LDec::dac && std::isnan(na.first.first) && std::isnan(na.first.second) && na.second == LDec::ill;
    if (!ok) c.fail("A34:constants", std::string("empty, entire or NaI of ") + ty_name[TyOf<T>::v] + " is not the documented representation");
}
template <class T> void by_source(Ctx& c, int kind, Ty ts, LD a, LD b, int code, bool dec) {
    if (kind == 0) { if (ts == TF) conv_num<T, float>(c, a); else if (ts == TD) conv_num<T, double>(c, a); else conv_num<T, LD>(c, a); }
    else if (kind == 1) { if (ts == TF) conv_rep<T, float>(c, dec, a, b, code); else if (ts == TD) conv_rep<T, double>(c, dec, a, b, code); else conv_rep<T, LD>(c, dec, a, b, code); }
    else if (kind == 2) verdict<T>(c, dec, a, b, code);
    else if (kind == 3) sum_err<T>(c, a, b);
    else constants<T>(c);
}
void run_case(Ctx& c) {
    Src& s = c.src; ex::set_throw_exception_cwd(ex::none_bit); ex::clear();
    static char const* K[] = {"conversion of a number", "convert_hull", "is_valid", "two_sum", "number wrapper", "constants"};
    int kind = (int)s.draw(40); stirring = s.draw(256); kind = kind < 8 ? 0 : kind < 14 ? 1 : kind < 20 ? 2 : kind < 26 ? 3 : kind < 39 ? 4 : 5; c.label(K[kind]);
    if (kind == 4) {
        using p1788::util::mpfr_var;
        switch (s.draw(9)) {
        case 0: wrap<mpfr_var<24, -148, 128, true>>(c); break;
        case 1: wrap<mpfr_var<53, -1073, 1024, true>>(c); break;
        case 2: wrap<mpfr_var<64, -16444, 16384, true>>(c); break;
        case 3: wrap<mpfr_var<24, -149, 128, false>>(c); break;
        case 4: wrap<mpfr_var<53, -1074, 1024, false>>(c); break;
        case 5: wrap<mpfr_var<11, -23, 16, true>>(c); break;
        case 6: wrap<mpfr_var<8, -132, 128, true>>(c); break;
        case 7: wrap<mpfr_var<4, -8, 8, true>>(c); break;
        default: wrap<mpfr_var<5, -6, 9, false>>(c); break;
        }
        return;
    }
    Ty t = Ty(s.draw(3)), ts = kind == 0 || kind == 1 ? Ty(s.draw(3)) : t; LD a = gen_val(s, ts, t), b = kind ? gen_val(s, ts, t) : 0; bool dec = s.draw(2); int code = 4 * (int)s.draw(5);
    if (kind == 1 || kind == 2) { switch (s.draw(6)) { case 0: a = b = NaN; break; case 1: case 2: case 3: if (a > b) std::swap(a, b); break; case 4: b = a; break; default: break; } }
    if (kind == 3 && s.draw(2)) { int q; std::frexp(a == 0 || !std::isfinite(a) ? 1 : a, &q); LD g = std::ldexp(gen_num(s, t, true), 0); int q2; LD m = std::frexp(g, &q2); if (std::isfinite(m)) { b = round_ld(std::ldexp(m, q + s.range(-fmt[t].p - 2, 3)), t, 0); } }
    if (c.verbose) c.note(std::string(K[kind]) + " " + ty_name[ts] + " to " + ty_name[t] + (dec ? " decorated " : " ") + hexld(a) + " " + hexld(b) + strf(" code %d", code));
    if (t == TF) by_source<float>(c, kind, ts, a, b, code, dec); else if (t == TD) by_source<double>(c, kind, ts, a, b, code, dec); else by_source<LD>(c, kind, ts, a, b, code, dec);
}
}
