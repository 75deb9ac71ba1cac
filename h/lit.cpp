#include "lit.hpp"
#include "oracle.hpp"
#include <algorithm>
namespace vh {
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
static bool dg(char c) { return c >= '0' && c <= '9'; }
static char lc(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
static bool hx(char c) { c = lc(c); return dg(c) || (c >= 'a' && c <= 'f'); }
static std::string low(std::string s) { for (char& c : s) c = lc(c); return s; }
static std::string trim(std::string const& s) { size_t a = 0, b = s.size(); while (a < b && ws(s[a])) ++a; while (b > a && ws(s[b - 1])) --b; return s.substr(a, b - a); }

static mpz_class pw(unsigned b, unsigned long e) { mpz_class r; mpz_ui_pow_ui(r.get_mpz_t(), b, e); return r; }
// exponent and the position of the point together do not fit an int
static bool beyond(long e) { return e < -2147483647L || e > 2147483647L; }
static mpq_class scale(mpz_class const& n, unsigned b, long e) {
    mpq_class q(n);
    if (e >= 0) q *= mpq_class(pw(b, e)); else { q = mpq_class(n, pw(b, -e)); q.canonicalize(); }
    return q;
}
// exponent digits -> long; false when outside int
static bool exp_of(std::string const& s, long& e, bool& big) {
    size_t i = 0; bool neg = false;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; ++i; }
    if (i >= s.size()) return false;
    long v = 0; for (; i < s.size(); ++i) { if (!dg(s[i])) return false; if (v < 100000000000L) v = v * 10 + (s[i] - '0'); }
    if (neg) v = -v;
    if (v > 2147483647L || v < -2147483648L) big = true;
    e = v; return true;
}
// mantissa of the given digit class starting at i: digits, at most one point, a digit somewhere.  d*.d+ | d+. | d+
static bool mant(std::string const& s, size_t& i, bool hex, std::string& digits, long& frac) {
    size_t a = i; digits.clear(); frac = 0;
    auto is = [&](char c) { return hex ? hx(c) : dg(c); };
    while (i < s.size() && is(s[i])) digits += s[i++];
    if (i < s.size() && s[i] == '.') {
        size_t save = i; ++i; size_t f = 0;
        while (i < s.size() && is(s[i])) { digits += s[i++]; ++f; }
        if (digits.empty()) { i = a; return false; }
        frac = (long)f; (void)save;
    }
    return !digits.empty();
}
// s: complete number literal
static bool number(std::string const& s, mpq_class& q, bool& big) {
    size_t i = 0; bool neg = false;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; ++i; }
    std::string d; long frac = 0, e = 0;
    if (i + 1 < s.size() && s[i] == '0' && lc(s[i + 1]) == 'x') {
        i += 2; if (!mant(s, i, true, d, frac)) return false;
        if (i >= s.size() || lc(s[i]) != 'p') return false;
        if (!exp_of(s.substr(i + 1), e, big)) return false;
        if (beyond(e - 4 * frac)) big = true; if (big) return true;
        q = scale(mpz_class(d, 16), 2, e - 4 * frac);
    } else {
        size_t sl = s.find('/');
        if (sl != std::string::npos) {
            std::string n = trim(s.substr(i, sl - i)), m = trim(s.substr(sl + 1));
            if (n.empty() || m.empty() || s.substr(i, 1) != n.substr(0, 1)) return false;
            for (char c : n) if (!dg(c)) return false;
            for (char c : m) if (!dg(c)) return false;
            mpz_class den(m, 10); if (den == 0) return false;
            q = mpq_class(mpz_class(n, 10), den); q.canonicalize();
        } else {
            if (!mant(s, i, false, d, frac)) return false;
            if (i < s.size()) { if (lc(s[i]) != 'e') return false; if (!exp_of(s.substr(i + 1), e, big)) return false; }
            if (beyond(e - frac)) big = true; if (big) return true;
            q = scale(mpz_class(d, 10), 10, e - frac);
        }
    }
    if (neg) q = -q;
    return true;
}
static Lit bad(char const* w) { Lit l; l.why = w; return l; }
static int decof(std::string const& s) { for (int i = 0; i < 5; ++i) if (low(s) == dec_name[i]) return i; return -1; }

Lit lit_read(std::string const& s, bool skip) {
    size_t i = 0; if (skip) while (i < s.size() && ws(s[i])) ++i;
    if (i >= s.size()) return bad("empty text");
    Lit l; int maxdec = COM; bool big = false;
    if (s[i] == '[') {
        size_t e = s.find(']', i); if (e == std::string::npos) return bad("no closing bracket");
        std::string in = s.substr(i + 1, e - i - 1); l.end = e + 1;
        size_t cm = in.find(',');
        if (cm == std::string::npos) {
            std::string a = trim(in), k = low(a);
            if (k.empty() || k == "empty") { l.kind = 0; maxdec = TRV; }
            else if (k == "entire") { l.kind = 1; l.loinf = l.hiinf = true; maxdec = DAC; }
            else if (k == "nai") { l.kind = 2; maxdec = ILL; }
            else { if (!number(a, l.lo, big)) return bad("not a number"); l.kind = 1; l.hi = l.lo; }
        } else {
            std::string a = trim(in.substr(0, cm)), b = trim(in.substr(cm + 1)), ka = low(a), kb = low(b); l.kind = 1;
            if (a.empty() || ka == "-inf" || ka == "-infinity") { l.loinf = true; maxdec = DAC; } else if (!number(a, l.lo, big)) return bad("lower bound is not a number");
            if (b.empty() || kb == "inf" || kb == "+inf" || kb == "infinity" || kb == "+infinity") { l.hiinf = true; maxdec = DAC; } else if (!number(b, l.hi, big)) return bad("upper bound is not a number");
            if (!big && !l.loinf && !l.hiinf && l.lo > l.hi) return bad("lower bound above upper bound");
        }
    } else {
        // uncertain form m?r
        std::string m; size_t j = i; bool neg = false;
        if (j < s.size() && (s[j] == '+' || s[j] == '-')) { neg = s[j] == '-'; ++j; }
        std::string d; long frac = 0, e = 0; size_t k = j;
        if (!mant(s, k, false, d, frac)) return bad("no number");
        if (k >= s.size() || s[k] != '?') return bad("no question mark");
        ++k; bool inf = false, half = true; std::string r; int dir = 0;
        if (k < s.size() && s[k] == '?') { inf = true; ++k; }
        else { while (k < s.size() && dg(s[k])) r += s[k++]; if (!r.empty()) half = false; }
        if (k < s.size() && (lc(s[k]) == 'u' || lc(s[k]) == 'd')) { dir = lc(s[k]) == 'u' ? 1 : -1; ++k; }
        if (k < s.size() && lc(s[k]) == 'e') {
            std::string x; ++k; if (k < s.size() && (s[k] == '+' || s[k] == '-')) x += s[k++]; while (k < s.size() && dg(s[k])) x += s[k++];
            if (!exp_of(x, e, big)) return bad("exponent");
        }
        l.end = k; l.kind = 1; if (beyond(e - frac - half)) big = true;
        if (!big) {
            mpz_class n(d, 10); if (neg) n = -n; mpq_class rad;
            if (half) rad = mpq_class(1, 2); else rad = mpq_class(mpz_class(r, 10));
            l.lo = l.hi = mpq_class(n); if (dir <= 0) l.lo -= rad; if (dir >= 0) l.hi += rad;
            mpq_class sc = scale(1, 10, e - frac); l.lo *= sc; l.hi *= sc;
        }
        if (inf) { maxdec = DAC; if (dir <= 0) l.loinf = true; if (dir >= 0) l.hiinf = true; }
    }
    if (big) return bad("exponent beyond the range of int");
    if (l.end < s.size() && s[l.end] == '_') {
        if (l.kind == 2) return bad("decorated NaI");
        std::string t = s.substr(l.end + 1, 3); int d = decof(t);
        // numeric decorations and white space after the underscore: left open
        if (!t.empty() && (ws(t[0]) || dg(t[0]))) { l.unsure = true; return l; }
        if (d < 0) return bad("unknown decoration");
        if (d == ILL) return bad("explicit ill");
        if (d > maxdec) return bad("decoration not admissible");
        l.dec = d; l.end += 4;
    }
    l.ok = true; return l;
}
Lit lit_text(std::string const& s) {
    Lit l = lit_read(s); if (!l.ok) return l;
    for (size_t i = l.end; i < s.size(); ++i) if (!ws(s[i])) { Lit b = bad("trailing text"); return b; }
    return l;
}
LD q_round(mpq_class const& q, Ty t, int dir) {
    MpfrState st; mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max());
    M m(200); mpfr_set_q(m, q.get_mpq_t(), dir < 0 ? MPFR_RNDD : MPFR_RNDU);
    return to_ty(m, t, dir);
}
mpq_class q_of(LD x) { mpq_class q; int e; LD f = frexpl(x, &e); mpz_class n; f = ldexpl(f, 64); bool neg = f < 0; if (neg) f = -f; unsigned long u = (unsigned long)f; mpz_set_ui(n.get_mpz_t(), u); if (neg) n = -n; return scale(n, 2, (long)e - 64); }
void lit_value(Lit const& l, Ty t, IV& x, int& d) {
    if (l.kind == 2) { x = IV(); d = ILL; return; }
    if (l.kind == 0) { x = IV(); d = TRV; return; }
    x = IV(l.loinf ? -INFL : q_round(l.lo, t, -1), l.hiinf ? INFL : q_round(l.hi, t, 1));
    if (x.lo == 0) x.lo = 0;
    d = l.dec < 0 ? COM : l.dec; if (!x.bounded() && d == COM) d = DAC;
}
std::string showtext(std::string const& s) { std::string r = "\""; for (unsigned char c : s) { if (c < 32 || c >= 127 || c == '\\' || c == '"') r += strf("\\x%02x", c); else r += (char)c; } r += "\""; if (r.size() > 1500) r = r.substr(0, 1500) + "..."; return r; }

// ---- generator -------------------------------------------------------------
static std::string rndcase(Src& s, std::string x) { int k = (int)s.draw(4); if (k == 1) for (char& c : x) c = (char)toupper(c); else if (k == 3) for (char& c : x) if (s.draw(2)) c = (char)toupper(c); return x; }
static std::string rws(Src& s) { if (s.draw(5) != 4) return ""; std::string r; int n = s.range(1, 2); for (int i = 0; i < n; ++i) r += " \t\n \v\f\r"[s.draw(7)]; return r; }
static std::string digits(Src& s, int n, bool hex = false) { std::string r; for (int i = 0; i < n; ++i) r += (hex ? "0123456789abcdefABCDEF" : "0123456789")[s.draw(hex ? 22 : 10)]; return r; }
static std::string expo(long e, Src& s) { std::string r; if (e < 0) r = "-"; else if (s.draw(4) == 3) r = "+"; if (s.draw(8) == 7) r += "00"; return r + std::to_string(e < 0 ? -e : e); }
static std::string sgn(Src& s) { int k = (int)s.draw(8); return k < 5 ? "" : k < 7 ? "-" : "+"; }
// decimal text of the exact value with n significant digits, maybe changed in the last place or extended
static std::string dectext(Src& s, LD x) {
    bool neg = x < 0; if (neg) x = -x; int n = s.range(1, 25); if (s.draw(6) == 5) n = s.draw(12) ? s.range(25, 120) : s.range(120, 1500);
    int e10 = x == 0 ? 0 : (int)floorl(log10l(x)); if (s.draw(4) == 3 && x != 0) { int need = 0; int ex; (void)frexpl(x, &ex); need = ex > 0 ? ex : 64 - ex; if (need < (s.draw(8) ? 900 : 1500)) n = need + 4; }
    std::string m; { M a(64); mpfr_set_ld(a, x, MPFR_RNDN); char* buf = nullptr; mpfr_rnd_t rm = s.draw(2) ? MPFR_RNDN : s.draw(2) ? MPFR_RNDU : MPFR_RNDD; mpfr_exp_t ee; if (n < 2) n = 2; buf = mpfr_get_str(nullptr, &ee, 10, n, a, rm); m = buf; mpfr_free_str(buf); e10 = (int)ee; if (x == 0) e10 = 1; }
    // value = 0.m * 10^e10
    switch (s.draw(8)) { case 5: m += "1"; break; case 6: m += std::string((size_t)s.range(1, 30), '0') + "1"; break; case 7: { size_t k = m.size(); while (k && m[k - 1] == '0') --k; if (k && m[k - 1] > '1') { m[k - 1]--; m = m.substr(0, k) + std::string((size_t)s.range(1, 20), '9'); } } break; default: if (s.draw(2)) while (m.size() > 1 && m.back() == '0') m.pop_back(); }
    std::string r = neg ? "-" : s.draw(10) == 9 ? "+" : "";
    // place the point
    int mode = (int)s.draw(4); long L = (long)m.size();
    if (mode == 1 && e10 >= 1 && e10 <= 400) { // positional
        if (e10 >= L) r += m + std::string(e10 - L, '0') + (s.draw(3) == 2 ? "." : ""); else r += m.substr(0, e10) + "." + m.substr(e10);
        return r;
    }
    if (mode == 1 && e10 <= 0 && e10 > -400) { r += (s.draw(2) ? "0" : "") + std::string(".") + std::string(-e10, '0') + m; return r; }
    long pt = mode == 2 ? s.range(0, (int)L) : mode == 3 ? L : 1; if (pt > L) pt = L;
    std::string a = m.substr(0, pt), b = m.substr(pt);
    r += a; if (!b.empty() || a.empty() || s.draw(3) == 2) r += "." + b; if (a.empty() && b.empty()) r += "0";
    long e = e10 - pt; if (e != 0 || s.draw(3) == 2) r += std::string(s.draw(4) == 3 ? "E" : "e") + expo(e, s);
    return r;
}
static std::string hextext(Src& s, LD x) {
    bool neg = x < 0; if (neg) x = -x; int e = 0; LD f = x == 0 ? 0 : frexpl(x, &e); unsigned long u = (unsigned long)ldexpl(f, 64); char b[40]; snprintf(b, sizeof b, "%016lx", u); std::string m = b; long ex = e; // value = 0.m * 2^ex
    while (m.size() > 1 && m.back() == '0') m.pop_back();
    switch (s.draw(8)) { case 5: m += "1"; break; case 6: m += std::string((size_t)s.range(1, 20), '0') + "1"; break; case 7: { char c = m.back(); if (c > '1' && c <= '9') { m.back() = char(c - 1); m += std::string((size_t)s.range(1, 16), 'f'); } } break; default: break; }
    long pt = s.range(0, (int)std::min<size_t>(m.size(), 30)); std::string a = m.substr(0, pt), c = m.substr(pt); ex -= 4 * pt;
    if (s.draw(6) == 5) a = "00" + a;
    std::string r = std::string(neg ? "-" : s.draw(10) == 9 ? "+" : "") + "0x" + a; if (!c.empty() || a.empty() || s.draw(3) == 2) r += "." + c; if (a.empty() && c.empty()) r += "0";
    r += "p" + expo(ex, s); return rndcase(s, r);
}
static std::string rattext(Src& s, LD x) {
    std::string r = x < 0 ? "-" : s.draw(10) == 9 ? "+" : ""; if (x < 0) x = -x;
    mpz_class n, d; int k = (int)s.draw(4);
    if (k == 0 || x == 0) { n = mpz_class((unsigned long)s.draw(200)); d = mpz_class((unsigned long)s.draw(200) + 1); }
    else { mpq_class q = q_of(x); if (mpz_sizeinbase(q.get_num_mpz_t(), 2) > 1500 || mpz_sizeinbase(q.get_den_mpz_t(), 2) > 1500) q = mpq_class(1 + (unsigned long)s.draw(1000), 3);
        if (k == 2) { q += mpq_class(1, pw(10, s.range(1, 60))); } if (k == 3) { q -= mpq_class(1, pw(10, s.range(20, 60))); if (q < 0) q = 0; } n = q.get_num(); d = q.get_den(); unsigned long m = s.draw(4) == 3 ? s.range(2, 30) : 1; n *= m; d *= m; }
    return r + n.get_str() + rws(s) + "/" + rws(s) + (s.draw(8) == 7 ? "0" : "") + d.get_str();
}
std::string gen_numlit(Src& s, Ty t, Pool& p) {
    LD x; int k = (int)s.draw(12);
    if (k == 0) return sgn(s) + std::to_string(s.draw(1000));
    if (k == 1) { std::string r = sgn(s) + digits(s, s.range(0, 4)), f = digits(s, s.range(0, 5)); if (r.empty() || !dg(r.back())) r += f.empty() ? "7" : ""; if (!f.empty() || s.draw(3) == 2) r += "." + f; if (s.draw(2)) r += "e" + expo(s.draw(10) == 9 ? s.range(-6000, 6000) : s.range(-50, 50), s); return r; }
    if (k == 2) { long E[] = {36, 37, 38, 39, 40, -37, -38, -44, -45, -46, 307, 308, 309, -307, -308, -323, -324, -325, 4931, 4932, 4933, -4931, -4950, -4951, -4952}; return sgn(s) + digits(s, 1) + "." + digits(s, s.range(1, 18)) + "e" + expo(E[s.draw(25)] + s.range(-1, 1), s); }
    x = p.v.empty() || s.draw(3) ? gen_num(s, s.draw(5) == 4 ? Ty(s.draw(3)) : t, true) : gen_rel(s, t, p);
    if (!std::isfinite(x)) x = std::copysign(t_max(t), x);
    if (s.draw(12) == 11 && x != 0 && t != TL) { LD y = succ(x, t); if (std::isfinite(y)) x = x + (y - x) / 2; } // a midpoint
    p.add(x);
    return k <= 7 ? dectext(s, x) : k <= 10 ? hextext(s, x) : rattext(s, x);
}
std::string gen_lit(Src& s, Ty t, bool dec) {
    Pool p; std::string r; int k = (int)s.draw(16); int maxd = COM;
    if (k == 0) { r = "[" + rws(s) + rndcase(s, s.draw(2) ? "empty" : "") + rws(s) + "]"; maxd = TRV; }
    else if (k == 1) { if (s.draw(2)) { r = "[" + rws(s) + rndcase(s, "entire") + rws(s) + "]"; maxd = DAC; } else { r = "[" + rws(s) + rndcase(s, "nai") + rws(s) + "]"; maxd = ILL; } }
    else if (k <= 4) r = "[" + rws(s) + gen_numlit(s, t, p) + rws(s) + "]";
    else if (k <= 11) {
        char const* lo[] = {"", "-inf", "-infinity"}; char const* hi[] = {"", "inf", "+inf", "infinity", "+infinity"};
        bool li = s.draw(9) == 8, ui = s.draw(9) == 8; if (li || ui) maxd = DAC;
        std::string a = li ? rndcase(s, lo[s.draw(3)]) : gen_numlit(s, t, p), b = ui ? rndcase(s, hi[s.draw(5)]) : gen_numlit(s, t, p);
        std::string q = "[" + a + "," + b + "]"; if (!lit_read(q).ok && !li && !ui && s.draw(12) != 11) std::swap(a, b);
        r = "[" + rws(s) + a + rws(s) + "," + rws(s) + b + rws(s) + "]";
    } else {
        std::string m; int q = (int)s.draw(6);
        if (q <= 2) { m = sgn(s) + digits(s, s.range(1, 6)); if (s.draw(2)) m += "." + digits(s, s.range(0, 6)); }
        else if (q == 3) m = sgn(s) + "." + digits(s, s.range(1, 20));
        else { LD x = gen_num(s, t, true); for (int i = 0; i < 6; ++i) { m = dectext(s, x); if (m.find('e') == std::string::npos && m.find('E') == std::string::npos) break; x = i < 3 ? gen_mod(s, t) : (LD)s.draw(1000); m = std::to_string(s.draw(100000)); } }
        r = m + "?"; int k2 = (int)s.draw(6);
        if (k2 == 1 || k2 == 2) r += digits(s, s.range(1, 3)); else if (k2 == 3) r += digits(s, s.range(4, 40)); else if (k2 == 4) { r += "?"; maxd = DAC; }
        if (s.draw(2)) r += "uUdD"[s.draw(4)];
        if (s.draw(2)) r += std::string(s.draw(2) ? "e" : "E") + expo(s.draw(4) == 3 ? s.range(-5000, 5000) : s.draw(2) ? s.range(-330, 310) : s.range(-20, 20), s);
    }
    if (dec && maxd > ILL && s.draw(2)) { int d = s.range(TRV, maxd); if (s.draw(16) == 15) d = (int)s.draw(5); r += "_" + rndcase(s, dec_name[d]); }
    return r;
}
bool slow_exponent(std::string const& x) {
    for (size_t i = 1; i < x.size(); ++i) if (dg(x[i]) && !dg(x[i - 1]) && strchr("eEpP+-", x[i - 1])) {
        size_t z = i; while (z < x.size() && x[z] == '0') ++z; size_t j = z; while (j < x.size() && dg(x[j])) ++j;
        if (j - z >= 6 && j - z <= 9) return true; if (j - z == 10 && x.substr(z, 10) <= "2147483647") return true;
    }
    return false;
}
std::string mutate(Src& s, std::string x) {
    static char const* const frag[] = {"[", "]", ",", "_", "?", "??", "e", "p", "0x", "/", "+", "-", ".", " ", "inf", "nai", "empty", "_com", "_ill", "u", "d", "1", "0", "e5", "p-3", "/0", "e99999999999", "\t", "[]", "E+", "99999999999999999999"};
    int n = s.range(1, 3);
    for (int i = 0; i < n; ++i) {
        size_t L = x.size(), at = (size_t)s.draw(L + 1);
        switch (s.draw(6)) {
        case 0: if (L) x.erase(at == L ? at - 1 : at, 1); break;
        case 1: x.insert(at, frag[s.draw(sizeof frag / sizeof *frag)]); break;
        case 2: if (L) { size_t b = (size_t)s.draw(L + 1); if (at > b) std::swap(at, b); x.erase(at, b - at); } break;
        case 3: if (L) { size_t k = at == L ? L - 1 : at; x[k] = s.draw(3) ? "0123456789abcdefpx+-./?[]_,uUdDeE \n"[s.draw(35)] : (char)s.draw(256); } break;
        case 4: if (L) { size_t b = (size_t)s.draw(L + 1); if (at > b) std::swap(at, b); if (b - at < 40) x.insert(b, x.substr(at, b - at)); } break;
        default: if (L >= 2) { size_t k = at >= L - 1 ? 0 : at; std::swap(x[k], x[k + 1]); } break;
        }
        if (x.size() > 1800) x.resize(1800);
    }
    return x;
}
}
