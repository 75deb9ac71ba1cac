// A16: printed intervals enclose the interval, to the requested precision
#include "io.hpp"
#include "lit.hpp"
#include "oracle.hpp"
#include <algorithm>
namespace vh {
char const* const prop_id = "A16";
char const* const prop_rule = "a case is one interval or decorated interval printed with one combination of manipulators; non-trivial when it is not empty, not NaI and has a finite non-zero bound";
void prop_setup() {}
static std::string fmtnum(LD x, OutFmt const& f, int num, int dir, unsigned width) {
    MpfrState st; mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max());
    M m = mk(x); int prec = f.prec ? (int)f.prec : num == 3 ? -1 : 6; char const* F[] = {"gG", "fF", "eE", "aA"};
    std::string fm = "%"; if (width) fm += std::to_string(width); if (prec >= 0) fm += "." + std::to_string(prec); fm += "R*"; fm += F[num][f.upper];
    char* b = nullptr; mpfr_asprintf(&b, fm.c_str(), dir < 0 ? MPFR_RNDD : dir > 0 ? MPFR_RNDU : MPFR_RNDN, m.v); std::string r = b; mpfr_free_str(b); return r;
}
static std::string strip(std::string const& s) { std::string r; for (char c : s) if (c != ' ') r += c; return r; }
static std::string unneg(std::string s) { size_t p = s.find('-'); if (p != std::string::npos && s.find_first_not_of(" 0.-xXpPeE+") == std::string::npos) s.erase(p, 1); return s; }
static mpq_class p10(long e) { mpz_class z; mpz_ui_pow_ui(z.get_mpz_t(), 10, e < 0 ? -e : e); mpq_class q(z); if (e < 0) q = 1 / q; return q; }
static long ndig(mpq_class q) { if (q < 0) q = -q; if (q == 0) return 0; // floor(log10 q)
    long e = (long)mpz_sizeinbase(q.get_num_mpz_t(), 10) - (long)mpz_sizeinbase(q.get_den_mpz_t(), 10); while (p10(e) > q) --e; while (p10(e + 1) <= q) ++e; return e; }
void run_case(Ctx& c) {
    Src& s = c.src; Ty t = Ty(s.draw(3)); bool dec = s.draw(2); int route = (int)s.draw(2); Pool pool;
    DIV_ x; int k = (int)s.draw(8);
    if (k <= 2) { LD a = gen_mod(s, t), b = s.draw(3) ? gen_mod(s, t) : a; if (s.draw(3) == 2) { b = a; int n = s.range(1, 3); for (int i = 0; i < n; ++i) b = succ(b, t); } x.x = IV(std::fmin(a, b), std::fmax(a, b)); }
    else if (k == 3) { LD a = (LD)(long)s.range(-1000, 1000), b = (LD)(long)s.range(-1000, 1000); int e = s.range(-30, 30); a = round_ld(a * powl(10, e), t, 0); b = round_ld(b * powl(10, s.draw(2) ? e : s.range(-30, 30)), t, 0); x.x = IV(std::fmin(a, b), std::fmax(a, b)); }
    else x.x = gen_iv(s, t, &pool);
    if (!x.x.empty) { if (x.x.lo == INFL || x.x.hi == -INFL) x.x = IV(1, 2); }
    x.d = dec ? gen_dec_for(s, x.x) : COM; if (dec && s.draw(32) == 31) { x.d = ILL; x.x = IV(); }
    OutFmt f; if (s.draw(10) == 9) f.defaults = true; else {
        f.upper = (int)s.draw(2); f.form = s.draw(2) ? (int)s.draw(4) : 0; f.num = (int)s.draw(4); f.special = (int)s.draw(3); f.nopunct = s.draw(4) == 3; f.uexp = (int)s.draw(2); f.dnum = s.draw(8) == 7;
        if (s.draw(2)) f.prec = s.draw(4) == 3 ? (unsigned)s.range(20, 80) : (unsigned)s.range(1, 20); if (s.draw(3) == 2) f.width = (unsigned)s.range(0, 60); if (s.draw(3) == 2) f.swidth = (unsigned)s.range(0, 120);
        if (s.draw(120) == 119) { c.label("very wide or very precise"); switch (s.draw(3)) { case 0: f.prec = (unsigned)s.range(80, 700); break; case 1: f.width = (unsigned)s.range(60, 700); break; default: f.swidth = (unsigned)s.range(120, 3000); } }
    }
    std::string d = strf("%s%s, route %d, ", ty_name[t], dec ? " decorated" : "", route) + show(f) + "\n  x = " + (dec ? show(x) : show(x.x));
    if (c.verbose) c.note(d);
    bool nai = dec && x.nai(); IV const& v = x.x; c.nontrivial = !nai && !v.empty && ((std::isfinite(v.lo) && v.lo != 0) || (std::isfinite(v.hi) && v.hi != 0));
    bool unc = f.form && !v.empty && !nai; char const* fam = unc ? "uncertain" : "inf-sup";
    c.label(unc ? (f.uexp ? "uncertain, exponent" : "uncertain") : f.num == 0 ? "decimal_scientific" : f.num == 1 ? "decimal" : f.num == 2 ? "scientific" : "hex"); if (nai) c.label("nai"); else if (v.empty) c.label("empty"); else if (!v.bounded()) c.label("unbounded");
    TextOut o = write_text(t, dec, route, x, f);
    std::string D = d + "\n  printed " + showtext(o.s);
    auto fail = [&](char const* key, std::string const& m) { c.fail(std::string("A16:") + key + ":" + fam, D + "\n  " + m); };
    if (o.threw) fail("exception", "printing threw " + o.what);
    if (!o.good || o.flags) fail("state", strf("stream state or exception state (%u) changed", o.flags));
    bool up = f.upper;
    for (char ch : o.s) if ((up && ch >= 'a' && ch <= 'z') || (!up && ch >= 'A' && ch <= 'Z')) fail("case", "wrong letter case");
    // standard format settings of the stream leave the text alone, std::setw only puts blanks around it
    if (s.draw(3) == 2) {
        OutFmt g = f; g.std_flags = (unsigned)s.draw(8192); if (s.draw(2)) g.sw = (unsigned)s.range(1, 150); if (s.draw(2)) g.sp = (unsigned)s.range(1, 40);
        TextOut q = write_text(t, dec, route, x, g); c.label("standard settings");
        auto bad = [&](std::string const& m) { c.fail(std::string("A16:standard settings:") + fam, D + "\n  with " + show(g) + "\n  printed " + showtext(q.s) + "\n  " + m); };
        if (q.threw) bad("printing threw " + q.what);
        if (!q.good || q.flags) bad("stream state or exception state changed");
        if (!g.sw && q.s != o.s) bad("the text differs");
        if (g.sw) {
            if (strip(q.s) != strip(o.s)) bad("the text differs by more than blanks");
            if (!f.nopunct) {
                size_t e = q.s.find_last_not_of(' '), e0 = o.s.find_last_not_of(' '); std::string tail = q.s.substr(0, e + 1), t0 = o.s.substr(0, e0 + 1);
                size_t n = dec && !nai && !v.empty ? (f.dnum ? std::to_string(x.d * 4).size() : 3) + 1 : 0;
                if (n && (tail.size() < n + 1 || tail[tail.size() - n] != '_' || tail[tail.size() - n - 1] == ' ')) bad("interval and decoration are separated");
                TextIn b0 = read_text(t, dec, 0, o.s), b1 = read_text(t, dec, 0, q.s);
                if (b0.fail != b1.fail || b0.foreign != b1.foreign || !same(b0.r.x, b1.r.x) || b0.r.d != b1.r.d) bad("reads back differently: " + show(b1.r) + " instead of " + show(b0.r));
            }
        }
    }
    // decoration suffix
    std::string suf; if (dec && !nai && !v.empty) { std::string n = f.dnum ? std::to_string(x.d * 4) : dec_name[x.d]; if (up) for (char& ch : n) ch = (char)toupper(ch); suf = (f.nopunct ? " " : "_") + n; }
    if (o.s.size() < suf.size() || o.s.substr(o.s.size() - suf.size()) != suf) fail("decoration", "expected to end with " + showtext(suf));
    std::string body = o.s.substr(0, o.s.size() - suf.size());
    if (o.s.size() < f.swidth) fail("string width", "shorter than the string width");
    auto cap = [&](std::string z) { if (up) for (char& ch : z) ch = (char)toupper(ch); return z; };
    std::string L = f.nopunct ? "" : "[", R = f.nopunct ? "" : "]";
    // where blanks go: fields are as wide as asked for, a word takes the place of two fields and their comma, and what is missing from the string width comes in front of the two halves
    auto blanks = [](long n) { return std::string(n > 0 ? (size_t)n : 0, ' '); };
    auto layout = [&](std::string const& h1, std::string const& h2) {
        long miss = std::max(0L, (long)f.swidth - (long)(suf.size() + L.size() + h1.size() + h2.size() + R.size()));
        return L + blanks(miss / 2) + h1 + blanks(miss - miss / 2) + h2 + R; };
    if (nai || (v.empty && f.special != 1) || (!unc && v.entire() && f.special != 1)) {
        std::string w = nai ? "nai" : v.empty ? "empty" : "entire", e = L + cap(w) + R;
        if (!nai && f.special == 2 && !f.nopunct) e = v.empty ? "[]" : "[,]";
        if (strip(body) != e) fail("text", "expected (up to spaces) " + showtext(e));
        { std::string word = !nai && f.special == 2 && !f.nopunct ? (v.empty ? " " : ",") : cap(w); long n = (long)word.size() - 1, w1 = (long)f.width - n / 2, w2 = (long)f.width - (n - n / 2);
            std::string want = layout(blanks(w1) + word, blanks(w2)); if (body != want) fail("layout", "expected " + showtext(want)); }
        if (f.width == 0 && !(f.special == 2 && !f.nopunct) && o.s.size() != std::max<size_t>(f.swidth, e.size() + suf.size())) fail("string width", "wider than needed");
    } else if (!unc && v.empty) {
        // empty printed with bounds: two bounds that cannot be mistaken for a non-empty interval
        if (!f.nopunct) { Lit l = lit_read(body); if (l.ok && l.kind == 1) fail("text", "reads as a non-empty interval"); }
        return;
    } else if (!unc) {
        std::string a = fmtnum(v.lo, f, f.num, -1, 0), b = fmtnum(v.hi, f, f.num, 1, 0);
        std::string st = strip(body), g1, g2;
        if (f.nopunct) {
            size_t i = body.find_first_not_of(' '), j = body.find(' ', i), q = j == std::string::npos ? j : body.find_first_not_of(' ', j);
            if (i == std::string::npos || j == std::string::npos || q == std::string::npos) fail("text", "not two fields");
            g1 = body.substr(i, j - i); g2 = body.substr(q); if (g2.find(' ') != std::string::npos) fail("text", "not two fields");
        } else {
            size_t cm = st.find(','); if (st.empty() || st[0] != '[' || st.back() != ']' || cm == std::string::npos) fail("text", "not of the form [l,u]");
            g1 = st.substr(1, cm - 1); g2 = st.substr(cm + 1, st.size() - cm - 2);
            size_t c2 = body.find(','), b1 = body.find('['), b2 = body.find(']');
            if (c2 - b1 - 1 < f.width || b2 - c2 - 1 < f.width) fail("width", "field narrower than the width");
        }
        if (!(f.num == 3 && f.prec == 0)) {
            if (unneg(g1) != unneg(a)) fail("lower bound", "expected lower bound " + a);
            if (unneg(g2) != unneg(b)) fail("upper bound", "expected upper bound " + b);
        }
        size_t nat = std::max<size_t>(f.width, g1.size()) + std::max<size_t>(f.width, g2.size()) + (f.nopunct ? 1 : 3) + suf.size();
        if (o.s.size() != std::max<size_t>(f.swidth, nat)) fail("string width", strf("length %zu, expected %zu", o.s.size(), std::max<size_t>(f.swidth, nat)));
        { auto fld = [&](std::string const& g) { return blanks((long)f.width - (long)g.size()) + g; }; std::string h1 = fld(g1) + (f.nopunct ? " " : ","), want = layout(h1, fld(g2)); if (body != want) fail("layout", "expected " + showtext(want)); }
        // exact enclosure, by reading the text with our own reader
        Lit l = lit_read("[" + g1 + "," + g2 + "]");
        if (!l.ok) fail("text", std::string("not an interval literal: ") + l.why);
        if ((std::isinf(v.lo) && !l.loinf) || (std::isinf(v.hi) && !l.hiinf) || (std::isfinite(v.lo) && !l.loinf && l.lo > q_of(v.lo)) || (std::isfinite(v.hi) && !l.hiinf && l.hi < q_of(v.hi))) fail("enclosure", "the printed interval does not contain x");
        if (f.num == 3 && f.prec == 0 && ((std::isfinite(v.lo) && (l.loinf || l.lo != q_of(v.lo))) || (std::isfinite(v.hi) && (l.hiinf || l.hi != q_of(v.hi))))) fail("exact", "hexadecimal output without precision is not exact");
    } else {
        std::string st = strip(body);
        if (o.s.size() != std::max<size_t>(f.swidth, st.size() + suf.size())) fail("string width", "padded wrongly");
        Lit l = lit_read(st); if (!l.ok || l.end != st.size()) fail("text", std::string("not an uncertain literal: ") + l.why);
        if ((std::isinf(v.lo) && !l.loinf) || (std::isinf(v.hi) && !l.hiinf) || (std::isfinite(v.lo) && !l.loinf && l.lo > q_of(v.lo)) || (std::isfinite(v.hi) && !l.hiinf && l.hi < q_of(v.hi))) fail("enclosure", "the printed interval does not contain x");
        if (body != blanks((long)f.swidth - (long)(st.size() + suf.size())) + st) fail("layout", "the blanks of the string width belong in front");
        size_t q = st.find('?'), e = st.find_first_of("eE"); std::string m = st.substr(0, q), ex = e == std::string::npos ? "" : st.substr(e);
        if ((e != std::string::npos) != (bool)f.uexp) fail("exponent", "exponent part does not match the manipulator");
        int num = f.uexp ? 2 : 1; std::string mid = st.substr(q + 1, (e == std::string::npos ? st.size() : e) - q - 1);
        bool isd = mid.find_first_of("dD") != std::string::npos, isu = mid.find_first_of("uU") != std::string::npos;
        int prec = f.prec ? (int)f.prec : 6; long ee = f.uexp ? std::stol(ex.substr(1)) : 0; mpq_class unit = p10(ee - prec);
        size_t pt = m.find('.'); if (pt == std::string::npos || (int)(m.size() - pt - 1) != prec) fail("precision", "digits behind the point do not match the precision");
        if (!v.bounded()) {
            std::string w = v.entire() ? m + ex : fmtnum(std::isinf(v.lo) ? v.hi : v.lo, f, num, std::isinf(v.lo) ? 1 : -1, 0);
            if (v.entire() ? (isd || isu || !l.loinf || !l.hiinf) : std::isinf(v.lo) ? !isd || l.hiinf : !isu || l.loinf) fail("direction", "wrong direction for an unbounded interval");
            if (unneg(m + ex) != unneg(w)) fail("number", "expected number " + w);
        } else {
            if (isd != (f.form == 3) || isu != (f.form == 2) || l.loinf || l.hiinf) fail("direction", "direction does not match the manipulator");
            if (f.form == 1) { LD md; { MpfrState st2; mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max()); M sum(40000); M a1 = mk(v.lo), b1 = mk(v.hi); mpfr_add(sum.v, a1.v, b1.v, MPFR_RNDN); mpfr_div_2ui(sum.v, sum.v, 1, MPFR_RNDN); md = to_ty(sum, t, 0); }
                if (unneg(m + ex) != unneg(fmtnum(md, f, num, 0, 0))) fail("number", "expected number " + fmtnum(md, f, num, 0, 0)); }
            if (f.form == 2 && unneg(m + ex) != unneg(fmtnum(v.lo, f, num, -1, 0))) fail("number", "expected number " + fmtnum(v.lo, f, num, -1, 0));
            if (f.form == 3 && unneg(m + ex) != unneg(fmtnum(v.hi, f, num, 1, 0))) fail("number", "expected number " + fmtnum(v.hi, f, num, 1, 0));
            mpq_class lo = q_of(v.lo), hi = q_of(v.hi);
            // slack: bounds are first rounded to `prec` digits of their own magnitude
            mpq_class slack = 3 * unit; if (f.uexp) { slack += p10(ndig(lo) + 1 - prec); slack += p10(ndig(hi) + 1 - prec); if (lo == 0 || hi == 0) slack += p10(0 - prec); }
            if (f.form == 1) { LD big = std::fmax(std::fabs(v.lo), std::fabs(v.hi)); LD b2 = succ(big, t); mpq_class ul = std::isfinite(b2) ? q_of(b2) - q_of(big) : q_of(big) - q_of(pred(big, t)); slack = 2 * slack + 2 * ul; }
            if ((l.hi - l.lo) - (hi - lo) > slack) fail("radius", "much wider than necessary");
        }
    }
    // what the library prints it reads back to an enclosing interval
    if (!f.nopunct && !f.dnum) {
        TextIn b = read_text(t, dec, (int)s.draw(3), o.s);
        if (b.fail || b.foreign) fail("round trip", "the library does not read its own output");
        bool in = nai ? b.r.nai() : v.empty ? b.r.x.empty && !b.r.nai() : !b.r.x.empty && b.r.x.lo <= v.lo && v.hi <= b.r.x.hi;
        if (!in) fail("round trip", "read back as " + show(b.r));
        if (dec && !nai && !v.empty && b.r.d != x.d && !(x.d == COM && b.r.d == DAC && !b.r.x.bounded())) fail("round trip", "read back as " + show(b.r));
        if (!unc && f.num == 3 && f.prec == 0 && !nai && !same(b.r.x, v)) fail("round trip", "exact output read back as " + show(b.r));
    }
}
}
