// A29: reading and writing intervals composes with everything else on a stream
#include "io.hpp"
#include "lit.hpp"
#include <memory>
#include <sstream>
#include <streambuf>
#include <typeinfo>
namespace vh {
char const* const prop_id = "A29";
char const* const prop_rule = "a case is a sequence of items (bare and decorated intervals of any type, decorations, numbers, words) written to or read from one stream whose buffer hands over the characters in pieces and may fail or throw at any position, with any exception mask; non-trivial when at least two of the items are intervals and the sequence is longer than one buffer piece or the buffer fails inside it";
void prop_setup() {}
namespace {
struct BufError {};
// output: accepts `cap` characters, then fails or throws
struct OutBuf : std::streambuf {
    std::string got; size_t cap; bool thr; size_t piece; std::vector<char> area;
    OutBuf(size_t c, bool t, size_t p) : cap(c), thr(t), piece(p), area(p ? p : 1) { if (piece) setp(area.data(), area.data() + piece); }
    bool put(char ch) { if (got.size() >= cap) { if (thr) throw BufError(); return false; } got += ch; return true; }
    bool flush_area() { char* b = pbase(); char* e = pptr(); setp(area.data(), area.data() + piece); for (; b != e; ++b) if (!put(*b)) return false; return true; }
    int_type overflow(int_type ch) override { if (piece && !flush_area()) return traits_type::eof(); if (ch != traits_type::eof() && !put((char)ch)) return traits_type::eof(); return traits_type::not_eof(ch); }
    int sync() override { return piece && !flush_area() ? -1 : 0; }
};
// input: pieces, no putback; at `stop` end of file or an exception
struct InBuf : std::streambuf {
    std::string s; size_t at = 0, stop, piece; bool thr; char one[64];
    InBuf(std::string const& x, size_t st, size_t p, bool t) : s(x), stop(st), piece(p), thr(t) {}
    size_t consumed() const { return at - (size_t)(egptr() - gptr()); }
    int_type underflow() override {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        size_t e = std::min(s.size(), stop);
        if (at >= e) { if (thr && at >= stop) throw BufError(); return traits_type::eof(); }
        size_t n = std::min(piece, e - at); std::copy(s.begin() + at, s.begin() + at + n, one); at += n; setg(one, one, one + n); return traits_type::to_int_type(one[0]);
    }
};
struct It { int kind = 0; /* 0 interval 1 decoration 2 integer 3 word */ Ty t = TD; bool dec = false; DIV_ x; int k = 0; std::string w; OutFmt f; };
static char const* const WORDS[] = {",", ";", "and", "x=", "|", "(", "..", ":"};
template <class T> void put_t(std::ostream& os, It const& i) { if (i.dec) os << Cv<T>::di(i.x); else os << Cv<T>::bi(i.x.x); }
static void put(std::ostream& os, It const& i) {
    switch (i.kind) { case 0: switch (i.t) { case TF: put_t<float>(os, i); break; case TD: put_t<double>(os, i); break; default: put_t<LD>(os, i); } break; case 1: os << to_ldec(Dec(i.k)); break; case 2: os << i.k; break; default: os << i.w; }
}
static void manip(std::ostream& os, OutFmt const& f) {
    using namespace p1788::io;
    if (f.upper) os << upper_case; else os << lower_case;
    switch (f.form) { case 0: os << inf_sup_form; break; case 1: os << uncertain_form; break; case 2: os << uncertain_up_form; break; default: os << uncertain_down_form; }
    switch (f.num) { case 0: os << decimal_scientific; break; case 1: os << decimal; break; case 2: os << p1788::io::scientific; break; default: os << p1788::io::hex; }
    if (f.uexp) os << uncertain_exponent; else os << no_uncertain_exponent;
    os << string_width(f.swidth) << width(f.width) << precision(f.prec);
}
static std::string name(It const& i) { return i.kind == 0 ? std::string(ty_name[i.t]) + " " + (i.dec ? show(i.x) : show(i.x.x)) : i.kind == 1 ? dec_name[i.k] : i.kind == 2 ? std::to_string(i.k) : i.w; }
static void writing(Ctx& c) {
    Src& s = c.src; int n = s.range(1, 8), iv = 0; std::vector<It> v; std::vector<std::string> texts; std::string full; OutFmt f; std::string d = "written:";
    f.upper = (int)s.draw(2); f.form = s.draw(2) ? (int)s.draw(4) : 0; f.num = (int)s.draw(4); f.uexp = (int)s.draw(2); f.prec = s.draw(2) ? (unsigned)s.range(1, 30) : 0; f.width = s.draw(3) == 2 ? (unsigned)s.range(1, 40) : 0; f.swidth = s.draw(3) == 2 ? (unsigned)s.range(1, 80) : 0;
    for (int i = 0; i < n; ++i) {
        It x; x.kind = s.draw(5) < 3 ? 0 : (int)s.draw(4);
        if (x.kind == 0) { x.t = Ty(s.draw(3)); x.dec = s.draw(2); Pool p; x.x.x = gen_iv(s, x.t, &p); if (f.num == 1 || f.form) { LD a = gen_mod(s, x.t), b = gen_mod(s, x.t); if (s.draw(8)) x.x.x = IV(std::fmin(a, b), std::fmax(a, b)); } if (!x.x.x.empty && (x.x.x.lo == INFL || x.x.x.hi == -INFL)) x.x.x = IV(1, 2);
            x.x.d = x.dec ? gen_dec_for(s, x.x.x) : COM; if (x.dec && s.draw(16) == 15) { x.x.d = ILL; x.x.x = IV(); } ++iv; }
        else if (x.kind == 1) x.k = (int)s.draw(5); else if (x.kind == 2) x.k = s.range(-500, 500); else x.w = WORDS[s.draw(8)];
        std::ostringstream o; manip(o, f); put(o, x); texts.push_back(o.str()); full += o.str(); d += "\n  " + name(x); v.push_back(x);
    }
    size_t L = full.size(); bool limit = s.draw(4) != 0; size_t cap = limit ? (size_t)s.draw(L + 2) : (size_t)-1; bool thr = s.draw(3) == 2; static size_t const PC[] = {0, 1, 7, 64, 1000}; size_t piece = PC[s.draw(5)]; int mask = (int)s.draw(4); bool uni = s.draw(8) == 7 && !limit;   // (a flush that fails inside the destructor of a sentry terminates: standard library)
        int pre = s.draw(8) == 7 ? (int)s.range(1, 3) : 0;
    std::ios_base::iostate const B = std::ios_base::badbit, F = std::ios_base::failbit, M[] = {std::ios_base::goodbit, B, F, B | F}; if (pre) pre = pre == 1 ? (int)F : pre == 2 ? (int)B : (int)std::ios_base::eofbit;
    d += "\n  " + show(f) + (limit ? strf("; the buffer accepts %zu of %zu characters, then %s", cap, L, thr ? "throws" : "fails") : "") + strf("; pieces of %zu, exception mask %d%s%s", piece, (int)M[mask], uni ? ", unitbuf" : "", pre ? strf(", initial state %d", pre).c_str() : "");
    if (c.verbose) c.note(d); c.label("written"); if (cap < L) c.label("buffer fails"); c.nontrivial = iv >= 2 && (L > piece || cap < L);
    OutBuf b(cap, thr, piece); std::ostream os(&b); manip(os, f); if (uni) os << std::unitbuf; if (pre) os.setstate(std::ios_base::iostate(pre)); else os.exceptions(M[mask]);
    exc_clear(); bool threw = false; size_t done = 0; std::string how;
    try { for (It const& x : v) { put(os, x); if (!os) break; ++done; } os.flush(); }
    catch (std::ios_base::failure const& e) { threw = true; how = "ios_base::failure"; } catch (BufError const&) { threw = true; how = "the exception of the buffer"; }
    catch (std::exception const& e) { c.fail("A29:write:foreign exception", d + "\n  threw " + typeid(e).name() + ": " + e.what()); }
    if (exc_state()) c.fail("A29:write:flags", d + strf("\n  exception state %u", exc_state()));
    if (pre) { if (!b.got.empty()) c.fail("A29:write:after failure", d + "\n  wrote " + showtext(b.got) + " although the stream had failed"); return; }
    if (b.got != full.substr(0, std::min(cap, L))) c.fail("A29:write:text", d + "\n  the buffer got " + showtext(b.got) + "\n  expected " + showtext(full.substr(0, std::min(cap, L))));
    bool fails = cap < L;
    if (fails != !os.good()) c.fail("A29:write:state", d + strf("\n  stream state %d", (int)os.rdstate()));
    if (fails && !os.bad()) c.fail("A29:write:state", d + strf("\n  stream state %d, badbit expected", (int)os.rdstate()));
    if (fails && (M[mask] & B) ? !threw : threw && !(fails && (M[mask] & F))) c.fail("A29:write:exception", d + "\n  threw " + (threw ? how : std::string("nothing")));
    if (!fails && done != v.size()) c.fail("A29:write:state", d + "\n  not everything was written");
}
static std::string sep(Src& s) { static char const* W[] = {" ", "\n", "\t ", "  ", "\r\n", " \v"}; return W[s.draw(6)]; }
static void reading(Ctx& c) {
    Src& s = c.src; int n = s.range(1, 8), iv = 0; std::vector<It> v; std::string x, d = "text "; Ty t0 = Ty(s.draw(3));
    for (int i = 0; i < n; ++i) {
        It q; q.kind = s.draw(5) < 3 ? 0 : (int)s.draw(4); std::string w;
        if (q.kind == 0) { q.t = s.draw(3) ? t0 : Ty(s.draw(3)); q.dec = s.draw(2); for (int k = 0; k < 4; ++k) { w = gen_lit(s, q.t, q.dec || s.draw(2)); if (w.size() < 200) break; } if (s.draw(10) == 9) w = mutate(s, w); if (slow_exponent(w) || w.size() > 400) w = "[1,2]"; ++iv; }
        else if (q.kind == 1) w = dec_name[s.draw(5)]; else if (q.kind == 2) w = std::to_string(s.range(-500, 500)); else w = WORDS[s.draw(8)];
        if (i && (s.draw(4) || q.kind == 3 || v.back().kind == 3 || q.kind == 2 || v.back().kind == 2)) x += sep(s);
        x += w; v.push_back(q);
    }
    if (s.draw(2)) x += sep(s);
    if (slow_exponent(x)) { c.label("left out"); return; }
    bool stopf = s.draw(3) == 2; size_t stop = stopf ? (size_t)s.draw(x.size() + 1) : (size_t)-1; bool thr = stopf && s.draw(2); static size_t const PC[] = {64, 1, 2, 7, 16}; size_t piece = PC[s.draw(5)];
    int mask = (int)s.draw(4); std::ios_base::iostate const B = std::ios_base::badbit, F = std::ios_base::failbit, M[] = {std::ios_base::goodbit, F, B, B | F}; bool skip = s.draw(8) != 7;
    d += showtext(x) + "\n  read as"; for (It const& q : v) d += std::string(" ") + (q.kind == 0 ? std::string(ty_name[q.t]) + (q.dec ? " decorated" : " bare") : q.kind == 1 ? "decoration" : q.kind == 2 ? "int" : "word") + ",";
    d += strf(" pieces of %zu, exception mask %d%s", piece, (int)M[mask], skip ? "" : ", noskipws") + (stopf ? strf("; the buffer %s at %zu", thr ? "throws" : "ends", stop) : "");
    if (c.verbose) c.note(d); c.label("read"); if (thr) c.label("buffer throws");
    c.nontrivial = iv >= 2 && (x.size() > piece || stopf);
    InBuf b(x, stop, piece, thr); std::istream is(&b); if (!skip) is >> std::noskipws; is.exceptions(M[mask]);
    std::string avail = x.substr(0, std::min(x.size(), stop)); size_t pos = 0; bool failed = false; int k = 0;
    for (It const& q : v) {
        ++k; std::string D = d + strf("\n  item %d: ", k); bool threw = false; exc_clear();
        try {
            if (q.kind != 0) { // standard or decoration extraction: only its position is followed
                if (failed) continue;
                if (q.kind == 1) { LDec e; is >> e; } else if (q.kind == 2) { int e; is >> e; } else { std::string e; is >> e; }
                if (!is || is.eof()) return;
                pos = b.consumed(); continue;
            }
        } catch (std::ios_base::failure const&) { return; } catch (BufError const&) { return; }
        // intervals: target prefilled with another value
        Res got; Res old; old.dec = q.dec; old.x = IV(-3, 5); old.d = DEF;
        auto rd = [&](auto z, auto mk) { (void)z; auto y = mk(); try { std::istream& r = is >> y; if (&r != &is) c.fail("A29:read:stream", D + "returned another stream"); } catch (std::ios_base::failure const&) { threw = true; } catch (BufError const&) { threw = true; } catch (CaseFail const&) { throw; } catch (std::exception const& e) { c.fail("A29:read:foreign exception", D + "threw " + typeid(e).name() + ": " + e.what()); } typedef decltype(z) T; got = Cv<T>::from(y); };
        switch (q.t) {
            case TF: q.dec ? rd(0.0f, [] { return DI<float>(-3.0f, 5.0f, LDec::def); }) : rd(0.0f, [] { return BI<float>(-3.0f, 5.0f); }); break;
            case TD: q.dec ? rd(0.0, [] { return DI<double>(-3.0, 5.0, LDec::def); }) : rd(0.0, [] { return BI<double>(-3.0, 5.0); }); break;
            default: q.dec ? rd(0.0L, [] { return DI<LD>(-3.0L, 5.0L, LDec::def); }) : rd(0.0L, [] { return BI<LD>(-3.0L, 5.0L); }); }
        bool kept = got.valid && same(got.x, old.x) && (!q.dec || got.d == old.d);
        is.exceptions(std::ios_base::goodbit);
        if (failed) { if (!kept) c.fail("A29:read:after failure", D + "the stream had failed, the variable became " + show(got)); if (!is.fail()) c.fail("A29:read:state", D + "the stream does not fail any more"); return; }
        Lit l = lit_read(avail.substr(pos), skip);
        if (l.unsure) { c.label("open"); return; }
        bool touches = thr && (!l.ok || pos + l.end >= avail.size());    // the exception of the buffer may have been met
        if (!l.ok) {
            if (!is.fail()) c.fail("A29:read:accepted", D + "no literal, but the stream has not failed, got " + show(got));
            if (!kept) c.fail("A29:read:value on failure", D + "failed, but the variable became " + show(got));
            if (!thr && threw != ((M[mask] & F) != 0)) c.fail("A29:read:exception", D + (threw ? "threw" : "did not throw"));
            if (threw && !(M[mask] & (F | B))) c.fail("A29:read:exception", D + "threw");
            c.label("failure"); failed = true; if (s.draw(2)) return; is.exceptions(std::ios_base::goodbit); mask = 0; continue;
        }
        IV ex; int ed; lit_value(l, q.t, ex, ed); bool val = got.valid && (q.dec && (ed == ILL || got.nai()) ? (ed == ILL && got.nai()) : same(got.x, ex) && (!q.dec || got.d == ed));
        Res w; w.x = ex; w.dec = q.dec; w.d = ed;
        if (touches) { if (is.fail() ? !kept : !val) c.fail("A29:read:value", D + "result " + show(got) + ", expected " + show(w)); return; }
        if (is.fail() || threw) c.fail("A29:read:rejected", D + "failed, expected " + show(w) + " from " + showtext(avail.substr(pos, l.end)));
        if (!val) c.fail("A29:read:value", D + "result " + show(got) + ", expected " + show(w) + " from " + showtext(avail.substr(pos, l.end)));
        if (exc_state() != (!q.dec && l.kind == 2 ? 4u : 0u)) c.fail("A29:read:flags", D + strf("exception state %u", exc_state()));
        pos += l.end;
        if (b.consumed() != pos) c.fail("A29:read:position", D + strf("%zu characters consumed, expected %zu", b.consumed(), pos));
        if (is.eof()) c.fail("A29:read:eof", D + "end of file although the literal was read");
        is.exceptions(M[mask]);
    }
}
}
void run_case(Ctx& c) { if (c.src.draw(2)) reading(c); else writing(c); }
}
