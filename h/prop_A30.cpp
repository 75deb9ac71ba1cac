// A30: text conversion does not depend on the locale of the process
#include "io.hpp"
#include "lit.hpp"
#include <clocale>
#include <locale>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
namespace vh {
char const* const prop_id = "A30";
char const* const prop_rule = "a case is a sequence of conversions between intervals and text in a fresh process that changes the locale before every one of them, compared with the same sequence in a process that stays in the \"C\" locale; non-trivial when at least two conversions run under a locale other than \"C\" and one of them has a fraction or letters";
void prop_setup() {}
namespace {
struct Punct : std::numpunct<char> { char p, t; std::string g; Punct(char a, char b, char const* c) : p(a), t(b), g(c) {} char do_decimal_point() const override { return p; } char do_thousands_sep() const override { return t; } std::string do_grouping() const override { return g; } std::string do_truename() const override { return "wahr"; } };
// letters of a locale with dotless i, as in tr_TR.ISO-8859-9
struct Dotless : std::ctype<char> {
    char do_toupper(char c) const override { return c == 'i' ? (char)0xDD : c >= 'a' && c <= 'z' ? (char)(c - 32) : c; } char do_tolower(char c) const override { return c == 'I' ? (char)0xFD : c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
    char const* do_toupper(char* b, char const* e) const override { for (; b != e; ++b) *b = do_toupper(*b); return e; } char const* do_tolower(char* b, char const* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
};
static char const* const NAMES[] = {"de_DE.UTF-8", "tr_TR.UTF-8", "tr_TR", "fr_FR.UTF-8"};
struct Loc { int kind = 0; /* 0 none, 1 setlocale(LC_ALL), 2 setlocale(LC_NUMERIC), 3 setlocale(LC_CTYPE), 4 std::locale::global(named), 5 global(facets) */ int name = 0; };
static std::string show(Loc const& l) {
    switch (l.kind) { case 0: return "C"; case 1: return std::string("setlocale(LC_ALL, ") + NAMES[l.name] + ")"; case 2: return std::string("setlocale(LC_NUMERIC, ") + NAMES[l.name] + ")"; case 3: return std::string("setlocale(LC_CTYPE, ") + NAMES[l.name] + ")"; case 4: return std::string("std::locale::global(") + NAMES[l.name] + ")"; default: return strf("std::locale::global(facets %d)", l.name); }
}
static std::locale facets(int n) {
    std::locale c = std::locale::classic(); static char const* const G[] = {"\1", "\3", "\2\3", ""};
    switch (n & 3) { case 0: c = std::locale(c, new Punct(',', '.', G[0])); break; case 1: c = std::locale(c, new Punct(';', '0', G[1])); break; case 2: c = std::locale(c, new Punct('.', ',', G[2])); break; }
    if (n & 4 || (n & 3) == 3) c = std::locale(c, new Dotless); return c;
}
static bool enter(Loc const& l) {
    switch (l.kind) {
    case 0: return true;
    case 1: return setlocale(LC_ALL, NAMES[l.name]); case 2: return setlocale(LC_NUMERIC, NAMES[l.name]); case 3: return setlocale(LC_CTYPE, NAMES[l.name]);
    case 4: try { std::locale::global(std::locale(NAMES[l.name])); return true; } catch (std::exception const&) { return false; }
    default: std::locale::global(facets(l.name)); return true;
    }
}
static void leave() { std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); }
struct Op { int kind = 0; /* 0 write 1 read 2 write decoration 3 read decoration 4 write overlapping state */ Loc loc; Ty t = TD; bool dec = false; DIV_ x; OutFmt f; std::string text; int route = 0, k = 0; };
static std::string name(Op const& o) {
    std::string d = "under " + show(o.loc) + " ";
    switch (o.kind) { case 0: return d + "write " + ty_name[o.t] + (o.dec ? " decorated " + show(o.x) : " " + show(o.x.x)) + " " + show(o.f) + strf(" route %d", o.route); case 1: return d + "read " + showtext(o.text) + " as " + ty_name[o.t] + (o.dec ? " decorated by " : " by ") + in_name[o.route]; case 2: return d + "write decoration " + dec_name[o.k] + (o.route ? " upper case" : ""); case 3: return d + "read decoration " + showtext(o.text); default: return d + strf("write overlapping state %d", o.k); }
}
// result of one conversion; formatted in the "C" locale
static std::string perform(Op const& o, bool change) {
    bool there = change && enter(o.loc); std::string r;
    switch (o.kind) {
    case 0: { TextOut w = write_text(o.t, o.dec, o.route, o.x, o.f); leave(); r = showtext(w.s) + strf(" good %d flags %u ", w.good, w.flags) + w.what; break; }
    case 1: { TextIn i = read_text(o.t, o.dec, o.route, o.text); leave(); r = show(i.r) + strf(" flags %u fail %d eof %d ", i.flags, i.fail, i.eof) + i.what + " rest " + showtext(i.rest); break; }
    case 2: { std::ostringstream s; if (o.route) s << p1788::io::upper_case; s << to_ldec(Dec(o.k)); bool g = s.good(); leave(); r = showtext(s.str()) + strf(" good %d", g); break; }
    case 3: { std::istringstream s(o.text); LDec d = LDec::trv; s >> d; bool g = s.fail(); leave(); r = strf("%d fail %d", (int)d, g); break; }
    default: { std::ostringstream s; s << static_cast<p1788::overlapping::overlapping_state>(1u << o.k); leave(); r = showtext(s.str()); }
    }
    (void)there; return r;
}
static std::vector<std::string> child(Ctx& c, std::vector<Op> const& v, bool change) {
    int p[2]; if (pipe(p)) throw std::runtime_error("pipe");
    pid_t k = fork(); if (k < 0) throw std::runtime_error("fork");
    if (k == 0) {
        close(p[0]); alarm(20); std::string all;
        try { for (Op const& o : v) all += perform(o, change) + "\n"; } catch (...) { leave(); all += "exception left the conversion\n"; }
        for (size_t i = 0; i < all.size();) { ssize_t n = write(p[1], all.data() + i, all.size() - i); if (n <= 0) break; i += (size_t)n; }
        _exit(0);
    }
    close(p[1]); std::string all; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) all.append(b, (size_t)n); close(p[0]); int st = 0; waitpid(k, &st, 0);
    std::vector<std::string> r; size_t i = 0; for (;;) { size_t e = all.find('\n', i); if (e == std::string::npos) break; r.push_back(all.substr(i, e - i)); i = e + 1; }
    if (st) r.push_back(strf("process ended with status %d", st)); return r;
}
}
void run_case(Ctx& c) {
    Src& s = c.src; int n = s.range(2, 90), other = 0; bool text = false; std::vector<Op> v; Pool pool;
    for (int i = 0; i < n; ++i) {
        Op o; o.kind = s.draw(8) < 6 ? (int)s.draw(2) : 2 + (int)s.draw(3); o.loc.kind = (int)s.draw(6); o.loc.name = o.loc.kind == 5 ? (int)s.draw(8) : (int)s.draw(4); if (o.loc.kind) ++other;
        o.t = Ty(s.draw(3)); o.dec = s.draw(2);
        if (o.kind == 0) {
            if (s.draw(2)) { LD a = gen_mod(s, o.t), b = s.draw(3) ? gen_mod(s, o.t) : a; o.x.x = IV(std::fmin(a, b), std::fmax(a, b)); } else o.x.x = gen_iv(s, o.t, &pool);
            if (!o.x.x.empty && (o.x.x.lo == INFL || o.x.x.hi == -INFL)) o.x.x = IV(1, 2);
            o.x.d = o.dec ? gen_dec_for(s, o.x.x) : COM; if (o.dec && s.draw(16) == 15) { o.x.d = ILL; o.x.x = IV(); }
            OutFmt& f = o.f; f.upper = (int)s.draw(2); f.form = s.draw(2) ? (int)s.draw(4) : 0; f.num = (int)s.draw(4); f.special = (int)s.draw(3); f.nopunct = s.draw(4) == 3; f.uexp = (int)s.draw(2); f.dnum = o.dec && s.draw(4) == 3;
            if (s.draw(2)) f.prec = (unsigned)s.range(1, 30); if (s.draw(3) == 2) f.width = (unsigned)s.range(0, 60); if (s.draw(3) == 2) f.swidth = (unsigned)s.range(0, 120); o.route = (int)s.draw(2); text = true;
        } else if (o.kind == 1) {
            for (int k = 0; k < 4; ++k) { o.text = gen_lit(s, o.t, o.dec); if (o.text.size() < 200) break; } if (s.draw(4) == 3) o.text = mutate(s, o.text); if (s.draw(2)) for (char& ch : o.text) if (ch >= 'a' && ch <= 'z') ch = (char)(ch - 32);
            if (slow_exponent(o.text) || o.text.size() > 400) o.text = "[1,2]"; for (char& ch : o.text) if ((unsigned char)ch >= 128) ch = '?';   // other characters may be white space there
            o.route = (int)s.draw(N_IN); text = true;
        } else if (o.kind == 2) { o.k = (int)s.draw(5); o.route = (int)s.draw(2); }
        else if (o.kind == 3) { o.text = s.draw(8) == 7 ? "il" : dec_name[s.draw(5)]; if (s.draw(2)) for (char& ch : o.text) ch = (char)toupper(ch); }
        else o.k = s.range(0, 15);
        v.push_back(o);
    }
    std::string d; for (Op const& o : v) d += "\n  " + name(o);
    if (c.verbose) c.note(d); c.nontrivial = other >= 2 && text;
    for (Op const& o : v) if (o.loc.kind) c.label(o.loc.kind == 5 ? "facets" : NAMES[o.loc.name]);
    static int avail = -1; if (avail < 0) { avail = setlocale(LC_ALL, NAMES[0]) != nullptr; leave(); } if (!avail) c.label("named locales missing");
    std::vector<std::string> a = child(c, v, false), b = child(c, v, true);
    static char const* const K[] = {"write", "read", "write decoration", "read decoration", "write overlapping"};
    for (size_t i = 0; i < v.size(); ++i) {
        std::string x = i < a.size() ? a[i] : "nothing", y = i < b.size() ? b[i] : "nothing";
        if (x != y) c.fail(std::string("A30:") + K[v[i].kind], strf("conversion %zu of %zu: ", i + 1, v.size()) + name(v[i]) + "\n  gives " + y + "\n  in the C locale " + x + "\n  sequence:" + d);
    }
    if (a.size() != v.size() || b.size() != v.size()) c.fail("A30:process", "sequence:" + d);
}
}
