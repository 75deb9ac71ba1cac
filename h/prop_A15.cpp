// A15: text that is not an interval literal is rejected
#include "io.hpp"
#include "lit.hpp"
#include <cerrno>
#include <csignal>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
namespace vh {
char const* const prop_id = "A15";
char const* const prop_rule = "a case is one text (a literal mutated by edits, a literal with an inadmissible decoration or swapped bounds, or random bytes) read for one bound type, bare or decorated, through a constructor, the flavor text function or stream extraction; non-trivial when the text is not a literal but still starts like one";
void prop_setup() {}
// an exponent that the conversion expands to a power with as many digits, read in a child process
static void huge_exponent(Ctx& c) {
    Src& s = c.src; long e = 500000000L + 1000 * (long)s.draw(1600000); int form = (int)s.draw(4); std::string n = std::to_string(e), x = form == 0 ? "[1e" + n + "]" : form == 1 ? "[0,1e-" + n + "]" : form == 2 ? "1.5?e" + n : "[-1e" + n + ",3]";
    std::string d = "the literal " + x; if (c.verbose) c.note(d);
    c.label("huge exponent");
    pid_t p = fork(); if (p < 0) return;
    if (p == 0) { struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r); { long pages = 0; if (FILE* f = fopen("/proc/self/statm", "r")) { if (fscanf(f, "%ld", &pages) != 1) pages = 0; fclose(f); } r.rlim_cur = r.rlim_max = (rlim_t)pages * 4096 + (64u << 20); } setrlimit(RLIMIT_AS, &r); signal(SIGABRT, SIG_DFL); signal(SIGALRM, SIG_DFL); close(2); alarm(20); TextIn o = read_text(TD, true, 0, x); _exit(o.foreign || !o.r.valid ? 3 : 0); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGABRT || WTERMSIG(st) == SIGALRM)) c.fail("A15:huge exponent exhausts memory or time", d + "\n  not read with 64 MB of memory and 20 s");
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) c.fail("A15:huge exponent", d + strf("\n  wait status %d", st));
}
// a literal with very many digits, read in a child process
static void long_literal(Ctx& c) {
    Src& s = c.src; size_t n = 40000 + 1000 * s.draw(60); int form = (int)s.draw(4);
    std::string m((size_t)n, '3'), x = form == 0 ? "[0." + m + "]" : form == 1 ? "[1,1." + m + "]" : form == 2 ? "0." + m + "?" : "[" + m + "/7" + m + "]";
    std::string d = strf("a literal with %zu digits, form %d", n, form); if (c.verbose) c.note(d);
    c.label("long literal");
    pid_t p = fork(); if (p < 0) return;
    if (p == 0) { struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r); signal(SIGSEGV, SIG_DFL); alarm(60); TextIn o = read_text(TD, true, 0, x); _exit(o.foreign || !o.r.valid ? 3 : 0); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGSEGV) c.fail("A15:long literal crashes", d + "\n  the process ended with a segmentation fault");
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) c.fail("A15:long literal", d + strf("\n  wait status %d", st));
}
void run_case(Ctx& c) {
    Src& s = c.src; if (s.draw(8000) == 7999) { if (s.draw(16) == 15) huge_exponent(c); else long_literal(c); return; }
    Ty t = Ty(s.draw(3)); bool dec = s.draw(2); int route = (int)s.draw(N_IN);
    std::string x; int k = (int)s.draw(12);
    if (k == 0) { int n = s.range(0, 20); for (int i = 0; i < n; ++i) x += (char)s.draw(256); }
    else if (k == 1) { int n = s.range(0, 24); for (int i = 0; i < n; ++i) x += "0123456789abcdefpx+-./?[]_,uUdDeE infatyocm"[s.draw(43)]; if (s.draw(2)) x = "[" + x + "]"; }
    else { x = gen_lit(s, t, true); if (k == 2) { size_t p = x.find(','); if (p != std::string::npos && x.size() > 2) { size_t e = x.find(']'); x = "[" + x.substr(p + 1, e - p - 1) + "," + x.substr(1, p - 1) + x.substr(e); } } else if (k == 3) x += std::string("_") + dec_name[s.draw(5)]; else x = mutate(s, x); }
    // an exponent that fits an int but not together with the position of the point
    if (s.draw(40) == 39) {
        static char const* N[] = {"-2147483647", "-2147483648", "-2147483649", "-4294967296", "-9223372036854775808", "-18446744073709551616", "2147483648", "+2147483649", "4294967297", "9223372036854775807", "18446744073709551617"};
        std::string e = N[s.draw(11)], f(s.range(1, 4), '1'), sg = s.draw(2) ? "-" : "", a = std::to_string(s.range(0, 12)), dm = sg + a + "." + f + "e" + e, hm = sg + "0x" + a + "." + f + "p" + e; std::string const& m = s.draw(2) ? dm : hm;
        switch (s.draw(5)) { case 0: x = "[" + m + "]"; break; case 1: x = "[" + m + ",99]"; break; case 2: x = "[-99," + m + "]"; break; case 3: x = sg + a + "." + f + (s.draw(2) ? "?" : s.draw(2) ? "?3u" : "??") + "e" + e; break; default: x = sg + a + "?e" + e; }
    }
    // the cost of the conversion grows with the exponent
    else { size_t i = 0; while (i < x.size()) { size_t j = i; while (j < x.size() && x[j] >= '0' && x[j] <= '9') ++j; if (i > 0 && strchr("eEpP+-", x[i - 1]) && j - i >= 5 && x[i - 1] != 0) { size_t z = i; while (z < j && x[z] == '0') ++z; if (j - z >= 5 && j - z <= 10) { x.erase(i, j - i - 2); j = i + 2; } } i = j + 1; } }
    std::string d = strf("%s, %s%s\n  text = ", in_name[route], ty_name[t], dec ? " decorated" : "") + showtext(x);
    if (c.verbose) c.note(d);
    Lit l = route < 2 ? lit_text(x) : lit_read(x);
    c.label(l.unsure ? "left open" : l.ok ? "still a literal" : std::string("rejected: ") + l.why);
    c.nontrivial = !l.ok && !l.unsure && x.find_first_of("[?0123456789") != std::string::npos;
    TextIn o = read_text(t, dec, route, x);
    if (o.foreign) c.fail("A15:exception", d + "\n  exception " + o.what);
    if (!o.r.valid) c.fail("A15:invalid result", d + "\n  result " + show(o.r));
    if (o.flags & ~5u) c.fail("A15:flags", d + strf("\n  exception state %u", o.flags));
    if (l.unsure) return;
    if (l.ok) {
        IV ex; int ed; lit_value(l, t, ex, ed); Res w; w.x = ex; w.dec = dec; w.d = ed;
        bool good = !o.fail && !o.threw && o.r.dec == dec && (dec && (ed == ILL || o.r.nai()) ? (ed == ILL && o.r.nai()) : same(o.r.x, ex) && (!dec || o.r.d == ed));
        if (!good) c.fail("A15:literal not read", d + "\n  result " + show(o.r) + (o.fail ? " (failure)" : "") + "\n  expected " + show(w));
        if (o.flags & 1) c.fail("A15:flags", d + strf("\n  exception state %u", o.flags));
        return;
    }
    if (route < 2) {
        Res w; w.dec = dec; w.d = ILL;
        if (!(dec ? o.r.nai() : o.r.x.empty)) c.fail("A15:accepted", d + "\n  result " + show(o.r) + "\n  not a literal: " + l.why);
        if (!(o.flags & 1)) c.fail("A15:no signal", d + strf("\n  exception state %u, undefined_operation expected; not a literal: ", o.flags) + l.why);
    } else {
        if (!o.fail && !(route == 4 && o.threw)) c.fail("A15:accepted", d + "\n  result " + show(o.r) + "\n  not a literal: " + l.why);
        if (route >= 3 && !o.threw) c.fail("A15:stream exception", d + "\n  the stream's failure exception was not thrown");
        if (o.r.x.empty || o.r.x.lo != 1 || o.r.x.hi != 2 || (dec && o.r.d != DEF)) c.fail("A15:target changed", d + "\n  target afterwards " + show(o.r));
    }
}
}
