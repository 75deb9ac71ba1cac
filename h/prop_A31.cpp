// A31: results do not depend on how the program is compiled
#include "any.hpp"
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
namespace vh {
char const* const prop_id = "A31";
char const* const prop_rule = "a case is up to four generated calls of any function, evaluated by this program and by the same program built by other compilers, with other optimisation levels, language standards and code generation options; non-trivial when every program has answered for the same operands and one call has an interval that is neither empty nor entire or converts text";
// the sign of a zero bound has no meaning
static std::string nozero(std::string s) { for (size_t p; (p = s.find("-0x0p+0(0)(-)")) != std::string::npos;) s.replace(p, 13, "0x0p+0(0)"); for (size_t p; (p = s.find("-0x0p+0(-0)(-)")) != std::string::npos;) s.replace(p, 14, "0x0p+0(0)"); return s; }
static bool get(int fd, void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = read(fd, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; c += k; n -= (size_t)k; } return true; }
static bool put(int fd, void const* p, size_t n) { char const* c = (char const*)p; while (n) { ssize_t k = send(fd, c, n, MSG_NOSIGNAL); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; c += k; n -= (size_t)k; } return true; }
static bool put_s(int fd, std::string const& s) { uint64_t n = s.size(); return put(fd, &n, sizeof n) && put(fd, s.data(), n); }
static bool get_s(int fd, std::string& s) { uint64_t n; if (!get(fd, &n, sizeof n) || n > (1u << 26)) return false; s.resize(n); return n == 0 || get(fd, &s[0], n); }
struct Answer { std::string show, res, site; bool real = false; };
static std::vector<Answer> answers(Ctx& c) {
    std::vector<Answer> v; int n = c.src.range(1, 4);
    for (int i = 0; i < n; ++i) {
        Any g = gen_any(c, ANY_ALL, true); Answer a; a.show = g.show(); a.site = g.site(); exc_clear();
        try { a.res = nozero(g.run()); } catch (std::exception const& e) { a.res = std::string("exception ") + e.what(); }
        a.res += strf(" [state %u]", exc_state()); exc_clear();
        a.real = g.kind == K_TEXT || g.kind == K_NUMS || g.kind == K_REDUCE; for (int k = 0; k < g.nops(); ++k) { IV const& x = g.operand(k).x; if (!x.empty && !x.entire()) a.real = true; }
        v.push_back(a);
    }
    return v;
}
static void serve(int fd) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); uint64_t n;
    while (get(fd, &n, sizeof n)) {
        Ctx c; c.src.tape.resize(n); if (n && !get(fd, c.src.tape.data(), n * 8)) break; c.src.replay = true; alarm(20);
        std::vector<Answer> v = answers(c); alarm(0); uint64_t k = v.size(); if (!put(fd, &k, sizeof k)) break;
        for (Answer const& a : v) if (!put_s(fd, a.show) || !put_s(fd, a.res)) break;
    }
    _exit(0);
}
struct Peer { std::string path, name; int fd = -1; pid_t pid = -1; };
static std::vector<Peer> peers;
void prop_setup() {
    if (char const* s = getenv("VH_SERVE")) serve(atoi(s));
    // path=name;path=name
    std::string e = getenv("VH_PEERS") ? getenv("VH_PEERS") : ""; size_t i = 0;
    while (i < e.size()) { size_t j = e.find(';', i); if (j == std::string::npos) j = e.size(); std::string x = e.substr(i, j - i); size_t q = x.find('='); if (q != std::string::npos) { Peer p; p.path = x.substr(0, q); p.name = x.substr(q + 1); peers.push_back(p); } i = j + 1; }
}
static void stop(Peer& p) { if (p.fd >= 0) close(p.fd); p.fd = -1; if (p.pid > 0) { kill(p.pid, SIGKILL); waitpid(p.pid, nullptr, 0); } p.pid = -1; }
static bool start(Peer& p) {
    int s[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) return false;
    fcntl(s[0], F_SETFD, FD_CLOEXEC);
    pid_t k = fork(); if (k < 0) { close(s[0]); close(s[1]); return false; }
    if (k == 0) { alarm(0); signal(SIGALRM, SIG_DFL); setenv("VH_SERVE", strf("%d", s[1]).c_str(), 1); execl(p.path.c_str(), p.path.c_str(), (char*)nullptr); _exit(127); }
    close(s[1]); p.fd = s[0]; p.pid = k; return true;
}
static bool ask(Peer& p, std::vector<uint64_t> const& tape, std::vector<Answer>& v) {
    if (p.fd < 0 && !start(p)) return false;
    uint64_t n = tape.size(), k; if (!put(p.fd, &n, sizeof n) || (n && !put(p.fd, tape.data(), n * 8)) || !get(p.fd, &k, sizeof k) || k > 64) { stop(p); return false; }
    for (uint64_t i = 0; i < k; ++i) { Answer a; if (!get_s(p.fd, a.show) || !get_s(p.fd, a.res)) { stop(p); return false; } v.push_back(a); }
    return true;
}
void run_case(Ctx& c) {
    std::vector<Answer> a = answers(c); std::string d; bool real = false; for (Answer const& x : a) { d += x.show + "\n"; real |= x.real; }
    if (c.verbose) c.note(d); bool all = !peers.empty();
    std::vector<uint64_t> tape = c.src.tape; c.labels.clear();
    for (Peer& p : peers) {
        std::vector<Answer> b; if (!ask(p, tape, b)) { b.clear(); if (!ask(p, tape, b)) c.fail("A31:" + p.name + " ends", d + "the program built with " + p.name + " ends on these calls"); }
        bool same = a.size() == b.size(); for (size_t i = 0; same && i < a.size(); ++i) same = a[i].show == b[i].show;
        if (!same) { c.label("other operands: " + p.name); all = false; continue; }
        for (size_t i = 0; i < a.size(); ++i) if (a[i].res != b[i].res) c.fail("A31:" + a[i].site, a[i].show + "\n  built with " + p.name + ": " + b[i].res + "\n  built with the default options: " + a[i].res);
        c.label(p.name);
    }
    c.nontrivial = all && real;
}
}
