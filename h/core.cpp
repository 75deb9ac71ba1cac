#include "core.hpp"
#include <cfenv>
#include <cstdarg>
#include <cmath>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unordered_set>
#include <fstream>
#include <sstream>
#include <set>
#include <algorithm>
#include <exception>
#include <typeinfo>

namespace vh {

struct TapeEnd {};
static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
void Src::seed(uint64_t a, uint64_t b) {
    uint64_t x = a * 0x9e3779b97f4a7c15ULL + b;
    s0 = splitmix(x); s1 = splitmix(x);
    if (!s0 && !s1) s1 = 1;
    tape.clear(); bound.clear(); pos = 0; replay = false;
}
uint64_t Src::raw() {
    uint64_t a = s0, b = s1;
    s0 = b; a ^= a << 23;
    s1 = a ^ b ^ (a >> 17) ^ (b >> 26);
    return s1 + b;
}
uint64_t Src::draw(uint64_t n) {
    uint64_t v;
    if (replay) {
        v = pos < tape.size() ? tape[pos] : 0;
        if (n && v >= n) v = v % n;
        ++pos;
        if (pos > tape.size() + 200000) throw TapeEnd();   // a generator that loops on zeros
        bound.push_back(n);
        return v;
    }
    v = raw();
    if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
    tape.push_back(v); bound.push_back(n); ++pos;
    return v;
}

std::string strf(char const* fmt, ...) {
    char buf[4096];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    return std::string(buf, n > 0 ? n : 0);
}
std::string hexld(LD x) {
    if (std::isnan(x)) return "nan";
    if (std::isinf(x)) return x < 0 ? "-inf" : "+inf";
    int r = std::fegetround(); std::fesetround(FE_TONEAREST); // %g rounds in the current mode
    std::string s = strf("%La(%.17Lg)", x, x); std::fesetround(r); return s;
}

struct Out { bool fail = false; CaseFail f; };

static Out run_one(Ctx& c) {
    Out o;
    try { run_case(c); }
    catch (CaseFail const& f) { o.fail = true; o.f = f; }
    catch (TapeEnd const&) {}
    catch (std::exception const& e) {
        o.fail = true; o.f.key = std::string("uncaught:") + typeid(e).name();
        o.f.msg = std::string("uncaught exception escaped: ") + e.what();
    }
    return o;
}
static Out run_tape(std::vector<uint64_t> const& t, Ctx& c, bool verbose) {
    c.src.replay = true; c.src.tape = t; c.src.pos = 0; c.verbose = verbose;
    return run_one(c);
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::vector<uint64_t> shrink(std::vector<uint64_t> t, std::string const& key, double budget) {
    double end = now() + budget;
    auto ok = [&](std::vector<uint64_t> const& u) {
        Ctx c; Out o = run_tape(u, c, false);
        return o.fail && o.f.key == key;
    };
    { // drop unread tail
        Ctx c; run_tape(t, c, false);
        if (c.src.pos < t.size()) t.resize(c.src.pos);
    }
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t len = std::min<size_t>(t.size(), 32); len >= 1 && now() < end; len /= 2)
            for (size_t i = 0; i + len <= t.size() && now() < end;) {
                std::vector<uint64_t> u(t); u.erase(u.begin() + i, u.begin() + i + len);
                if (ok(u)) { t = u; progress = true; } else ++i;
            }
        for (size_t i = 0; i < t.size() && now() < end; ++i) {
            if (!t[i]) continue;
            std::vector<uint64_t> u(t); u[i] = 0;
            if (ok(u)) { t = u; progress = true; continue; }
            // binary search downwards
            uint64_t lo = 0, hi = t[i];
            while (hi - lo > 1 && now() < end) {
                uint64_t m = lo + (hi - lo) / 2; u = t; u[i] = m;
                if (ok(u)) { hi = m; } else lo = m;
            }
            if (hi < t[i]) { t[i] = hi; progress = true; }
            else { // clear low bits / high bits of a mantissa
                for (int b = 63; b >= 0 && now() < end; --b) if ((t[i] >> b) & 1) {
                    u = t; u[i] &= ~(uint64_t(1) << b);
                    if (u[i] < t[i] && ok(u)) { t = u; progress = true; }
                }
            }
        }
    }
    while (!t.empty() && t.back() == 0) { std::vector<uint64_t> u(t); u.pop_back(); if (ok(u)) t = u; else break; }
    return t;
}

static std::string jesc(std::string const& s) {
    std::string r;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 0x20 || ch >= 0x7f) r += strf("\\u%04x", ch);
        else r += ch;
    }
    return r;
}
static std::string tape_json(std::vector<uint64_t> const& t) {
    std::string s = "[";
    for (size_t i = 0; i < t.size(); ++i) s += (i ? "," : "") + std::to_string(t[i]);
    return s + "]";
}

static volatile uint64_t* g_prog = nullptr;   // [0] case index, [1] state
static uint64_t g_last = ~0ULL; static int g_same = 0;
static void on_alarm(int) {
    if (!g_prog) return;
    if (g_prog[0] == g_last) { if (++g_same >= 6) _exit(97); }
    else { g_last = g_prog[0]; g_same = 0; }
    alarm(10);
}

} // namespace vh
using namespace vh;

int main(int argc, char** argv) {
    uint64_t seed = 1, worker = 0, cases = 1000, start = 0;
    double tlimit = 1e9, shrink_s = 8;
    std::string out, replay, prog;
    bool single = false, first_only = false; std::set<std::string> skip;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto v = [&] { return std::string(argv[++i]); };
        if (a == "--seed") seed = std::stoull(v());
        else if (a == "--worker") worker = std::stoull(v());
        else if (a == "--cases") cases = std::stoull(v());
        else if (a == "--start") start = std::stoull(v());
        else if (a == "--one") { start = std::stoull(v()); single = true; }
        else if (a == "--time") tlimit = std::stod(v());
        else if (a == "--first") first_only = true;   // stop at the first failure, do not shrink
        else if (a == "--skip") skip.insert(argv[++i]);   // a failure that does not count with --first
        else if (a == "--out") out = v();
        else if (a == "--replay") replay = v();
        else if (a == "--prog") prog = v();
        else if (a == "--count-distinct") {
            std::vector<uint64_t> all;
            for (++i; i < argc; ++i) {
                std::ifstream f(argv[i], std::ios::binary); uint64_t w;
                while (f.read((char*)&w, sizeof w)) all.push_back(w);
            }
            std::sort(all.begin(), all.end());
            printf("%zu\n", (size_t)(std::unique(all.begin(), all.end()) - all.begin()));
            return 0;
        }
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
    }
    prop_setup();
    if (!replay.empty()) {
        std::ifstream f(replay); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
        size_t p = s.find("\"tape\""); if (p == std::string::npos) { fprintf(stderr, "no tape\n"); return 2; }
        p = s.find('[', p); std::vector<uint64_t> t;
        while (p < s.size() && s[p] != ']') { ++p; while (p < s.size() && (s[p] == ' ' || s[p] == ',' || s[p]=='\n')) ++p;
            if (p < s.size() && isdigit((unsigned char)s[p])) { t.push_back(std::stoull(s.substr(p, 24))); while (p < s.size() && isdigit((unsigned char)s[p])) ++p; } }
        Ctx c; Out o = run_tape(t, c, true);
        printf("%s", c.desc.c_str());
        if (o.fail) { printf("FAIL key=%s\n%s\n", o.f.key.c_str(), o.f.msg.c_str()); return 1; }
        printf("PASS\n"); return 0;
    }
    if (!prog.empty()) {
        int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, 16) == 0)
            g_prog = (volatile uint64_t*)mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (g_prog == MAP_FAILED) g_prog = nullptr;
        if (g_prog) { signal(SIGALRM, on_alarm); alarm(10); }
    }
    double t0 = now();
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    uint64_t ran = 0, nontriv = 0, skipped_known = 0;
    std::vector<std::string> samples;
    std::map<std::string, std::pair<uint64_t, std::string>> fails; // key -> count, json
    for (uint64_t i = start; single ? i == start : i < cases; ++i) {
        if ((ran & 63) == 0 && now() - t0 > tlimit) break;
        if (g_prog) g_prog[0] = i;
        Ctx c; c.src.seed(seed * 1000003ULL + worker, i);
        Out o = run_one(c);
        ++ran;
        for (auto& l : c.labels) ++labels[l];
        if (c.known) ++skipped_known;
        if (c.nontrivial) {
            ++nontriv;
            uint64_t h = 1469598103934665603ULL;
            for (uint64_t v : c.src.tape) { h ^= v; h *= 1099511628211ULL; h ^= h >> 29; }
            if (distinct.size() < 3000000) distinct.insert(h);
            if (samples.size() < 4 && (nontriv % 97) == 1) {
                std::vector<uint64_t> t = c.src.tape; Ctx c2; run_tape(t, c2, true);
                samples.push_back(c2.desc);
            }
        }
        if (o.fail && first_only && skip.count(o.f.key)) continue;
        if (o.fail && first_only) { printf("FAIL key=%s\n%s\n", o.f.key.c_str(), o.f.msg.c_str()); return 1; }
        if (o.fail) {
            auto it = fails.find(o.f.key);
            if (it != fails.end()) { ++it->second.first; if (it->second.first > 2000) {} }
            else if (fails.size() < 40) {
                std::vector<uint64_t> t = shrink(c.src.tape, o.f.key, shrink_s);
                Ctx c2; Out o2 = run_tape(t, c2, true);
                if (!o2.fail) { t = c.src.tape; Ctx c3; o2 = run_tape(t, c3, true); c2.desc = c3.desc; }
                if (!o2.fail) o2.f = o.f, o2.f.msg += " [not reproduced from its tape]";
                std::string j = "{\"key\":\"" + jesc(o.f.key) + "\",\"msg\":\"" + jesc(o2.f.msg) + "\",\"desc\":\"" + jesc(c2.desc)
                    + "\",\"tape\":" + tape_json(t) + ",\"worker\":" + std::to_string(worker) + ",\"case\":" + std::to_string(i) + "}";
                fails[o.f.key] = std::make_pair(uint64_t(1), j);
            }
        }
    }
    if (g_prog) g_prog[1] = 1;
    std::string js = "{\"ran\":" + std::to_string(ran) + ",\"nontrivial\":" + std::to_string(nontriv)
        + ",\"distinct\":" + std::to_string(distinct.size()) + ",\"known\":" + std::to_string(skipped_known)
        + ",\"rule\":\"" + jesc(prop_rule) + "\",\"secs\":" + strf("%.2f", now() - t0) + ",\"labels\":{";
    bool first = true;
    for (auto& l : labels) { js += (first ? "" : ",") + std::string("\"") + jesc(l.first) + "\":" + std::to_string(l.second); first = false; }
    js += "},\"samples\":["; first = true;
    for (auto& s : samples) { js += (first ? "" : ",") + std::string("\"") + jesc(s) + "\""; first = false; }
    js += "],\"fails\":["; first = true;
    for (auto& f : fails) { js += (first ? "" : ",") + f.second.second.substr(0, f.second.second.size() - 1) + ",\"count\":" + std::to_string(f.second.first) + "}"; first = false; }
    js += "]}\n";
    if (out.empty()) fputs(js.c_str(), stdout);
    else {
        { std::ofstream g(out + ".hash", std::ios::binary); for (uint64_t h : distinct) g.write((char const*)&h, sizeof h); }
        std::ofstream f(out + ".tmp"); f << js; f.close(); rename((out + ".tmp").c_str(), out.c_str()); }
    return fails.empty() ? 0 : 1;
}
