// Choice-tape property-based testing core (generation, shrinking, replay,
// statistics).  Contains no code of the library under test.
#ifndef VH_CORE_HPP
#define VH_CORE_HPP
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <stdexcept>

namespace vh {

typedef long double LD;

// ---- choice source ---------------------------------------------------------
// Every random decision is one bounded draw; the sequence of draws (the tape)
// determines the case completely.  0 is always the simplest choice.
struct Src {
    std::vector<uint64_t> tape;   // replayed prefix (replay) / recorded draws
    std::vector<uint64_t> bound;
    size_t pos = 0;
    bool replay = false;
    uint64_t s0 = 1, s1 = 2;

    void seed(uint64_t a, uint64_t b);
    uint64_t raw();
    uint64_t draw(uint64_t n);                 // uniform in [0,n)
    uint64_t bits(unsigned k) { return k >= 64 ? draw(0) : draw(uint64_t(1) << k); } // draw(0): full 64 bit
    int range(int lo, int hi) { return lo + int(draw(uint64_t(hi - lo + 1))); }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; } // 0 -> false
    template <class C> auto pick(C const& c) -> decltype(c[0]) { return c[draw(c.size())]; }
};

struct CaseFail {
    std::string key;   // stable classification of the failing call site
    std::string msg;
};

struct Ctx {
    Src src;
    bool verbose = false;             // collect a description of the case
    std::string desc;
    std::vector<std::string> labels;  // classification of the case
    bool nontrivial = false;
    void note(std::string const& s) { if (verbose) { desc += s; desc += "\n"; } }
    void label(char const* s) { labels.push_back(s); }
    void label(std::string const& s) { labels.push_back(s); }
    [[noreturn]] void fail(std::string const& key, std::string const& msg) { throw CaseFail{key, msg}; }
    bool known = false;               // a known finding was met and skipped
};

// provided by each property
extern char const* const prop_id;
extern char const* const prop_rule;            // what counts as non-trivial
void run_case(Ctx& c);
void prop_setup();                             // called once per process

std::string hexld(LD x);
std::string strf(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
}
#endif
