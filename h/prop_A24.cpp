// A24: memory: no access outside objects, no undefined behaviour, nothing left
// allocated, nothing uninitialised in the results
#include "any.hpp"
#include "lit.hpp"
#include <algorithm>
#include <cstdlib>
#include <malloc.h>
#include <typeinfo>
#include <mpfr.h>
#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#else
#define VH_ASAN 0
#endif
static long live_blocks = 0;
#if !VH_ASAN
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p) ++live_blocks; return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p) ++live_blocks; return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (!q && p) ++live_blocks; if (q && !n && !p) --live_blocks; return p; }
void free(void* p) { if (p) { --live_blocks; __libc_free(p); } }
}
#endif
namespace vh {
char const* const prop_id = "A24";
char const* const prop_rule = "a case is one generated call of any function (also with invalid operands, with an exception control word, with large print widths and precisions, with long texts, with many summands) run three times over differently filled stack and fresh heap memory; in one build the live allocations after the second and third run are compared and the three results too, in the other build AddressSanitizer, UndefinedBehaviorSanitizer and the container assertions of the standard library watch; non-trivial when the call allocates (text input and output, reductions) or an exception is thrown out of it or an operand is invalid, or at least two operands are unbounded, empty or of different types";
void prop_setup() {}
namespace ex = p1788::exception;
static void __attribute__((noinline)) dirty(int b) { volatile char a[60000]; for (size_t i = 0; i < sizeof a; ++i) a[i] = (char)b; }
static long live() { mpfr_free_cache(); return live_blocks; }
static std::string one(Any const& g, unsigned cwd) {
    std::string r; ex::clear(); ex::set_throw_exception_cwd(ex::exception_bits(cwd));
    try { r = g.run(); }
    catch (ex::exception const& e) { r = std::string("threw ") + typeid(e).name(); }
    catch (std::bad_alloc const&) { throw; }
    catch (std::exception const& e) { r = std::string("threw ") + e.what(); }
    ex::set_throw_exception_cwd(ex::none_bit); ex::clear(); return r;
}
void run_case(Ctx& c) {
    Src& s = c.src; Any g; int k = (int)s.draw(8); bool heavy = false, bad = false;
    if (k == 7) { // printing with large fields
        g = gen_any(c, 1u << K_PRINT, true); OutFmt& f = g.fmt; f.defaults = false; heavy = true;
        if (s.draw(2)) f.prec = (unsigned)s.range(0, 700); if (s.draw(2)) f.width = (unsigned)s.range(0, 700); if (s.draw(2)) f.swidth = (unsigned)s.range(0, 1500);
    } else if (k == 6) { // long text
        g = gen_any(c, 1u << K_TEXT, true); heavy = true; std::string& t = g.text;
        if (s.draw(2) && !t.empty()) { size_t p = s.draw(t.size()); char ch = t[p]; t.insert(p, std::string(s.range(1, 400), s.draw(4) == 3 ? ch : (char)('0' + s.draw(10)))); }
        if (t.size() > 900) t.resize(900);
    } else if (k == 5) {
        g = gen_any(c, 1u << K_REDUCE, true); heavy = true; int more = s.draw(4) == 3 ? s.range(5, 200) : s.range(0, 8);
        for (int i = 0; i < more; ++i) { g.v.push_back(gen_num(s, g.t)); g.w.push_back(gen_num(s, g.t)); }
    } else g = gen_any(c, ANY_ALL, true);
    if (g.kind == K_TEXT && g.text.size() > 900) g.text.resize(900);
    if (g.kind == K_TEXT && slow_exponent(g.text)) g.text = "[1,2";
    heavy = heavy || g.kind == K_TEXT || g.kind == K_PRINT || g.kind == K_REDUCE;
    if (s.draw(6) == 5 && g.flavor_route()) { // an operand that is no interval
        g.use_flavor_route(); DIV_& x = g.operand((int)s.draw(g.nops())); x.raw = true; bad = true; static LD const P[][2] = {{2, 1}, {INFL, INFL}, {-INFL, -INFL}, {std::numeric_limits<LD>::quiet_NaN(), 1}, {1, std::numeric_limits<LD>::quiet_NaN()}};
        LD const* p = P[s.draw(5)]; x.x = IV(p[0], p[1]); if (x.d == ILL && s.draw(2)) x.d = TRV;
    }
    unsigned cwd = s.draw(4) == 3 ? (unsigned)s.draw(16) : 0;
    std::string d = g.show() + (cwd ? strf("\n  control word %u", cwd) : ""); if (c.verbose) c.note(d);
    c.label(g.kind == K_TEXT ? "text input" : g.kind == K_PRINT ? "print" : g.kind == K_REDUCE ? "reduction" : "arithmetic and queries"); if (bad) c.label("invalid operand");
    static int const P[3] = {0x00, 0xAA, 0xFF}; long at[3]; std::string r[3]; int o = (int)s.draw(3);
    for (int i = 0; i < 3; ++i) { r[i].reserve(4096); }
    for (int i = 0; i < 3; ++i) {
        int b = P[(i + o) % 3]; if (!VH_ASAN) mallopt(M_PERTURB, b); dirty(b);
        { std::string q = one(g, cwd); r[i].assign(q); }
        at[i] = live();
    }
    if (!VH_ASAN) mallopt(M_PERTURB, 0);
    bool threw = r[0].compare(0, 5, "threw") == 0; if (threw) c.label("exception thrown");
    int special = 0; if (g.kind == K_FWD || g.kind == K_REV) for (int i = 0; i < g.nops(); ++i) if (!g.operand(i).x.bounded()) ++special;
    c.nontrivial = heavy || threw || bad || special >= 2 || g.mixed;
    long grow = at[2] - at[1];
    if (r[2].capacity() != r[1].capacity()) grow = 1;   // the harness' own string grew
    for (int i = 0; i < 3 && grow > 0; ++i) { long l0 = live(); one(g, cwd); grow = live() - l0; }   // growth with every call
    if (grow > 0) c.fail("A24:leak:" + g.site() + (threw ? "/thrown" : ""), d + strf("\n  every call leaves %ld more allocated block(s)", grow));
    for (int i = 1; i < 3; ++i) if (r[i] != r[0]) c.fail("A24:uninitialised:" + g.site(), d + "\n  result " + r[0] + "\n  with other contents of unused stack and heap memory: " + r[i]);
}
}
