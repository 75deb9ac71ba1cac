// A32: a call that an exception ends leaves nothing behind
#include "io.hpp"
#include "lit.hpp"
#include <cstdlib>
#include <gmp.h>
#include <mpfr.h>
#include <new>
#include <sstream>
#include <streambuf>
#include <typeinfo>
// every allocation is counted; an allocation with operator new may fail; GMP and
// MPFR allocate with functions of the program (as a program may set them up)
static long live_blocks = 0, news = 0, fail_at = -1; static bool fired = false, sizes_differ = false;
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p) ++live_blocks; return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p) ++live_blocks; return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (!q && p) ++live_blocks; if (q && !n && !p) --live_blocks; return p; }
void free(void* p) { if (p) { --live_blocks; __libc_free(p); } }
}
static void* obtain(size_t n) { if (fail_at >= 0 && news++ == fail_at) { fired = true; throw std::bad_alloc(); } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return obtain(n); }
void* operator new[](size_t n) { return obtain(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
static void* g_new(size_t n) { size_t* p = (size_t*)malloc(n + 16); if (!p) abort(); p[0] = n; return p + 2; }
static void g_del(void* q, size_t n) { size_t* p = (size_t*)q - 2; if (p[0] != n) sizes_differ = true; free(p); }
static void* g_re(void* q, size_t o, size_t n) { size_t* p = (size_t*)q - 2; if (p[0] != o) sizes_differ = true; p = (size_t*)realloc(p, n + 16); if (!p) abort(); p[0] = n; return p + 2; }
namespace vh {
char const* const prop_id = "A32";
char const* const prop_rule = "a case is one call that reads text, writes an interval or reduces a vector, during which the k-th allocation fails, or the iterator or the stream buffer throws at its k-th use, repeated and then made undisturbed; non-trivial when the exception was raised inside the call";
namespace {
struct Thrown { int tag; };
long long uses, throw_at;
void use() { if (throw_at >= 0 && uses++ == throw_at) { fired = true; throw Thrown{7}; } }
// random access iterator whose operations may throw
template <class T> struct ThrowIter {
    typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const* pointer; typedef T const& reference;
    T const* p;
    explicit ThrowIter(T const* q = nullptr) : p(q) {}
    reference operator*() const { use(); return *p; }
    pointer operator->() const { use(); return p; }
    reference operator[](difference_type k) const { use(); return p[k]; }
    ThrowIter& operator++() { use(); ++p; return *this; }
    ThrowIter operator++(int) { use(); ThrowIter q(*this); ++p; return q; }
    ThrowIter& operator--() { use(); --p; return *this; }
    ThrowIter operator--(int) { use(); ThrowIter q(*this); --p; return q; }
    ThrowIter& operator+=(difference_type k) { use(); p += k; return *this; }
    ThrowIter& operator-=(difference_type k) { use(); p -= k; return *this; }
    friend ThrowIter operator+(ThrowIter a, difference_type k) { return a += k; }
    friend ThrowIter operator+(difference_type k, ThrowIter a) { return a += k; }
    friend ThrowIter operator-(ThrowIter a, difference_type k) { return a -= k; }
    friend difference_type operator-(ThrowIter const& a, ThrowIter const& b) { use(); return a.p - b.p; }
    friend bool operator==(ThrowIter const& a, ThrowIter const& b) { return a.p == b.p; }
    friend bool operator!=(ThrowIter const& a, ThrowIter const& b) { return a.p != b.p; }
    friend bool operator<(ThrowIter const& a, ThrowIter const& b) { return a.p < b.p; }
    friend bool operator>(ThrowIter const& a, ThrowIter const& b) { return a.p > b.p; }
    friend bool operator<=(ThrowIter const& a, ThrowIter const& b) { return a.p <= b.p; }
    friend bool operator>=(ThrowIter const& a, ThrowIter const& b) { return a.p >= b.p; }
};
struct OutBuf : std::streambuf { // no allocation of its own
    char a[8192]; size_t n = 0;
    int_type overflow(int_type c) override { if (c == traits_type::eof()) return traits_type::not_eof(c); use(); if (n < sizeof a) a[n++] = (char)c; return c; }
    std::streamsize xsputn(char const* s, std::streamsize k) override { use(); for (std::streamsize i = 0; i < k; ++i) if (n < sizeof a) a[n++] = s[i]; return k; }
};
struct InBuf : std::streambuf {
    char a[4096]; size_t n, at = 0;
    explicit InBuf(std::string const& s) : n(std::min(s.size(), sizeof a)) { memcpy(a, s.data(), n); }
    int_type underflow() override { if (gptr() < egptr()) return traits_type::to_int_type(*gptr()); if (at >= n) return traits_type::eof(); use(); setg(a + at, a + at, a + at + 1); ++at; return traits_type::to_int_type(*gptr()); }
};
// outcome of one call, without allocations
struct Out { enum How { VALUE, BADALLOC, THROWN, FAILURE, OTHER } how = VALUE; bool bad = false, fail = false, changed = false; Res r; LD x = 0; char const* what = ""; char text[8192]; size_t n = 0; unsigned flags = 0; };
struct Arm { Arm(long k, long long u) { news = 0; uses = 0; fired = false; fail_at = k; throw_at = u; } ~Arm() { fail_at = -1; throw_at = -1; } };
struct Call {
    int kind = 0; /* 0 read 1 write 2 reduce */ Ty t = TD; bool dec = false; int route = 0, op = 0, rnd = 0, mask = 0; bool buf = false; std::string text; DIV_ x; OutFmt f; std::vector<LD> v, w;
    std::string show() const {
        std::string s; static char const* const RD[] = {"text function", "constructor from text", "operator>>"};
        if (kind == 0) s = std::string("read ") + ty_name[t] + (dec ? " decorated" : " bare") + " by " + RD[route] + " \"" + text + "\"" + (mask ? " with stream exceptions" : "");
        else if (kind == 1) s = std::string("write ") + ty_name[t] + (dec ? " decorated " + vh::show(x) : " bare " + vh::show(x.x)) + "  " + vh::show(f) + (mask ? " with stream exceptions" : "");
        else { static char const* const N[] = {"sum", "sum_abs", "sum_sqr", "dot"}; s = std::string(N[op]) + "<" + ty_name[t] + ">"; for (size_t i = 0; i < v.size(); ++i) s += " " + hexld(v[i]) + (op == 3 ? " * " + hexld(w[i]) : ""); }
        return s;
    }
    std::string site() const { static char const* const K[] = {"read", "write", "reduce"}; return K[kind]; }
};
template <class C, class F> void guard(Out& o, F f) {
    try { f(); }
    catch (std::bad_alloc const&) { o.how = Out::BADALLOC; }
    catch (Thrown const& t) { o.how = t.tag == 7 ? Out::THROWN : Out::OTHER; }
    catch (std::ios_base::failure const&) { o.how = Out::FAILURE; }
    catch (std::exception const& e) { o.how = Out::OTHER; o.what = typeid(e).name(); }
}
template <class T, class It> T red(Call const& c, It a, It e, It b) {
    using p1788::reduction::rnd_mode; rnd_mode const R[] = {rnd_mode::to_nearest, rnd_mode::downward, rnd_mode::upward, rnd_mode::to_zero}; rnd_mode r = R[c.rnd];
    switch (c.op) { case 0: return p1788::reduction::sum(a, e, r); case 1: return p1788::reduction::sum_abs(a, e, r); case 2: return p1788::reduction::sum_sqr(a, e, r); default: return p1788::reduction::dot(a, e, b, r); }
}
template <class T, class C> void read(Call const& c, long k, long long u, Out& o, C x, C (*fl)(std::string const&), long& n) {
    C const x0 = x;
    if (c.route < 2) { guard<C>(o, [&] { Arm a(k, u); try { if (c.route == 0) x = fl(c.text); else x = C(c.text); } catch (...) { n = news; throw; } n = news; }); }
    else {
        InBuf b(c.text); std::istream is(&b); if (c.mask) { is.exceptions(std::ios_base::badbit); }
        guard<C>(o, [&] { Arm a(k, u); try { is >> x; } catch (...) { n = news; throw; } n = news; });
        is.exceptions(std::ios_base::goodbit); o.bad = is.bad(); o.fail = is.fail();
    }
    o.r = Cv<T>::from(x); o.changed = vh::show(Cv<T>::from(x)) != vh::show(Cv<T>::from(x0));
}
template <class T> BI<T> fl_b(std::string const& s) { auto r = FL<T>::text_to_interval(s); return std::isnan(r.first) ? BI<T>::empty() : BI<T>(r.first, r.second); }
template <class T> DI<T> fl_d(std::string const& s) { auto r = FL<T>::text_to_decorated_interval(s); if (r.second == LDec::ill) return DI<T>::nai(); return DI<T>(std::isnan(r.first.first) ? BI<T>::empty() : BI<T>(r.first.first, r.first.second), r.second); }
// k: the allocation that fails (-1: none); u: the use that throws; n: number of allocations (of uses)
template <class T> void go(Call const& c, long k, long long u, Out& o, long& n, long& m) {
    exc_clear(); m = 0;
    switch (c.kind) {
    case 0: if (c.dec) read<T, DI<T>>(c, k, u, o, DI<T>((T)1, (T)2, LDec::def), fl_d<T>, n); else read<T, BI<T>>(c, k, u, o, BI<T>((T)1, (T)2), fl_b<T>, n); m = (long)uses; break;
    case 1: {
        OutBuf b; std::ostream os(&b); vh::apply(os, c.f); if (c.mask) os.exceptions(std::ios_base::badbit);
        long set[8]; set[0] = os.iword(p1788::io::string_width_manip_id);
        BI<T> xb = Cv<T>::bi(c.dec ? IV(1, 2) : c.x.x); DI<T> xd = c.dec ? Cv<T>::di(c.x) : DI<T>((T)1, (T)2);
        guard<BI<T>>(o, [&] { Arm a(k, u); try { if (c.dec) os << xd; else os << xb; } catch (...) { n = news; m = (long)uses; throw; } n = news; m = (long)uses; });
        os.exceptions(std::ios_base::goodbit); o.bad = os.bad(); o.fail = os.fail(); o.n = b.n; memcpy(o.text, b.a, b.n);
        if (os.iword(p1788::io::string_width_manip_id) != set[0]) o.changed = true;
        if (!o.changed) { OutBuf b2; os.clear(); os.rdbuf(&b2); if (c.f.sw) os.width(c.f.sw); if (c.dec) os << xd; else os << xb; if (o.how == Out::VALUE && !o.fail && (b2.n != b.n || memcmp(b2.a, b.a, b.n))) o.changed = true; OutBuf b3; std::ostream o3(&b3); vh::apply(o3, c.f); if (c.dec) o3 << xd; else o3 << xb; if (b2.n != b3.n || memcmp(b2.a, b3.a, b2.n)) o.changed = true; }
        break; }
    default: {
        std::vector<T> x(c.v.begin(), c.v.end()), y(c.w.begin(), c.w.end()); T r = 0;
        if (c.buf) guard<T>(o, [&] { Arm a(k, u); try { r = red<T>(c, ThrowIter<T>(x.data()), ThrowIter<T>(x.data() + x.size()), ThrowIter<T>(y.data())); } catch (...) { n = news; m = (long)uses; throw; } n = news; m = (long)uses; });
        else guard<T>(o, [&] { Arm a(k, u); try { r = red<T>(c, x.begin(), x.end(), y.begin()); } catch (...) { n = news; m = (long)uses; throw; } n = news; m = (long)uses; });
        o.x = r; }
    }
    o.flags = exc_state(); exc_clear();
}
void go(Call const& c, long k, long long u, Out& o, long& n, long& m) { switch (c.t) { case TF: go<float>(c, k, u, o, n, m); break; case TD: go<double>(c, k, u, o, n, m); break; default: go<LD>(c, k, u, o, n, m); } }
bool same(Call const& c, Out const& a, Out const& b) {
    if (a.flags != b.flags || a.fail != b.fail || a.bad != b.bad) return false;
    switch (c.kind) { case 0: return show(a.r) == show(b.r); case 1: return a.n == b.n && !memcmp(a.text, b.text, a.n); default: return a.x == b.x || (a.x != a.x && b.x != b.x); }
}
std::string outcome(Call const& c, Out const& a) {
    std::string s = a.how == Out::VALUE ? "" : a.how == Out::BADALLOC ? "bad_alloc " : a.how == Out::FAILURE ? "ios_base::failure " : a.how == Out::THROWN ? "the exception of the iterator or buffer " : std::string("exception ") + a.what + " ";
    if (a.bad) s += "badbit "; if (a.fail) s += "failbit "; if (a.flags) s += strf("flags %u ", a.flags);
    return s + (c.kind == 0 ? show(a.r) : c.kind == 1 ? "\"" + std::string(a.text, a.n) + "\"" : hexld(a.x));
}
long live() { mpfr_free_cache(); return live_blocks; }
Out A, B, Z;
void cold();
}
void prop_setup() { mp_set_memory_functions(g_new, g_re, g_del); }
namespace {
// the first conversions of the process, cut off further and further on
void cold(Ctx& ctx) {
    static bool done = false; if (done) return; done = true;
    Call c; long k = 0, n, m; int step = 1; char const* const T[] = {"[1.25,3]", "12.3?4u", "[nai]"};
    for (int i = 0; i < 3; ++i) { c.text = T[i]; c.dec = true; c.route = 2; c.mask = 1; step = 1; k = 0;
        for (;;) { A = Out(); go(c, k, -1, A, n, m); if (!fired) break; if (A.how != Out::BADALLOC && !A.bad) ctx.fail("A32:first", c.show() + strf("\n  as the first conversion, allocation %ld fails: ", k) + outcome(c, A)); k += step; step = step * 5 / 4 + 1; }
        c.kind = 0; B = Out(); go(c, -1, -1, B, n, m);
        std::string want = i == 0 ? "[0xap-3(1.25), 0xcp-2(3)]_com" : ""; if (B.how != Out::VALUE || B.fail || (i == 2 && !B.r.nai())) ctx.fail("A32:first", c.show() + "\n  after failed conversions: " + outcome(c, B)); }
}
}
// literals with an exponent that no int holds: the conversion itself ends by an exception inside
std::string far_lit(Src& s, bool dec) {
    auto digits = [&](char const* set, int base) { std::string r; int n = s.range(1, s.draw(3) == 2 ? 60 : 6); for (int i = 0; i < n; ++i) r += set[s.draw((uint64_t)base)]; if (s.draw(3) == 2) r.insert(s.draw(r.size() + 1), "."); if (r == ".") r = "1."; return r; };
    auto num = [&](bool far) {
        static char const* const E[] = {"99999999999", "2147483648", "9223372036854775808", "99999999999999999999", "100000000000000000000000000000000000000"}; static char const* const S[] = {"", "+", "-"};
        std::string e = std::string(S[s.draw(3)]) + (far ? E[s.draw(5)] : std::to_string(s.range(0, 40))); bool hex = s.draw(2);
        return std::string(S[s.draw(3)]) + (hex ? "0x" + digits("0123456789abcdef", 16) + "p" + e : digits("0123456789", 10) + "e" + e); };
    std::string r; int k = (int)s.draw(5);
    switch (k) { case 0: r = "[" + num(true) + "]"; break; case 1: r = "[" + num(true) + "," + num(s.draw(2)) + "]"; break; case 2: r = "[" + num(false) + "," + num(true) + "]"; break; case 3: r = "[," + num(true) + "]"; break;
    default: static char const* const R[] = {"?", "??", "?3", "?u", "?12d", "?4u"}; r = digits("0123456789", 10) + R[s.draw(6)] + "e" + (s.draw(2) ? "-" : "") + "99999999999"; }
    return dec && s.draw(2) ? r + "_def" : r;
}
void run_case(Ctx& ctx) {
    cold(ctx);
    Src& s = ctx.src; Call c; c.kind = (int)s.draw(3); c.t = Ty(s.draw(3)); c.dec = s.draw(2); c.mask = (int)s.draw(2);
    if (c.kind == 0) { c.route = (int)s.draw(3); c.text = s.draw(6) == 5 ? far_lit(s, c.dec) : gen_lit(s, c.t, c.dec); if (c.text.size() > 600) c.text.resize(600); if (slow_exponent(c.text)) c.text = "[1,2"; }
    else if (c.kind == 1) {
        Pool p; c.x.x = gen_iv(s, c.t, &p); if (!c.x.x.empty && (c.x.x.lo == INFL || c.x.x.hi == -INFL)) c.x.x = IV(1, 2); c.x.d = c.dec ? gen_dec_for(s, c.x.x) : COM; if (c.dec && s.draw(16) == 15) { c.x.d = ILL; c.x.x = IV(); }
        OutFmt& f = c.f; if (s.draw(6) == 5) f.defaults = true; else { f.upper = (int)s.draw(2); f.form = s.draw(2) ? (int)s.draw(4) : 0; f.num = (int)s.draw(4); if (f.num == 1 || f.form) { LD a = gen_mod(s, c.t), b = gen_mod(s, c.t); if (s.draw(8) && !c.x.nai()) { c.x.x = IV(std::fmin(a, b), std::fmax(a, b)); c.x.d = c.dec ? gen_dec_for(s, c.x.x) : COM; } } f.special = (int)s.draw(3); f.nopunct = s.draw(4) == 3; f.uexp = (int)s.draw(2); f.dnum = s.draw(8) == 7; if (s.draw(2)) f.prec = (unsigned)s.range(1, 60); if (s.draw(3) == 2) f.width = (unsigned)s.range(0, 60); if (s.draw(2)) f.swidth = (unsigned)s.range(0, 200); }
    } else { c.op = (int)s.draw(4); c.rnd = (int)s.draw(4); c.buf = s.draw(2); int n = s.range(0, 12); Pool p; for (int i = 0; i < n; ++i) { LD x = gen_rel(s, c.t, p), y = gen_rel(s, c.t, p); p.add(x); c.v.push_back(x); c.w.push_back(y); } }
    std::string d = c.show(); if (ctx.verbose) ctx.note(d);
    long n = 0, m = 0, n1, m1; Z = Out(); go(c, LONG_MAX, LLONG_MAX, Z, n, m);          // undisturbed; counts allocations and uses
    bool by_use = (c.kind == 2 ? c.buf : (c.kind == 1 || c.route == 2)) && m > 0 && s.draw(2); long total = by_use ? m : n;
    ctx.label(c.site()); if (total == 0) return;
    long k = (long)s.draw((uint64_t)total); std::string w = d + (by_use ? strf("\n  use %ld of %ld of the %s throws", k + 1, total, c.kind == 2 ? "iterator" : "stream buffer") : strf("\n  allocation %ld of %ld fails", k + 1, total)) + "\n  undisturbed: " + outcome(c, Z);
    auto again = [&](Out& o) { o = Out(); go(c, by_use ? -1 : k, by_use ? k : -1, o, n1, m1); };
    again(A); bool f = fired; ctx.nontrivial = f; if (f) ctx.label(by_use ? "exception of iterator or buffer" : "allocation failed");
    w += "\n  disturbed: " + outcome(c, A);
    if (A.how == Out::OTHER) ctx.fail("A32:exception:" + c.site(), w + "\n  another exception leaves the call");
    if (A.how == Out::FAILURE && !(c.mask && A.bad)) ctx.fail("A32:exception:" + c.site(), w + "\n  the stream does not ask for it");
    if (A.how == Out::THROWN && c.kind != 2 && !c.mask) ctx.fail("A32:exception:" + c.site(), w + "\n  the exception of the buffer leaves the call although the stream does not ask for it");
    if (f && A.how == Out::VALUE && !A.bad && !same(c, A, Z)) ctx.fail("A32:silent:" + c.site(), w + "\n  the call reports success");
    if (c.kind == 0 && (A.how != Out::VALUE || A.fail) && A.changed) ctx.fail("A32:variable:" + c.site(), w + "\n  the variable has changed");
    if (c.kind == 1 && A.changed) ctx.fail("A32:settings:" + c.site(), w + "\n  the same interval is written differently to the same stream afterwards");
    B = Out(); go(c, -1, -1, B, n1, m1); if (B.how != Z.how || !same(c, B, Z)) ctx.fail("A32:afterwards:" + c.site(), w + "\n  afterwards: " + outcome(c, B));
    long l0 = live(), grow = 0; again(A); grow = live() - l0;
    for (int i = 0; i < 3 && grow > 0; ++i) { l0 = live(); again(A); grow = live() - l0; }
    if (grow > 0) ctx.fail("A32:leak:" + c.site(), w + strf("\n  every such call leaves %ld more allocated block(s)", grow));
    l0 = live(); B = Out(); go(c, -1, -1, B, n1, m1); grow = live() - l0;      // the library itself may leave a conversion by an exception
    for (int i = 0; i < 3 && grow > 0; ++i) { l0 = live(); B = Out(); go(c, -1, -1, B, n1, m1); grow = live() - l0; }
    if (grow > 0) ctx.fail("A32:leak:" + c.site(), w + strf("\n  every undisturbed call leaves %ld more allocated block(s)", grow));
    if (sizes_differ) { sizes_differ = false; ctx.fail("A32:sizes:" + c.site(), w + "\n  memory of GMP or MPFR is returned with another size"); }
}
}
