"""A25: programs of several translation units.  Programs are generated (which
headers in which order, language standard, optimisation and compiler per unit,
which calls), built without tolerating duplicate definitions, and run: each runs
generated operands and histories and compares the units with one another."""
import os, random, json, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor

HEADERS = ['p1788/p1788.hpp', 'p1788/infsup/interval.hpp', 'p1788/infsup/decorated_interval.hpp', 'p1788/decoration/decoration.hpp', 'p1788/exception/exception.hpp', 'p1788/io/io_manip.hpp', 'p1788/overlapping/overlapping.hpp', 'p1788/reduction/reduction.hpp', 'p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp', 'mpfr.h', 'string', 'cmath', 'iostream', 'complex', 'cstdint', 'algorithm']
# calls: name -> body; a is an array of six long doubles
SNIP = {
    'arith': 'return sh(mk<T>(a) + mk<T>(a + 2)) + sh(mk<T>(a) * mk<T>(a + 4)) + sh(mk<T>(a + 2) / mk<T>(a + 4)) + sh(-mk<T>(a) - mk<T>(a + 4));',
    'darith': 'return sh(mkd<T>(a) + mkd<T>(a + 2)) + sh(mkd<T>(a) / mkd<T>(a + 4)) + sh(sqrt(mkd<T>(a + 2)));',
    'exp': 'return sh(exp(mk<T>(a))) + sh(log(mk<T>(a + 2))) + sh(exp2(mkd<T>(a))) + sh(log10(mkd<T>(a + 4)));',
    'trig': 'return sh(sin(mk<T>(a))) + sh(cos(mk<T>(a + 2))) + sh(tan(mkd<T>(a))) + sh(atan2(mk<T>(a), mk<T>(a + 2)));',
    'pow': 'return sh(pow(mk<T>(a), mk<T>(a + 2))) + sh(pown(mk<T>(a), (int)(a[4] / 7))) + sh(sqr(mkd<T>(a + 2)));',
    'set': 'return sh(intersection(mk<T>(a), mk<T>(a + 2))) + sh(convex_hull(mk<T>(a), mk<T>(a + 4)));',
    'cmp': 'std::string r; r += char(48 + (mk<T>(a) == mk<T>(a + 2))); r += char(48 + subset(mk<T>(a), mk<T>(a + 2))); r += char(48 + less(mk<T>(a), mk<T>(a + 4))); r += char(48 + interior(mkd<T>(a), mkd<T>(a + 4))); return r;',
    'num': 'return n(inf(mk<T>(a))) + n(mid(mk<T>(a))) + n(rad(mk<T>(a + 2))) + n(wid(mkd<T>(a))) + n(mig(mk<T>(a))) + n(mag(mk<T>(a + 4)));',
    'rev': 'return sh(sqr_rev(mk<T>(a), mk<T>(a + 2))) + sh(mul_rev(mk<T>(a), mk<T>(a + 2))) + sh(abs_rev(mk<T>(a + 4)));',
    'cancel': 'return sh(cancel_minus(mk<T>(a), mk<T>(a + 2))) + sh(cancel_plus(mkd<T>(a), mkd<T>(a + 2)));',
    'pair': 'auto p = mul_rev_to_pair(mk<T>(a), mk<T>(a + 2)); return sh(p.first) + sh(p.second);',
    'mixed': 'return sh(BI<T>(mk<float>(a))) + sh(BI<T>(mk<long double>(a))) + n(FL<float>::add(rp<T>(a), rp<double>(a + 2)).second);',
    'overlap': 'std::ostringstream o; o << overlap(mk<T>(a), mk<T>(a + 2)) << " " << p1788::io::overlapping_numeric << overlap(mkd<T>(a), mkd<T>(a + 4)); return o.str();',
    'text': 'std::ostringstream o; o << "[" << (long)a[0] << "," << (long)a[0] + 3 << ".5]"; return sh(BI<T>(o.str())) + sh(DI<T>(o.str() + "_def")) + sh(BI<T>("1.5?2"));',
    'print': 'std::ostringstream o; o << mk<T>(a) << " " << mkd<T>(a + 2) << p1788::io::hex << mk<T>(a + 4) << p1788::io::uncertain_form << p1788::io::decimal_scientific << mk<T>(a); return o.str();',
    'read': 'std::istringstream i("[1,2] [3,4]_dac trv"); BI<T> x; DI<T> y; p1788::decoration::decoration d; i >> x >> y >> d; std::ostringstream o; o << d; return sh(x) + sh(y) + o.str();',
    'reduce': 'std::vector<T> v; for (int i = 0; i < 6; ++i) v.push_back((T)a[i]); return n(p1788::reduction::sum(v.begin(), v.end(), p1788::reduction::rnd_mode::to_nearest)) + n(p1788::reduction::sum_sqr(v.begin(), v.end(), p1788::reduction::rnd_mode::upward)) + n(p1788::reduction::dot(v.begin(), v.end(), v.begin(), p1788::reduction::rnd_mode::downward));',
    'invalid': 'p1788::exception::exception_bits old = p1788::exception::state(); p1788::exception::clear(); BI<T> x((T)(a[0] < a[1] ? a[1] : a[0] + 1), (T)(a[0] < a[1] ? a[0] : a[1] - 1)); std::string r = sh(x) + char(48 + (int)p1788::exception::state()); p1788::exception::state() = old; return r;',
    'special': 'return sh(BI<T>::empty()) + sh(BI<T>::entire()) + sh(DI<T>::nai()) + sh(BI<T>()) + sh(DI<T>());',
}
COMMON = r'''
#ifndef COMMON_HPP
#define COMMON_HPP
#include <sstream>
#include <vector>
#include <limits>
#include <cstdio>
#include <cstdint>
#include <cstdlib>
template <class T> using FL = p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor<T>;
template <class T> using BI = p1788::infsup::interval<T, p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor>;
template <class T> using DI = p1788::infsup::decorated_interval<T, p1788::flavor::infsup::setbased::mpfr_bin_ieee754_flavor>;
namespace {
inline std::string n(long double x) { char b[64]; snprintf(b, sizeof b, "%La ", x); return b; }
template <class T> BI<T> mk(long double const* a) { T x = (T)a[0], y = (T)a[1]; return x < y ? BI<T>(x, y) : BI<T>(y, x); }
template <class T> DI<T> mkd(long double const* a) { T x = (T)a[0], y = (T)a[1]; return x < y ? DI<T>(x, y, p1788::decoration::decoration::def) : DI<T>(y, x, p1788::decoration::decoration::def); }
template <class T> typename FL<T>::representation rp(long double const* a) { T x = (T)a[0], y = (T)a[1]; return x < y ? typename FL<T>::representation(x, y) : typename FL<T>::representation(y, x); }
template <class T> std::string sh(BI<T> const& x) { return is_empty(x) ? std::string("empty ") : n(inf(x)) + n(sup(x)); }
template <class T> std::string sh(DI<T> const& x) { if (is_nai(x)) return "nai "; std::ostringstream o; o << decoration(x); return (is_empty(x) ? std::string("empty ") : n(inf(x)) + n(sup(x))) + o.str() + " "; }
inline void set1(std::ostream& o, int k) {
    using namespace p1788::io;
    switch (k) {
    case 0: o << upper_case; break; case 1: o << lower_case; break; case 2: o << string_width(30); break; case 3: o << string_width(0); break;
    case 4: o << inf_sup_form; break; case 5: o << uncertain_form; break; case 6: o << uncertain_up_form; break; case 7: o << uncertain_down_form; break;
    case 8: o << decimal_scientific; break; case 9: o << p1788::io::decimal; break; case 10: o << p1788::io::scientific; break; case 11: o << p1788::io::hex; break;
    case 12: o << p1788::io::width(12); break; case 13: o << p1788::io::width(0); break; case 14: o << p1788::io::precision(3); break; case 15: o << p1788::io::precision(0); break;
    case 16: o << special_text; break; case 17: o << special_bounds; break; case 18: o << special_no_bounds; break; case 19: o << punctuation; break; case 20: o << no_punctuation; break;
    case 21: o << uncertain_exponent; break; case 22: o << no_uncertain_exponent; break; case 23: o << dec_alpha; break; case 24: o << dec_numeric; break; case 25: o << overlapping_alpha; break; default: o << overlapping_numeric; } }
inline void print1(std::ostream& o, int k, long double const* a) {
    switch (k) { case 0: o << mk<double>(a); break; case 1: o << mkd<double>(a); break; case 2: o << BI<double>::empty(); break; case 3: o << DI<double>::entire(); break; case 4: o << p1788::decoration::decoration::dac; break; case 5: o << p1788::overlapping::overlapping_state::meets; break; default: o << mk<float>(a); } }
}
#endif
'''
API = r'''
#include <string>
#include <iosfwd>
struct TU {
    std::string (*snip)(int, long double const*);   // empty when the unit does not have the call
    std::string const* early;                        // results computed during static initialisation
    void (*set)(std::ostream&, int);
    void (*print)(std::ostream&, int, long double const*);
    int (*exc)(int op, int arg);                     // exception state and control word
};
'''
UNIT = r'''
%(includes)s
#include "common.hpp"
#include "api.hpp"
%(using)s
static std::string snip(int k, long double const* a) {
    switch (k) {
%(cases)s
    }
    return "";
}
static long double const A0[6] = {%(a0)s};
static std::string const early[%(n)d] = {%(early)s};
static void set(std::ostream& o, int k) { set1(o, k); }
static void print(std::ostream& o, int k, long double const* a) { print1(o, k, a); }
static int exc(int op, int arg) {
    namespace ex = p1788::exception;
    try {
        switch (op) {
        case 0: return (int)ex::state();
        case 1: ex::clear(); break;
        case 2: if (arg %% 4 == 0) ex::signal_undefined_operation(); else if (arg %% 4 == 1) ex::signal_possibly_undefined_operation(); else if (arg %% 4 == 2) ex::signal_interval_part_of_nai(); else ex::signal_invalid_operand(); break;
        case 3: ex::set_throw_exception_cwd(ex::exception_bits(arg & 15)); break;
        case 4: return (int)ex::get_throw_exception_cwd();
        case 5: ex::state() |= ex::exception_bits(arg & 15); break;
        case 6: { BI<double> x(2.0, 1.0); break; }
        case 7: { BI<float> x(DI<float>::nai()); break; }
        case 8: { FL<double>::representation r(2.0, 1.0); FL<double>::neg(r); break; }
        }
    } catch (ex::exception const&) { return -1; }
    return (int)ex::state();
}
TU const* %(name)s() { static TU const t = {snip, early, set, print, exc}; return &t; }
'''
MAIN = r'''
#include <iostream>
#include <sstream>
#include <cstdlib>
#include <cstdint>
#include <cstdio>
#include <memory>
#include <vector>
#include "api.hpp"
%(decl)s
static char const* const NAME[] = {%(names)s};
static int const NS = %(ns)d, NT = %(nt)d;
static uint64_t z;
static uint64_t rnd() { z += 0x9e3779b97f4a7c15ull; uint64_t x = z; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static long double num() { static int const P[] = {0, 1, 2, 10, 100, 1000}; int e = (int)(rnd() %% 6); long double s = rnd() & 1 ? -1 : 1; switch (rnd() %% 4) { case 0: return s * (long double)(rnd() %% (1 + P[e])); case 1: return s * (long double)(rnd() >> 11) / 9007199254740992.0L; case 2: return s * (long double)(rnd() >> 40) / 65536.0L; default: return s * (long double)(rnd() %% 1000) * (rnd() & 1 ? 1e-30L : 1e30L); } }
static void args(long double* a) { for (int i = 0; i < 6; ++i) a[i] = num(); }
static std::string shargs(long double const* a) { std::string r; char b[64]; for (int i = 0; i < 6; ++i) { snprintf(b, sizeof b, "%%La ", a[i]); r += b; } return r; }
static int fail(char const* key, std::string const& m) { std::cout << "FAIL " << key << "\n" << m << std::endl; return 1; }
int main(int argc, char** argv) {
    TU const* T[] = {%(list)s};
    uint64_t seed = strtoull(argv[1], 0, 10); long cases = atol(argv[2]); int maxlen = argc > 3 ? atoi(argv[3]) : 24; long ran = 0, nt = 0;
    long double a[6] = {%(a0)s};
    for (int k = 0; k < NS; ++k) { std::string ref; int rt = -1; for (int t = 0; t < NT; ++t) { std::string now = T[t]->snip(k, a); if (now.empty()) continue; ++ran; if (now != T[t]->early[k]) return fail((std::string("static initialisation:") + NAME[k]).c_str(), std::string("call ") + NAME[k] + " during static initialisation: " + T[t]->early[k] + "\n  in main: " + now); (void)rt; } }
    for (long c = 0; c < cases; ++c) {
        z = seed * 0x1000003 + c; args(a); int kind = (int)(rnd() %% 3); ++ran;
        if (kind == 0) {
            int k = (int)(rnd() %% NS); std::string ref; int rt = -1;
            for (int t = 0; t < NT; ++t) { std::string r = T[t]->snip(k, a); if (r.empty()) continue; if (rt >= 0) { ++nt; if (r != ref) return fail((std::string("result:") + NAME[k]).c_str(), std::string("call ") + NAME[k] + " with " + shargs(a) + "\n  unit " + std::to_string(rt) + ": " + ref + "\n  unit " + std::to_string(t) + ": " + r); } else { ref = r; rt = t; } }
        } else if (kind == 1) {
            std::ostringstream os; std::vector<int> done; std::string h; int len = 1 + (int)(rnd() %% maxlen); bool cross = false; int last = -1;
            for (int i = 0; i < len; ++i) {
                int t = (int)(rnd() %% NT);
                if (rnd() %% 2) { int m = (int)(rnd() %% 27); T[t]->set(os, m); done.push_back(m); h += "\n  unit " + std::to_string(t) + " sets manipulator " + std::to_string(m); if (last >= 0 && last != t) cross = true; last = t; }
                else { int it = (int)(rnd() %% 7), u = (int)(rnd() %% NT); os.str(""); T[t]->print(os, it, a); std::ostringstream f; for (size_t j = 0; j < done.size(); ++j) T[u]->set(f, done[j]); T[u]->print(f, it, a); h += "\n  unit " + std::to_string(t) + " prints item " + std::to_string(it); if (last >= 0 && last != t) cross = true; if (os.str() != f.str()) return fail("manipulator", "case " + std::to_string(c) + h + ": " + os.str() + "\n  all of it in unit " + std::to_string(u) + ": " + f.str()); }
            }
            if (cross) ++nt;
        } else {
            T[0]->exc(3, 0); T[0]->exc(1, 0); int S = 0, W = 0, len = 1 + (int)(rnd() %% maxlen); std::string h; bool any = false;
            for (int i = 0; i < len; ++i) {
                int t = (int)(rnd() %% NT), op = (int)(rnd() %% 9), arg = (int)(rnd() %% 16); static int const B[] = {1, 2, 4, 8}; int b = 0, want;
                switch (op) { case 1: S = 0; break; case 2: b = 1 << (arg %% 4); break; case 3: W = arg; break; case 5: S |= arg; break; case 6: b = 1; break; case 7: b = 4; break; case 8: b = 8; break; } (void)B;
                if (b == 1 && op == 2) b = 1; S |= b; want = op == 4 ? W : b & W ? -1 : S; int got = T[t]->exc(op, arg); h += "\n  unit " + std::to_string(t) + " op " + std::to_string(op) + "(" + std::to_string(arg) + ") -> " + std::to_string(got); any = any || b;
                if (got != want) return fail("exception state", "case " + std::to_string(c) + h + ", expected " + std::to_string(want));
                int u = (int)(rnd() %% NT); if (T[u]->exc(0, 0) != S) return fail("exception state", "case " + std::to_string(c) + h + "\n  unit " + std::to_string(u) + " sees state " + std::to_string(T[u]->exc(0, 0)) + ", expected " + std::to_string(S));
            }
            T[0]->exc(3, 0); T[0]->exc(1, 0); if (any && len > 1) ++nt;
        }
    }
    std::cout << "OK " << ran << " " << nt << std::endl; return 0;
}
'''

def gen(rng, names, clang):
    nt = rng.choice([2, 2, 3])
    ids = rng.sample(names, 7)
    a0 = ','.join('%d.%dL' % (rng.randint(-9, 9), rng.randint(0, 9)) for _ in range(6))
    units, files = [], {}
    for t in range(nt):
        hs = rng.sample(HEADERS, rng.randint(0, 5))
        if 'p1788/p1788.hpp' not in hs: hs.insert(rng.randint(0, len(hs)), 'p1788/p1788.hpp')
        if rng.random() < .3: hs.append('p1788/p1788.hpp')
        mine = [i for i in range(len(ids)) if rng.random() < .75] or [0]
        ty = {i: rng.choice(['float', 'double', 'long double']) for i in range(len(ids))}
        if t == 0: tys = ty
        cases, early = [], []
        for i in range(len(ids)):
            if i in mine:
                cases.append('    case %d: { typedef %s T; %s }' % (i, tys[i], SNIP[ids[i]])); early.append('snip(%d, A0)' % i)
            else: early.append('""')
        src = UNIT % dict(includes='\n'.join('#include %s' % ('"%s"' % h if h.startswith('p1788') else '<%s>' % h) for h in hs), using='using namespace p1788;' if rng.random() < .2 else '', cases='\n'.join(cases), n=len(ids), early=', '.join(early), a0=a0, name='tu%d' % t)
        files['tu%d.cpp' % t] = src
        units.append(dict(file='tu%d.cpp' % t, std=rng.choice(['11', '11', '14', '17', '20']), opt=rng.choice(['-O0', '-O0', '-O0', '-O1']), cxx='clang++' if clang and rng.random() < .2 else 'g++', headers=hs, calls=[ids[i] for i in mine]))
    files['main.cpp'] = MAIN % dict(decl='\n'.join('TU const* tu%d();' % t for t in range(nt)), names=','.join('"%s"' % i for i in ids), ns=len(ids), nt=nt, list=','.join('tu%d()' % t for t in range(nt)), a0=a0)
    files['common.hpp'] = COMMON; files['api.hpp'] = API
    units.append(dict(file='main.cpp', std='11', opt='-O0', cxx='g++', headers=[], calls=[]))
    rng.shuffle(units)      # link order
    return dict(units=units, files=files)

def compile_unit(R, d, gen_dir, u):
    o = os.path.join(d, u['file'] + '.o')
    r = R.sh([u['cxx'], '-std=c++' + u['std'], u['opt'], '-w', '-I' + R.REPO, '-I' + gen_dir, '-I' + d, '-c', os.path.join(d, u['file']), '-o', o])
    return o, r.returncode, r.stdout.decode(errors='replace')

def norm(log):
    """the message of the first error or duplicate definition, without paths"""
    m = re.search(r'(?:error|multiple definition of|undefined reference to)[:\s]*([^\n]*)', log)
    return re.sub(r'/[^ :;]*/|0x[0-9a-f]+', '', m.group(0))[:90] if m else 'error'

def build(R, prog, d, gen_dir, ex=None):
    """(exe, None) or (None, (key, log))"""
    os.makedirs(d, exist_ok=True)
    for f, s in prog['files'].items(): open(os.path.join(d, f), 'w').write(s)
    rs = list(ex.map(lambda u: compile_unit(R, d, gen_dir, u), prog['units'])) if ex else [compile_unit(R, d, gen_dir, u) for u in prog['units']]
    for u, (o, rc, log) in zip(prog['units'], rs):
        if rc: return None, ('build:compile', '%s -std=c++%s with headers %s: %s\n%s' % (u['cxx'], u['std'], ' '.join(u['headers']), norm(log), log[:3000]))
    exe = os.path.join(d, 'prog.exe')
    r = R.sh(['g++', '-o', exe] + [o for o, _, _ in rs] + ['-lmpfr', '-lgmp'])
    if r.returncode: log = r.stdout.decode(errors='replace'); return None, ('build:link', norm(log) + '\n' + log[:3000])
    return exe, None

def execute(R, exe, seed, cases, maxlen=24, timeout=120):
    rc, o, e = R.execw([exe, str(seed), str(cases), str(maxlen)], timeout)
    if rc == 0 and o.startswith('OK '): return None, [int(v) for v in o.split()[1:3]]
    m = re.match(r'FAIL ([^\n]*)\n', o)
    return (m.group(1) if m else 'run:' + R.crash_name(rc), o[:3000] + e[-1500:]), None

def run(R, pid, tier, seed, tmp, rp):
    nprog, cases, nself = dict(quick=(14, 20000, 3), thorough=(500, 200000, 9))[tier]
    gen_dir = R.make_version(tmp)
    if not R.compiler_ok(tmp, 'g++'): print('error: the compiler does not work here'); raise SystemExit(1)
    R.MEMLIM[0] = 3500 << 20
    clang = False    # the documentation requires GCC; clang 18 does not accept reduction.hpp
    names = sorted(SNIP)
    st = dict(evaluations=0, distinct_nontrivial=0, programs=0, units=0, rule='a case is one evaluation of a generated multi-unit program: a call evaluated in each unit that has it, a history of manipulators and prints spread over the units, or a history of the exception state spread over the units; non-trivial when at least two units take part (two results compared, two units in a manipulator history, or at least two steps with a signal)', samples=[], headers_first={}, standards={}, calls={})
    fails = {}
    def one(i):
        rng = random.Random('%d/%d' % (seed, i)); prog = gen(rng, names, clang); d = os.path.join(tmp, 'p%d' % i)
        exe, err = build(R, prog, d, gen_dir)
        if exe:
            err, cnt = execute(R, exe, seed * 1000 + i, cases)
            if err:  # shortest histories that still fail
                for ml in (1, 2, 3, 4, 6, 9, 13):
                    e2, _ = execute(R, exe, seed * 1000 + i, cases, ml)
                    if e2 and e2[0] == err[0]: err = e2; prog['maxlen'] = ml; break
        else: cnt = None
        shutil.rmtree(d, ignore_errors=True)
        return prog, err, cnt
    def self_contained(h):
        # every public header can come first, in every standard
        p = os.path.join(tmp, 'self_' + re.sub(r'\W', '_', h) + '.cpp'); open(p, 'w').write('#include "%s"\n#include "%s"\nint main() {}\n' % (h, h)); out = []
        for s in ('11', '14', '17', '20')[:2 if tier == 'quick' else 4]:
            for cx in ['g++'] + (['clang++'] if clang and tier != 'quick' else []):
                r = R.sh([cx, '-std=c++' + s, '-w', '-fsyntax-only', '-I' + R.REPO, '-I' + gen_dir, p])
                if r.returncode: out.append((cx, s, r.stdout.decode(errors='replace')))
        return h, out
    pub = [h for h in HEADERS if h.startswith('p1788')]
    with ThreadPoolExecutor(R.NW) as ex:
        selfs = ex.map(self_contained, pub); rs = list(ex.map(one, range(nprog)))
        for h, out in selfs:
            st['evaluations'] += 1
            for cx, s, log in out: fails.setdefault('A25:header:' + h, (dict(key='A25:header:' + h, msg='%s -std=c++%s: a file that includes only %s does not compile\n%s' % (cx, s, h, log[:1500]), count=1), dict(kind='header', header=h)))
    for i, (prog, err, cnt) in enumerate(rs):
        st['programs'] += 1; st['units'] += len(prog['units']) - 1
        for u in prog['units']:
            if u['headers']: st['headers_first'][u['headers'][0]] = st['headers_first'].get(u['headers'][0], 0) + 1
            st['standards'][u['cxx'] + ' c++' + u['std']] = st['standards'].get(u['cxx'] + ' c++' + u['std'], 0) + 1
            for k in u['calls']: st['calls'][k] = st['calls'].get(k, 0) + 1
        if cnt: st['evaluations'] += cnt[0]; st['distinct_nontrivial'] += cnt[1]
        if len(st['samples']) < 4: st['samples'].append('; '.join('%s: %s c++%s %s, headers %s, calls %s' % (u['file'], u['cxx'], u['std'], u['opt'], ' '.join(u['headers']), ' '.join(u['calls'])) for u in prog['units']))
        if err:
            k = 'A25:' + err[0]
            if k in fails: fails[k][0]['count'] += 1
            else: fails[k] = (dict(key=k, msg=err[1], count=1), dict(kind='program', program=prog, seed=seed * 1000 + i, cases=cases))
    for k in sorted(fails):
        f, rep = fails[k]
        if rep['kind'] == 'program':
            if not all(again(R, rep, tmp, gen_dir, f['key'][4:]) for _ in range(2)): st.setdefault('not_reproduced', []).append(k); continue
        rp.report(f, rep)
    return st

def again(R, rep, tmp, gen_dir, key, show=False):
    d = tempfile.mkdtemp(dir=tmp); prog = rep['program']
    try:
        exe, err = build(R, prog, d, gen_dir)
        if exe: err, _ = execute(R, exe, rep['seed'], rep['cases'], prog.get('maxlen', 24))
        if show: print(err[0] + '\n' + err[1] if err else 'passes')
        return bool(err) and err[0] == key
    finally: shutil.rmtree(d, ignore_errors=True)

def replay(R, pid, j):
    tmp = tempfile.mkdtemp(prefix='vh-replay-')
    try:
        gen_dir = R.make_version(tmp); R.MEMLIM[0] = 3500 << 20
        if j['kind'] == 'header':
            p = os.path.join(tmp, 's.cpp'); open(p, 'w').write('#include "%s"\nint main() {}\n' % j['header'])
            r = R.sh(['g++', '-std=c++11', '-w', '-fsyntax-only', '-I' + R.REPO, '-I' + gen_dir, p]); print(r.stdout.decode(errors='replace')[:3000]); return 1 if r.returncode else 0
        return 1 if again(R, j, tmp, gen_dir, j['key'][4:], True) else 0
    finally: shutil.rmtree(tmp, ignore_errors=True)
