// A33: calls depend on the values of their operands only, variables behave as values
#include "any.hpp"
#include <algorithm>
#include <sstream>
#include <utility>
namespace vh {
char const* const prop_id = "A33";
char const* const prop_rule = "a case is either one call whose equal operands are passed once as separate objects and once as the same object, or a sequence of 3 to 25 statements (calls with results assigned to operands, assignments, moves, swaps, conversions, container operations, text round trips) on six bare and six decorated variables, followed by a comparison of all variables with a model of plain values; non-trivial when an object was passed twice, or when a statement had a variable both as operand and as target";
void prop_setup() {}
namespace {
struct Mode { int old; explicit Mode(int m) : old(alias_mode) { alias_mode = m; } ~Mode() { alias_mode = old; } };
void aliasing(Ctx& c) {
    Src& s = c.src; unsigned kinds = (1u << K_FWD) | (1u << K_REV) | (1u << K_PAIR) | (1u << K_CMP) | (1u << K_OVERLAP) | (1u << K_PRED) | (1u << K_NUM) | (1u << K_MEMBER) | (1u << K_DECPART);
    Any g = gen_any(c, s.draw(6) == 5 ? kinds : (1u << K_FWD) | (1u << K_REV) | (1u << K_PAIR) | (1u << K_CMP) | (1u << K_OVERLAP), true);
    // make operands equal
    int n = g.nops(); auto ty = [&](int i) { return g.kind == K_FWD ? (g.f.mixed ? g.f.ta[i] : g.f.t) : g.kind == K_REV ? (g.r.mixed ? g.r.ta[i] : g.r.t) : g.mixed || g.kind == K_CMP || g.kind == K_OVERLAP ? g.ta[i] : g.t; };
    auto cp = [&](int i, int j) { if (ty(i) != ty(j)) return; DIV_ v = g.operand(i); g.operand(j) = v; if (g.kind == K_FWD) g.f.x[j] = g.f.x[i]; if (g.kind == K_REV) g.r.x[j] = g.r.x[i]; };
    if (n == 2) cp(0, 1); if (n == 3) switch (s.draw(4)) { case 0: cp(0, 1); break; case 1: cp(0, 2); break; case 2: cp(1, 2); break; default: cp(0, 1); cp(0, 2); }
    std::string d = g.show(); if (c.verbose) c.note(d);
    auto run = [&](int m, unsigned& fl, unsigned long& hits) { Mode q(m); alias_hits = 0; exc_clear(); std::string r = g.run(); fl = exc_state(); exc_clear(); hits = alias_hits; return r; };
    unsigned f0, f1; unsigned long h0, h1; std::string a = run(0, f0, h0);
    if (!hold_intact()) c.fail("A33:operand changed:" + g.site(), d + "\n  the call changes an operand");
    std::string b = run(1, f1, h1); c.nontrivial = h1 > 0 && n > 1; c.label(n > 1 ? "equal operands" : "one operand");
    if (a != b || f0 != f1) c.fail("A33:same object:" + g.site(), d + "\n  with separate objects: " + a + strf(" flags %u", f0) + "\n  with the same object:  " + b + strf(" flags %u", f1));
    if (!hold_intact()) c.fail("A33:operand changed:" + g.site(), d + "\n  the call changes an operand");
}
// a variable as the user sees it
std::string see(Res r) { if (!r.x.empty) { r.x.lo += 0.0L; r.x.hi += 0.0L; } return digest(r); } // the sign of zero bounds is not observed
DIV_ value(Res const& r) { DIV_ v; v.x = r.x; v.d = r.dec ? Dec(r.d) : COM; if (v.d == ILL) v.x = IV(); return v; }
template <class T> struct Machine {
    enum { N = 6 };
    Ctx& c; Src& s; BI<T> b[N]; DI<T> d[N]; DIV_ mb[N], md[N]; std::string hist; Pool pool; bool own = false;
    explicit Machine(Ctx& c_) : c(c_), s(c_.src) { for (int i = 0; i < N; ++i) { mb[i] = value(Cv<T>::from(BI<T>())); md[i] = value(Cv<T>::from(DI<T>())); md[i].d = Dec(Cv<T>::from(DI<T>()).d); } }
    Ty t() const { return TyOf<T>::v; }
    template <class X> struct Sel;
    void say(std::string const& x) { hist += "\n  " + x; if (c.verbose) c.note("  " + x); }
    void check(std::string const& key) {
        for (int i = 0; i < N; ++i) {
            Res x = Cv<T>::from(b[i]), y = Cv<T>::from(d[i]); Res wx; wx.x = mb[i].x; Res wy; wy.dec = true; wy.x = md[i].x; wy.d = md[i].d;
            if (see(x) != see(wx)) c.fail("A33:" + key, std::string(ty_name[t()]) + " variables" + hist + strf("\n  b%d is ", i) + see(x) + ", expected " + see(wx));
            if (see(y) != see(wy)) c.fail("A33:" + key, std::string(ty_name[t()]) + " variables" + hist + strf("\n  d%d is ", i) + see(y) + ", expected " + see(wy));
        }
    }
    template <class X> void ops(X* v, DIV_* m, bool dec, char const* nm) {
        typedef p1788::decoration::decoration D; (void)sizeof(D);
        int i = (int)s.draw(N), j = (int)s.draw(N), k = (int)s.draw(N), l = (int)s.draw(N);
        auto put = [&](int q, Res const& r) { m[q] = value(r); };
        auto F = [&](OpId op, int p, int a0, int a1, int a2) { DIV_ a[3] = {m[a0], m[a1], m[a2]}; Mode q(0); return fwd(op, t(), 0, dec, a, p); };
        auto R = [&](RevId op, int n, int p, int a0, int a1, int a2) { DIV_ a[3] = {m[a0], m[a1], m[a2]}; Mode q(0); return rev(op, t(), nullptr, 0, dec, a, n, p); };
        static char const* const un[] = {"-", "sqr", "abs", "exp", "log", "sin", "sqrt", "recip", "pown(,3)", "floor", "sqr_rev", "pos"};
        static char const* const bi[] = {"+", "-", "*", "/", "min", "max", "pow", "atan2", "intersection", "convex_hull", "cancel_minus", "cancel_plus", "cosh_rev", "mul_rev"};
        int st = (int)s.draw(12);
        switch (st) {
        case 0: { // a new value
            IV x = coerce(gen_rel_iv(), t()); Dec dd = dec ? gen_dec_for(s, x) : COM; DIV_ n; n.x = x; n.d = dd; if (dec && s.draw(12) == 11) { n.d = ILL; n.x = IV(); } say(strf("%s%d = ", nm, i) + (dec ? show(n) : show(n.x))); set(v[i], n); m[i] = n; break; }
        case 1: say(strf("%s%d = %s%d", nm, i, nm, j)); v[i] = v[j]; m[i] = m[j]; if (i == j) own = true; break;
        case 2: say(strf("%s%d = move(%s%d); %s%d = %s%d", nm, i, nm, j, nm, j, nm, i)); { X& src = v[j]; v[i] = std::move(src); m[i] = m[j]; v[j] = v[i]; m[j] = m[i]; } break;
        case 3: say(strf("swap(%s%d, %s%d)", nm, i, nm, j)); { using std::swap; swap(v[i], v[j]); std::swap(m[i], m[j]); } if (i == j) own = true; break;
        case 4: case 5: { // unary
            int o = (int)s.draw(12); static OpId const id[] = {NEG, SQR, ABS, EXP, LOG, SIN, SQRT, RECIP, POWN, FLOOR, POS, POS}; say(strf("%s%d = %s %s%d", nm, i, un[o], nm, j)); own |= i == j;
            Res w = o == 10 ? R(SQR_REV, 1, 0, j, j, j) : F(o == 11 ? POS : id[o], 3, j, j, j);
            switch (o) { case 0: v[i] = -v[j]; break; case 1: v[i] = sqr(v[j]); break; case 2: v[i] = abs(v[j]); break; case 3: v[i] = exp(v[j]); break; case 4: v[i] = log(v[j]); break; case 5: v[i] = sin(v[j]); break; case 6: v[i] = sqrt(v[j]); break;
                case 7: v[i] = recip(v[j]); break; case 8: v[i] = pown(v[j], 3); break; case 9: v[i] = floor(v[j]); break; case 10: v[i] = sqr_rev(v[j]); break; default: v[i] = +v[j]; }
            put(i, w); break; }
        case 6: case 7: case 8: { // binary
            int o = (int)s.draw(14); if (s.draw(3) == 2) k = j; if (s.draw(3) == 2) i = j; own |= i == j || i == k; say(strf("%s%d = %s%d %s %s%d", nm, i, nm, j, bi[o], nm, k)); Res w;
            static OpId const id[] = {ADD, SUB, MUL, DIV, MIN_, MAX_, POW, ATAN2}; static RevId const ir[] = {INTERSECTION, CONVEX_HULL, CANCEL_MINUS, CANCEL_PLUS, COSH_REV, MUL_REV};
            w = o < 8 ? F(id[o], 0, j, k, k) : R(ir[o - 8], 2, 0, j, k, k);
            switch (o) { case 0: v[i] = v[j] + v[k]; break; case 1: v[i] = v[j] - v[k]; break; case 2: v[i] = v[j] * v[k]; break; case 3: v[i] = v[j] / v[k]; break; case 4: v[i] = min(v[j], v[k]); break; case 5: v[i] = max(v[j], v[k]); break; case 6: v[i] = pow(v[j], v[k]); break; case 7: v[i] = atan2(v[j], v[k]); break;
                case 8: v[i] = intersection(v[j], v[k]); break; case 9: v[i] = convex_hull(v[j], v[k]); break; case 10: v[i] = cancel_minus(v[j], v[k]); break; case 11: v[i] = cancel_plus(v[j], v[k]); break; case 12: v[i] = cosh_rev(v[j], v[k]); break; default: v[i] = mul_rev(v[j], v[k]); }
            put(i, w); break; }
        case 9: { // ternary
            if (s.draw(2)) l = j; own |= i == j || i == k || i == l; if (s.draw(2)) { say(strf("%s%d = fma(%s%d, %s%d, %s%d)", nm, i, nm, j, nm, k, nm, l)); Res w = F(FMA, 0, j, k, l); v[i] = fma(v[j], v[k], v[l]); put(i, w); }
            else { say(strf("%s%d = mul_rev(%s%d, %s%d, %s%d)", nm, i, nm, j, nm, k, nm, l)); Res w = R(MUL_REV, 3, 0, j, k, l); v[i] = mul_rev(v[j], v[k], v[l]); put(i, w); } break; }
        case 10: { // containers
            std::vector<X> q(v, v + N); std::vector<DIV_> w(m, m + N); int o = (int)s.draw(4); say(strf("%s0..%s5: %s", nm, nm, o == 0 ? "reversed" : o == 1 ? "rotated" : o == 2 ? "element inserted from inside a growing vector" : "vector filled with an element of its own"));
            if (o == 0) { std::reverse(q.begin(), q.end()); std::reverse(w.begin(), w.end()); } else if (o == 1) { std::rotate(q.begin(), q.begin() + k, q.end()); std::rotate(w.begin(), w.begin() + k, w.end()); }
            else if (o == 2) { q.shrink_to_fit(); q.push_back(q[j]); DIV_ e = w[j]; w.push_back(e); q.insert(q.begin() + i, q[k]); e = w[k]; w.insert(w.begin() + i, e); q.erase(q.begin(), q.begin() + 2); w.erase(w.begin(), w.begin() + 2); }
            else { q.assign((size_t)N, X(q[j])); DIV_ e = w[j]; w.assign((size_t)N, e); }
            std::copy(q.begin(), q.end(), v); std::copy(w.begin(), w.end(), m); break; }
        default: { // text round trip with exact output, and calls that only look
            say(strf("%s%d = text of %s%d", nm, i, nm, j)); std::stringstream ss; ss << p1788::io::hex << v[j]; ss >> v[i]; m[i] = m[j]; own |= i == j;
            volatile bool q = is_empty(v[k]) | (v[k] == v[l]) | subset(v[k], v[l]); (void)q; std::ostringstream o2; o2 << v[k]; volatile int ov = (int)overlap(v[k], v[l]); (void)ov; }
        }
    }
    IV gen_rel_iv() { IV x = gen_iv(s, t(), &pool); if (s.draw(2)) { LD a = gen_mod(s, t()), e = gen_mod(s, t()); x = IV(std::fmin(a, e), std::fmax(a, e)); } pool.add(x); return x; }
    void set(BI<T>& v, DIV_ const& n) { if (n.x.empty) v = BI<T>::empty(); else v = BI<T>((T)n.x.lo, (T)n.x.hi); }
    void set(DI<T>& v, DIV_ const& n) { v = Cv<T>::di(n); }
    void run() {
        // some values to begin with
        for (int i = 0; i < N; ++i) { IV x = coerce(gen_rel_iv(), t()); mb[i].x = x; mb[i].d = COM; set(b[i], mb[i]); IV y = s.draw(2) ? x : coerce(gen_rel_iv(), t()); md[i].x = y; md[i].d = gen_dec_for(s, y); set(d[i], md[i]); hist += strf("\n  b%d = ", i) + show(mb[i].x) + strf("  d%d = ", i) + show(md[i]); }
        if (c.verbose) c.note(std::string(ty_name[t()]) + " variables" + hist); check("construction");
        int n = s.range(3, 25);
        for (int k = 0; k < n; ++k) {
            exc_clear(); int w = (int)s.draw(7);
            if (w < 3) ops(b, mb, false, "b"); else if (w < 6) ops(d, md, true, "d");
            else { int i = (int)s.draw(N), j = (int)s.draw(N); switch (s.draw(4)) {
                case 0: { say(strf("d%d = b%d", i, j)); DIV_ x = mb[j]; Mode q(0); Res r = conv(DEC_BARE, t(), t(), 0, x, 0); d[i] = b[j]; md[i] = value(r); md[i].d = Dec(r.d); break; }
                case 1: { say(strf("b%d = d%d", i, j)); Mode q(0); Res r = conv(BARE_DEC, t(), t(), 0, md[j], 0); b[i] = BI<T>(d[j]); mb[i] = value(r); mb[i].d = COM; break; }
                case 2: { say(strf("d%d = DI(b%d, decoration(d%d))", i, j, i)); Mode q(0); Res r = conv(DEC_BARE_D, t(), t(), 0, mb[j], raw_dec(md[i].d)); d[i] = DI<T>(b[j], decoration(d[i])); md[i] = value(r); md[i].d = Dec(r.d); own = true; break; }
                default: { say(strf("b%d = BI(inf(b%d), sup(b%d))", i, i, j)); if (mb[i].x.empty || mb[j].x.empty || mb[i].x.lo > mb[j].x.hi) { break; } IV x(mb[i].x.lo, mb[j].x.hi); b[i] = BI<T>(inf(b[i]), sup(b[j])); mb[i].x = x; own = true; } } }
            check("sequence");
        }
        c.nontrivial = own; c.label("sequence of statements");
    }
};
}
void run_case(Ctx& c) {
    Src& s = c.src; alias_mode = -1; c.src.range(0, 0);
    if (s.draw(4) != 3) { aliasing(c); return; }
    exc_clear();
    switch (s.draw(3)) { case 0: Machine<float>(c).run(); break; case 1: Machine<double>(c).run(); break; default: Machine<LD>(c).run(); }
    exc_clear();
}
}
