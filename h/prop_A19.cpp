// A19: histories of the exception state and the control word
#include "lib.hpp"
#include "lit.hpp"
#include <functional>
#include <typeinfo>
namespace vh {
char const* const prop_id = "A19";
char const* const prop_rule = "a case is a history of up to 24 steps (constructions, conversions, text input, operations, direct signals, changes of the control word, clearing, saving and restoring the state) run against a model of the exception state; non-trivial when at least two different flags are raised and the control word or the state is changed in between";
void prop_setup() {}
namespace ex = p1788::exception;
static LD const NaN = std::numeric_limits<LD>::quiet_NaN();
struct Step { std::string name; unsigned sig[2] = {0, 0}; int nsig = 0; std::string want, got; };
template <class T> static void lib_step(Src& s, int k, Step& st, bool exec) {
    // one step of the library; the choices are drawn before anything is executed
    auto sig = [&](unsigned b) { st.sig[st.nsig++] = b; };
    std::string tn = ty_name[TyOf<T>::v];
    switch (k) {
    case 0: { static LD const P[][2] = {{2, 1}, {NaN, 1}, {1, NaN}, {INFL, INFL}, {-INFL, -INFL}, {NaN, NaN}}; LD const* p = P[s.draw(6)]; bool d = s.draw(2), fl = s.draw(2); st.name = (d ? "decorated_interval<" : "interval<") + tn + ">(" + hexld(p[0]) + "," + hexld(p[1]) + ")" + (fl ? " by the flavor" : ""); sig(1); st.want = d ? "[nai]" : "[empty]";
        if (exec) st.got = d ? show(fl ? Cv<T>::from(FL<T>::nums_to_decorated_interval((T)p[0], (T)p[1])) : Cv<T>::from(DI<T>((T)p[0], (T)p[1]))) : show(fl ? Cv<T>::from(FL<T>::nums_to_interval((T)p[0], (T)p[1])) : Cv<T>::from(BI<T>((T)p[0], (T)p[1]))); break; }
    case 1: { int w = (int)s.draw(5); static LD const P[][2] = {{2, 1}, {1, 2}, {1, INFL}, {-INFL, 3}, {NaN, NaN}}; static LDec const D[] = {LDec::trv, LDec::ill, LDec::com, LDec::com, LDec::def}; bool m = s.draw(2); st.name = "decorated_interval<" + tn + ">(" + hexld(P[w][0]) + "," + hexld(P[w][1]) + "," + dec_name[from_ldec(D[w])] + ")" + (m ? " from mixed types" : ""); sig(1); st.want = "[nai]"; if (exec) st.got = show(m ? Cv<T>::from(DI<T>((float)P[w][0], (LD)P[w][1], D[w])) : Cv<T>::from(DI<T>((T)P[w][0], (T)P[w][1], D[w]))); break; }
    case 2: { int rd = s.range(1, 3) + 4 * s.range(0, 4); bool bad = s.draw(2); st.name = "decorated_interval<" + tn + strf(">(%d,1,decoration code %d)", bad ? 2 : 0, rd); sig(8); st.want = "[nai]"; if (exec) st.got = show(Cv<T>::from(DI<T>((T)(bad ? 2 : 0), (T)1, (LDec)rd))); break; }
    case 3: { bool d = s.draw(2); std::string x = gen_lit(s, TyOf<T>::v, d); Lit l = lit_text(x); if (l.unsure || l.kind == 2 || x.find("n") != std::string::npos || x.find("N") != std::string::npos || (!d && l.dec >= 0) || x.size() > 200) { x = "[1,2]"; l = lit_text(x); }
        st.name = std::string(d ? "decorated_interval<" : "interval<") + tn + ">(" + showtext(x) + ")"; if (!l.ok) sig(1); if (!l.ok) st.want = d ? "[nai]" : "[empty]"; if (exec) { Res r = d ? Cv<T>::from(DI<T>(x)) : Cv<T>::from(BI<T>(x)); st.got = show(r); if (l.ok) st.want = st.got; } break; }
    case 4: { int w = (int)s.draw(3); st.name = "interval<" + tn + ">(NaI)"; sig(4); st.want = "[empty]"; if (exec) st.got = show(w == 0 ? Cv<T>::from(BI<T>(DI<T>::nai())) : w == 1 ? Cv<T>::from(BI<T>(DI<float>::nai())) : Cv<T>::from(FL<T>::interval_part(FL<LD>::nai()))); break; }
    case 5: { int w = (int)s.draw(4); typedef typename FL<T>::representation R; typedef typename FL<T>::representation_dec RD; R bad((T)2, (T)1), ok((T)1, (T)2); static char const* N[] = {"mul", "sqrt decorated", "convex_hull", "width"}; st.name = std::string(N[w]) + "<" + tn + "> of an invalid representation"; sig(8); st.want = w == 0 || w == 2 ? "[empty]" : w == 1 ? "[nai]" : "nan";
        if (exec) switch (w) { case 0: st.got = show(Cv<T>::from(FL<T>::mul(ok, bad))); break; case 1: st.got = show(Cv<T>::from(FL<T>::sqrt(RD(ok, LDec::ill)))); break; case 2: st.got = show(Cv<T>::from(FL<T>::convex_hull(bad, ok))); break; default: { LD v = FL<T>::wid(bad); st.got = std::isnan(v) ? "nan" : hexld(v); } } break; }
    case 6: { int w = (int)s.draw(5); static char const* N[] = {"sqrt of a partly negative interval", "1/0", "NaI + 1", "log of a negative interval", "NaI compared"}; st.name = std::string(N[w]) + " <" + tn + ">"; st.want = w == 2 ? "[nai]" : w == 0 ? "[0x0p+0(0), 0x1p+1(2)]_trv" : w == 4 ? "false" : "[empty]_trv";
        if (exec) { DI<T> a((T)-1, (T)4), z((T)0, (T)0), n = DI<T>::nai(), o((T)1, (T)1), m((T)-2, (T)-1); st.got = w == 4 ? (n == n || less(n, o) ? "true" : "false") : show(Cv<T>::from(w == 0 ? sqrt(a) : w == 1 ? o / z : w == 2 ? n + o : log(m))); if (w == 0) st.want = st.got; } break; }
    default: { st.name = "interval<" + tn + ">(1,2) and decorated_interval(1,inf,dac)"; st.want = "ok"; if (exec) { BI<T> a((T)1, (T)2); DI<T> b((T)1, std::numeric_limits<T>::infinity(), LDec::dac); st.got = !is_empty(a) && !is_nai(b) ? "ok" : "not ok"; } break; }
    }
}
void run_case(Ctx& c) {
    Src& s = c.src; ex::set_throw_exception_cwd(ex::none_bit); ex::clear();
    unsigned S = 0, M = 0, saved = 0, seen = 0; bool changed = false, raised_before = false, mix = false; int n = s.range(1, 24); std::string hist;
    static unsigned const B[] = {1, 2, 4, 8};
    for (int i = 0; i < n; ++i) {
        int k = (int)s.draw(16); std::string line, err; unsigned expthrow = 0; std::string thrown, want, got;
        auto raise = [&](unsigned b) { S |= b; seen |= b; if ((M & b) && !expthrow) expthrow = b; };
        std::function<void()> act;
        static char const* cls[] = {"undefined_operation_exception", "possibly_undefined_operation_exception", "interval_part_of_nai_exception", "invalid_operand_exception"};
        auto run = [&](std::function<void()> f) {
            try { f(); }
            catch (ex::exception const& e) {
                std::type_info const& t = typeid(e); thrown = t == typeid(ex::undefined_operation_exception) ? cls[0] : t == typeid(ex::possibly_undefined_operation_exception) ? cls[1] : t == typeid(ex::interval_part_of_nai_exception) ? cls[2] : t == typeid(ex::invalid_operand_exception) ? cls[3] : t.name();
                if (!*e.what()) err = "what() is empty"; std::runtime_error const& re = e; (void)re;
            } catch (std::exception const& e) { thrown = std::string("foreign ") + e.what(); }
        };
        switch (k) {
        case 8: { int b = (int)s.draw(4); line = strf("signal flag %u", B[b]); raise(B[b]); unsigned ret = 0; run([&] { ret = b == 0 ? ex::signal_undefined_operation() : b == 1 ? ex::signal_possibly_undefined_operation() : b == 2 ? ex::signal_interval_part_of_nai() : ex::signal_invalid_operand(); }); if (thrown.empty() && ret != S) err = strf("the signal function returned %u", ret); break; }
        case 9: { unsigned m = (unsigned)s.draw(16); line = strf("set control word %u", m); M = m; changed = true; unsigned ret = ex::set_throw_exception_cwd(ex::exception_bits(m)); if (ret != m) err = strf("returned %u", ret); break; }
        case 10: { line = "clear"; S = 0; changed = true; if (ex::clear() != ex::none_bit) err = "clear returned flags"; break; }
        case 11: line = "save the state"; saved = (unsigned)ex::state(); if (saved != S) err = strf("state %u", saved); break;
        case 12: { int w = (int)s.draw(3); line = strf("restore the saved state (%s)", w == 0 ? "=" : w == 1 ? "|=" : "&="); changed = true; ex::exception_bits v = ex::exception_bits(saved); if (w == 0) { ex::state() = v; S = saved; } else if (w == 1) { ex::state() |= v; S |= saved; } else { ex::state() &= v; S &= saved; } break; }
        case 13: { unsigned b = (unsigned)s.draw(16); int w = (int)s.draw(4); ex::exception_bits v = ex::exception_bits(b); line = strf("change the state by bit operations %d with %u", w, b); changed = true; if (w == 0) { ex::state() ^= v; S ^= b; } else if (w == 1) { ex::state() = ex::state() & ~v; S &= ~b; } else if (w == 2) { ex::state() = ex::state() | v; S |= b; } else { ex::state() = ex::state() ^ v; S ^= b; } break; }
        case 14: { unsigned b = B[s.draw(4)]; line = strf("enable exceptions for %u", b); M |= b; changed = true; ex::cwd() |= ex::exception_bits(b); break; }
        case 15: { int rd = (int)s.draw(20); line = strf("decoration::is_valid(code %d)", rd); bool v = rd % 4 == 0 && rd <= 16; if (!v) raise(8); bool g = true; run([&] { g = p1788::decoration::is_valid((LDec)rd); }); if (thrown.empty() && g != v) err = "wrong verdict"; break; }
        default: {
            Step st; Ty t = Ty(s.draw(3)); size_t p0 = s.pos; (void)p0;
            // the draws are part of the step: execute inside the guarded call
            run([&] { switch (t) { case TF: lib_step<float>(s, k, st, true); break; case TD: lib_step<double>(s, k, st, true); break; default: lib_step<LD>(s, k, st, true); } });
            line = st.name; for (int j = 0; j < st.nsig; ++j) if (!expthrow) raise(st.sig[j]); want = st.want; got = st.got; break; }
        }
        if (seen && changed) raised_before = true; if (raised_before && (seen & (seen - 1))) mix = true;
        hist += strf("\n  %2d: ", i + 1) + line; if (c.verbose) c.note(strf("%2d: ", i + 1) + line);
        std::string wt = expthrow ? cls[expthrow == 1 ? 0 : expthrow == 2 ? 1 : expthrow == 4 ? 2 : 3] : "";
        auto fail = [&](char const* key, std::string const& m) { ex::set_throw_exception_cwd(ex::none_bit); ex::clear(); std::string nm = line.substr(0, line.find('(')); c.fail(std::string("A19:") + key + ":" + (k < 8 ? strf("step kind %d", k) : strf("operation %d", k)), "history:" + hist + "\n  " + m); };
        if (thrown != wt) fail("thrown", "expected " + (wt.empty() ? "no exception" : wt) + ", got " + (thrown.empty() ? "none" : thrown));
        if (!err.empty()) fail("return value", err);
        if (k < 8 && thrown.empty() && want != got) fail("result", "result " + got + ", expected " + want);
        unsigned a = (unsigned)ex::state(), m = (unsigned)ex::get_throw_exception_cwd();
        if (a != S) fail("state", strf("exception state %u, expected %u", a, S));
        if (m != M || (unsigned)ex::cwd() != M) fail("control word", strf("control word %u, expected %u", m, M));
        if (ex::undefined_operation() != !!(S & 1) || ex::possibly_undefined_operation() != !!(S & 2) || ex::interval_part_of_nai() != !!(S & 4) || ex::invalid_operand() != !!(S & 8)) fail("query", strf("a query function disagrees with the state %u", S));
        if (!wt.empty()) c.label("thrown: " + wt);
    }
    c.nontrivial = mix; c.label(strf("flags seen: %d", __builtin_popcount(seen)));
    ex::set_throw_exception_cwd(ex::none_bit); ex::clear();
}
}
