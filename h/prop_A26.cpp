// A26: threads do not disturb each other
#include "any.hpp"
#include <atomic>
#include <thread>
#include <mpfr.h>
namespace vh {
char const* const prop_id = "A26";
char const* const prop_rule = "a case runs two to six threads at once, each with its own sequence of generated calls, exception control word and exception state, and compares everything each thread sees with a run of the same sequence alone; non-trivial when at least two threads raise different flags or use different control words and make at least three calls each";
void prop_setup() {}
namespace ex = p1788::exception;
struct Item { Any g; bool act = false; int what = 0; unsigned arg = 0; };
static std::string one(Item const& it) {
    std::string r;
    try {
        if (it.act) switch (it.what) {
            case 0: ex::set_throw_exception_cwd(ex::exception_bits(it.arg)); break;
            case 1: ex::clear(); break;
            case 2: ex::state() |= ex::exception_bits(it.arg); break;
            case 3: r = strf("signalled, state %u ", (unsigned)(it.arg & 1 ? ex::signal_undefined_operation() : it.arg & 2 ? ex::signal_possibly_undefined_operation() : it.arg & 4 ? ex::signal_interval_part_of_nai() : ex::signal_invalid_operand())); break;
            default: r = Cv<double>::from(BI<double>(2.0, 1.0)).x.empty ? "empty " : "not empty "; break; }
        else r = it.g.run();
    } catch (ex::undefined_operation_exception const&) { r = "undefined_operation_exception"; } catch (ex::possibly_undefined_operation_exception const&) { r = "possibly_undefined_operation_exception"; }
    catch (ex::interval_part_of_nai_exception const&) { r = "interval_part_of_nai_exception"; } catch (ex::invalid_operand_exception const&) { r = "invalid_operand_exception"; } catch (std::exception const& e) { r = std::string("exception ") + e.what(); }
    return r + strf(" [state %u, control word %u]", (unsigned)ex::state(), (unsigned)ex::get_throw_exception_cwd());
}
static std::string what(Item const& it) { if (!it.act) return it.g.show(); static char const* N[] = {"set control word %u", "clear (%u)", "state |= %u", "signal %u", "construct [2,1] (%u)"}; return strf(N[it.what], it.arg); }
void run_case(Ctx& c) {
    Src& s = c.src; int n = s.range(2, 6); std::vector<std::vector<Item>> q(n); std::string d; std::vector<unsigned> sig(n), cw(n); bool nt = false;
    // thread 0 draws as many items as the others; all choices are made here, before any thread starts
    for (int t = 0; t < n; ++t) {
        int m = s.range(1, 8); d += strf("thread %d:\n", t + 1);
        for (int i = 0; i < m; ++i) {
            Item it; it.act = s.draw(3) == 2;
            if (it.act) { it.what = (int)s.draw(5); it.arg = it.what == 3 ? 1u << s.draw(4) : (unsigned)s.draw(16); if (it.what == 0) cw[t] |= 16 | it.arg; if (it.what == 2 || it.what == 3) sig[t] |= it.arg; if (it.what == 4) sig[t] |= 1; }
            else it.g = gen_any(c, ANY_ALL, true);
            d += "  " + what(it) + "\n"; q[t].push_back(it);
        }
    }
    if (c.verbose) c.note(d);
    for (int t = 1; t < n; ++t) if ((sig[t] != sig[0] || cw[t] != cw[0]) && q[t].size() >= 3 && q[0].size() >= 3) nt = true;
    c.nontrivial = nt; c.labels.clear(); c.label(strf("%d threads", n));
    int rounds = c.src.replay ? 40 : 4; // a replay repeats the race more often
    std::vector<std::vector<std::string>> alone(n); std::vector<std::vector<std::vector<std::string>>> gots(rounds); std::vector<std::vector<std::string>> fins(rounds);
    // the threads together first: a race on something initialised on first use shows only then
    bool mainflags = false;
    for (int r = 0; r < rounds; ++r) {
        auto& got = gots[r]; auto& fin = fins[r]; got.resize(n); fin.resize(n);
        std::atomic<int> ready(0), done(0); std::vector<std::thread> th;
        for (int t = 0; t < n; ++t) th.emplace_back([&, t] {
            ++ready; while (ready < n) std::this_thread::yield();
            for (auto& it : q[t]) got[t].push_back(one(it));
            // everybody has raised what it raises: look at the own state once more
            ++done; while (done < n) std::this_thread::yield();
            fin[t] = strf("[state %u, control word %u]", (unsigned)ex::state(), (unsigned)ex::get_throw_exception_cwd());
            mpfr_free_cache();
        });
        for (auto& t : th) t.join();
        if (exc_state() || ex::get_throw_exception_cwd()) { ex::clear(); ex::set_throw_exception_cwd(ex::none_bit); mainflags = true; }
    }
    for (int t = 0; t < n; ++t) { std::thread th([&] { for (auto& it : q[t]) alone[t].push_back(one(it)); mpfr_free_cache(); }); th.join(); }
    if (mainflags) c.fail("A26:exception state", d + "the other threads changed the exception state or control word of the main thread");
    for (int r = 0; r < rounds; ++r) {
        auto& got = gots[r]; auto& fin = fins[r];
        for (int t = 0; t < n; ++t) {
            for (size_t i = 0; i < q[t].size(); ++i) if (got[t][i] != alone[t][i]) c.fail("A26:" + (q[t][i].act ? std::string("exception state") : q[t][i].g.site()), d + strf("thread %d, ", t + 1) + what(q[t][i]) + "\n  with other threads running: " + got[t][i] + "\n  alone: " + alone[t][i]);
            std::string e = alone[t].back(); e = e.substr(e.rfind(" [state") + 1);
            if (fin[t] != e) c.fail("A26:exception state", d + strf("thread %d at the end: ", t + 1) + fin[t] + ", alone: " + e);
        }
    }
}
}
// the lazily filled tables of the standard library's character facets are racy by design
extern "C" const char* __tsan_default_suppressions() { return "race:std::ctype\nrace:std::locale\nrace:std::use_facet\n"; }
