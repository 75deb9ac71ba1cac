// A23: output manipulators are sticky settings of one stream; decorations and
// overlapping states are written and read as documented
#include "lib.hpp"
#include "io.hpp"
#include "lit.hpp"
#include <iomanip>
#include <sstream>
#include <memory>
namespace vh {
char const* const prop_id = "A23";
char const* const prop_rule = "a case is either a history of up to 30 steps on up to three streams (manipulators, printing of intervals, decorations and overlapping states, copyfmt, swap, move, standard manipulators that do not concern intervals), every print of which is compared with the print on a fresh stream that got exactly the settings of the model, or a text read as one or more decorations and compared with a model; non-trivial when a history prints after at least two manipulators on at least one stream, or when the text is not just one decoration name";
void prop_setup() {}
namespace {
namespace io = p1788::io;
typedef p1788::overlapping::overlapping_state OS_;
static char const* const OV[17] = {"undefined", "both_empty", "first_empty", "second_empty", "before", "meets", "overlaps", "starts", "contained_by", "finishes", "equal", "finished_by", "contains", "started_by", "overlapped_by", "met_by", "after"};
struct Set { OutFmt f; int onum = 0; };
struct Item { int kind = 0; Ty t = TD; bool dec = false; DIV_ x; int k = 0; };
static std::string name(Item const& i) {
    if (i.kind == 0) return std::string(ty_name[i.t]) + " " + (i.dec ? show(i.x) : show(i.x.x));
    if (i.kind == 1) return std::string("decoration ") + dec_name[i.k];
    if (i.kind == 2) return std::string("overlapping state ") + OV[i.k];
    return strf("integer %d", i.k);
}
template <class T> static void put(std::ostream& os, Item const& i) { if (i.dec) os << Cv<T>::di(i.x); else os << Cv<T>::bi(i.x.x); }
static void put(std::ostream& os, Item const& i) {
    if (i.kind == 0) switch (i.t) { case TF: put<float>(os, i); break; case TD: put<double>(os, i); break; default: put<LD>(os, i); }
    else if (i.kind == 1) os << to_ldec(Dec(i.k));
    else if (i.kind == 2) os << (i.k ? OS_(1u << (i.k - 1)) : OS_::undefined);
    else os << i.k;
}
static void conf(std::ostream& os, Set const& s) {
    OutFmt const& f = s.f;
    os << io::precision(f.prec) << io::width(f.width) << io::string_width(f.swidth);
    if (s.onum) os << io::overlapping_numeric; else os << io::overlapping_alpha;
    if (f.dnum) os << io::dec_numeric; else os << io::dec_alpha;
    if (f.uexp) os << io::uncertain_exponent; else os << io::no_uncertain_exponent;
    if (f.nopunct) os << io::no_punctuation; else os << io::punctuation;
    switch (f.special) { case 0: os << io::special_text; break; case 1: os << io::special_bounds; break; default: os << io::special_no_bounds; }
    switch (f.num) { case 0: os << io::decimal_scientific; break; case 1: os << io::decimal; break; case 2: os << io::scientific; break; default: os << io::hex; }
    switch (f.form) { case 0: os << io::inf_sup_form; break; case 1: os << io::uncertain_form; break; case 2: os << io::uncertain_up_form; break; default: os << io::uncertain_down_form; }
    if (f.upper) os << io::upper_case; else os << io::lower_case;
}
// what the documentation says about decorations and overlapping states
static bool spelled(Item const& i, Set const& s, std::string& r) {
    if (i.kind == 1) { r = s.f.dnum ? std::to_string(4 * i.k) : dec_name[i.k]; }
    else if (i.kind == 2) { r = s.onum ? std::to_string(i.k ? 1u << (i.k - 1) : 0u) : OV[i.k]; }
    else if (i.kind == 3) { r = std::to_string(i.k); return true; }
    else return false;
    if (s.f.upper) for (char& ch : r) ch = (char)toupper(ch);
    return true;
}
// all settings of the manipulators as stored in the stream
static std::vector<long> stored(std::ios_base& o) {
    int id[] = {io::text_representation_manip_id, io::string_width_manip_id, io::representation_manip_id, io::number_representation_manip_id, io::width_manip_id, io::precision_manip_id, io::special_representation_manip_id, io::punctuation_manip_id, io::uncertain_exponent_manip_id, io::dec_manip_id, io::overlapping_manip_id};
    std::vector<long> r; for (int i : id) r.push_back(o.iword(i)); return r;
}
static Item gen_item(Src& s) {
    Item i; i.kind = s.draw(8) < 5 ? 0 : 1 + (int)s.draw(3);
    if (i.kind == 1) i.k = (int)s.draw(5); else if (i.kind == 2) i.k = (int)s.draw(17); else if (i.kind == 3) i.k = s.range(-300, 300);
    else { i.t = Ty(s.draw(3)); i.dec = s.draw(2); Pool p; LD a = gen_mod(s, i.t), b = s.draw(3) ? gen_mod(s, i.t) : a; i.x.x = s.draw(3) ? IV(std::fmin(a, b), std::fmax(a, b)) : gen_iv(s, i.t, &p);
        if (!i.x.x.empty && (i.x.x.lo == INFL || i.x.x.hi == -INFL)) i.x.x = IV(1, 2); i.x.d = i.dec ? gen_dec_for(s, i.x.x) : COM; if (i.dec && s.draw(16) == 15) { i.x.d = ILL; i.x.x = IV(); } }
    return i;
}
static void history(Ctx& c) {
    Src& s = c.src; int n = s.range(1, 3), steps = s.range(2, 30);
    std::vector<std::unique_ptr<std::ostringstream>> S; std::vector<Set> M(n), M0; std::vector<int> touched(n, 0);
    for (int i = 0; i < n; ++i) S.emplace_back(new std::ostringstream);
    std::string hist = strf("history on %d stream(s):", n); unsigned prints = 0; bool nt = false;
    for (int k = 0; k < steps; ++k) {
        int i = (int)s.draw(n); std::ostringstream& os = *S[i]; Set& m = M[i]; std::string w; int a = (int)s.draw(26);
        if (a >= 12) {
            Item it = gen_item(s); hist += strf("\n  stream %d << ", i) + name(it);
            std::ostringstream fresh; conf(fresh, m); std::string got, want, how; bool throws = false; exc_clear();
            os.str(""); std::ios_base::fmtflags fl = os.flags(); std::streamsize pr = os.precision(); char fi = os.fill(); std::vector<long> st = stored(os);
            try { put(os, it); } catch (std::exception const& e) { throws = true; how = e.what(); }
            got = os.str();
            if (throws) c.fail("A23:print:exception", hist + "\n  threw " + how);
            if (!os.good() || exc_state()) c.fail("A23:print:state", hist + strf("\n  stream state %d, exception state %u", (int)os.rdstate(), exc_state()));
            if (os.flags() != fl || os.precision() != pr || os.fill() != fi) c.fail("A23:print:format", hist + "\n  changed the standard format of the stream");
            if (stored(os) != st) c.fail("A23:print:settings", hist + "\n  changed the settings of the manipulators stored in the stream");
            if (it.kind == 3) want = std::to_string(it.k); else { put(fresh, it); want = fresh.str(); }
            if (got != want) c.fail(it.kind == 0 ? "A23:sticky:interval" : it.kind == 1 ? "A23:sticky:decoration" : it.kind == 2 ? "A23:sticky:overlapping" : "A23:sticky:integer", hist + "\n  printed " + showtext(got) + "\n  a fresh stream with " + show(m.f) + " prints " + showtext(want));
            std::string sp; if (spelled(it, m, sp) && got != sp) c.fail(it.kind == 1 ? "A23:spelling:decoration" : it.kind == 2 ? "A23:spelling:overlapping" : "A23:spelling:integer", hist + "\n  printed " + showtext(got) + ", expected " + showtext(sp));
            ++prints; if (touched[i] >= 2) nt = true;
            continue;
        }
        switch (a) {
        case 0: m.f.upper = (int)s.draw(2); if (m.f.upper) os << io::upper_case; else os << io::lower_case; w = m.f.upper ? "upper_case" : "lower_case"; break;
        case 1: m.f.form = (int)s.draw(4); switch (m.f.form) { case 0: os << io::inf_sup_form; w = "inf_sup_form"; break; case 1: os << io::uncertain_form; w = "uncertain_form"; break; case 2: os << io::uncertain_up_form; w = "uncertain_up_form"; break; default: os << io::uncertain_down_form; w = "uncertain_down_form"; } break;
        case 2: m.f.num = (int)s.draw(4); switch (m.f.num) { case 0: os << io::decimal_scientific; w = "decimal_scientific"; break; case 1: os << io::decimal; w = "decimal"; break; case 2: os << io::scientific; w = "scientific"; break; default: os << io::hex; w = "hex"; } break;
        case 3: m.f.special = (int)s.draw(3); switch (m.f.special) { case 0: os << io::special_text; w = "special_text"; break; case 1: os << io::special_bounds; w = "special_bounds"; break; default: os << io::special_no_bounds; w = "special_no_bounds"; } break;
        case 4: m.f.nopunct = (int)s.draw(2); if (m.f.nopunct) os << io::no_punctuation; else os << io::punctuation; w = m.f.nopunct ? "no_punctuation" : "punctuation"; break;
        case 5: m.f.uexp = (int)s.draw(2); if (m.f.uexp) os << io::uncertain_exponent; else os << io::no_uncertain_exponent; w = m.f.uexp ? "uncertain_exponent" : "no_uncertain_exponent"; break;
        case 6: m.f.dnum = (int)s.draw(2); if (m.f.dnum) os << io::dec_numeric; else os << io::dec_alpha; w = m.f.dnum ? "dec_numeric" : "dec_alpha"; break;
        case 7: m.onum = (int)s.draw(2); if (m.onum) os << io::overlapping_numeric; else os << io::overlapping_alpha; w = m.onum ? "overlapping_numeric" : "overlapping_alpha"; break;
        case 8: m.f.width = s.draw(3) ? (unsigned)s.range(0, 40) : 0; os << io::width(m.f.width); w = strf("width(%u)", m.f.width); break;
        case 9: m.f.prec = s.draw(3) ? (unsigned)s.range(1, 30) : 0; os << io::precision(m.f.prec); w = strf("precision(%u)", m.f.prec); break;
        case 10: m.f.swidth = s.draw(3) ? (unsigned)s.range(0, 80) : 0; os << io::string_width(m.f.swidth); w = strf("string_width(%u)", m.f.swidth); break;
        default: {
            int z = (int)s.draw(6), j = (int)s.draw(n);
            switch (z) {
            case 0: os.copyfmt(*S[j]); M[i] = M[j]; touched[i] = touched[j]; w = strf("copyfmt of stream %d", j); break;
            case 1: if (i != j) { std::swap(os, *S[j]); std::swap(M[i], M[j]); std::swap(touched[i], touched[j]); } w = strf("swap with stream %d", j); break;
            case 2: { std::unique_ptr<std::ostringstream> q(new std::ostringstream(std::move(os))); S[i] = std::move(q); w = "moved to a new stream object"; break; }
            case 3: os << std::setprecision(s.range(0, 20)); w = "std::setprecision"; break;
            case 4: if (s.draw(2)) os << std::fixed; else os << std::scientific; w = "std::fixed or std::scientific"; break;
            default: os << std::boolalpha; w = "std::boolalpha"; } }
        }
        if (a < 11) ++touched[i];
        hist += strf("\n  stream %d: ", i) + w;
    }
    c.label("history"); if (c.verbose) c.note(hist); c.nontrivial = nt; (void)prints;
}
// model of the documented input of a decoration; position after a success
static bool model_read(std::string const& s, size_t& p, bool skip, int& d) {
    auto sp = [](char ch) { return ch == ' ' || (ch >= '\t' && ch <= '\r'); };
    if (skip) while (p < s.size() && sp(s[p])) ++p;
    if (p < s.size() && s[p] >= '0' && s[p] <= '9') {
        unsigned long long v = 0; bool big = false; while (p < s.size() && s[p] >= '0' && s[p] <= '9') { v = v * 10 + (s[p] - '0'); if (v > 1000000) big = true; if (big) v = 1000001; ++p; }
        if (big || v % 4 || v > 16) return false; d = (int)v / 4; return true;
    }
    if (s.size() - p < 3) return false;
    std::string w = s.substr(p, 3); for (char& ch : w) if (ch >= 'A' && ch <= 'Z') ch = (char)(ch + 32);
    for (int k = 0; k < 5; ++k) if (w == dec_name[k]) { d = k; p += 3; return true; }
    return false;
}
static void reading(Ctx& c) {
    Src& s = c.src; std::string x; int n = s.range(1, 5); bool plain = true;
    for (int i = 0; i < n; ++i) switch (s.draw(9)) {
        case 0: case 1: { std::string w = dec_name[s.draw(5)]; for (char& ch : w) if (s.draw(4) == 3) ch = (char)toupper(ch); x += w; break; }
        case 2: x += std::to_string(4 * s.range(0, 4)); break;
        case 3: { int z = (int)s.draw(4); x += z == 0 ? std::to_string(s.range(0, 40)) : z == 1 ? "00" + std::to_string(s.range(0, 20)) : z == 2 ? std::to_string(s.draw(0)) : std::to_string(4294967296ull + 4 * s.draw(5)); plain = false; break; }
        case 4: case 5: { static char const* W[] = {" ", "\t", "\n", "  ", "\r\n", "\v\f"}; x += W[s.draw(6)]; plain = false; break; }
        case 6: { std::string w = dec_name[s.draw(5)]; int z = (int)s.draw(3); if (z == 0) w.resize(s.draw(3)); else if (z == 1) w[s.draw(3)] = (char)s.range(1, 255); else w += (char)s.range(1, 255); x += w; plain = false; break; }
        case 7: { int l = s.range(1, 4); for (int k = 0; k < l; ++k) x += (char)s.draw(256); plain = false; break; }
        default: { static char const* W[] = {"-4", "+8", "0x10", "nai", "empty", ",", "_com", "trv ", "1 6", "I LL"}; x += W[s.draw(10)]; plain = false; }
    }
    bool skip = s.draw(4) != 3; int pre = (int)s.draw(5), reads = s.range(1, n + 1), exc = (int)s.draw(3);
    std::string d = "text " + showtext(x) + (skip ? "" : ", noskipws") + (exc == 0 ? "" : exc == 1 ? ", exceptions(failbit)" : ", exceptions(failbit|badbit)") + ", variable initially " + dec_name[pre];
    if (c.verbose) c.note(d); c.label("input"); c.nontrivial = !plain || n > 1;
    std::istringstream is(x); if (!skip) is >> std::noskipws; if (exc) is.exceptions(exc == 1 ? std::ios_base::failbit : std::ios_base::failbit | std::ios_base::badbit);
    size_t p = 0; exc_clear();
    for (int i = 0; i < reads; ++i) {
        int want = 0; bool ok = model_read(x, p, skip, want); LDec v = to_ldec(Dec(pre)); bool threw = false; std::string D = d + strf("\n  read %d", i + 1);
        try { std::istream& r = is >> v; if (&r != &is) c.fail("A23:input:stream", D + ": returned another stream"); } catch (std::ios_base::failure const&) { threw = true; } catch (CaseFail const&) { throw; } catch (std::exception const& e) { c.fail("A23:input:foreign exception", D + " threw " + e.what()); }
        bool fl = is.fail(); std::string G = std::string(": got ") + (from_ldec(v) < 0 ? "?" : dec_name[from_ldec(v)]) + (fl ? ", failbit" : "") + ", expected " + (ok ? dec_name[want] : std::string(dec_name[pre]) + " as before, failbit");
        if (exc_state()) c.fail("A23:input:flags", D + strf(": exception state %u", exc_state()));
        if (ok != !fl) c.fail(ok ? "A23:input:rejected" : "A23:input:accepted", D + G);
        if (threw != (!ok && exc)) c.fail("A23:input:exception", D + G);
        if (from_ldec(v) != (ok ? want : pre)) c.fail(ok ? "A23:input:value" : "A23:input:value on failure", D + G);
        if (!ok) { c.label("failure"); break; }
        is.exceptions(std::ios_base::goodbit); bool e = is.eof(); size_t at = e ? x.size() : (size_t)is.tellg(); if (exc) is.exceptions(exc == 1 ? std::ios_base::failbit : std::ios_base::failbit | std::ios_base::badbit);
        if (at != p) c.fail("A23:input:position", D + strf(": %zu characters consumed, expected %zu", at, p));
    }
}
}
void run_case(Ctx& c) { if (c.src.draw(4) == 3) reading(c); else history(c); }
}
