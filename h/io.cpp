#include "io.hpp"
#include <sstream>
#include <typeinfo>
namespace vh {
char const* const in_name[N_IN] = {"text function", "string constructor", "operator>>", "operator>> with failure exceptions", "operator>> with failure and eof exceptions"};
template <class T, bool D> struct Sel;
template <class T> struct Sel<T, false> {
    typedef BI<T> C; static Res fl(std::string const& s) { return Cv<T>::from(FL<T>::text_to_interval(s)); }
    static C init() { return C((T)1, (T)2); }
};
template <class T> struct Sel<T, true> {
    typedef DI<T> C; static Res fl(std::string const& s) { return Cv<T>::from(FL<T>::text_to_decorated_interval(s)); }
    static C init() { return C((T)1, (T)2, LDec::def); }
};
template <class T, bool D> static TextIn rd(int route, std::string const& s, bool skip) {
    typedef typename Sel<T, D>::C C; TextIn o; exc_clear();
    try {
        if (route == 0) o.r = Sel<T, D>::fl(s);
        else if (route == 1) o.r = Cv<T>::from(C(s));
        else {
            std::istringstream is(s); if (!skip) is >> std::noskipws;
            C x = Sel<T, D>::init();
            try {
                if (route == 3) is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
                if (route == 4) is.exceptions(std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit);
                is >> x;
            } catch (std::ios_base::failure const&) { o.threw = true; }
            is.exceptions(std::ios_base::goodbit);
            o.fail = is.fail(); o.eof = is.eof();
            o.r = Cv<T>::from(x);
            if (!o.fail) { is.clear(); std::ostringstream r; if (is.peek() != EOF) r << is.rdbuf(); o.rest = r.str(); }
        }
    } catch (std::exception const& e) { o.foreign = true; o.what = std::string(typeid(e).name()) + ": " + e.what(); }
    o.flags = exc_state(); exc_clear(); return o;
}
TextIn read_text(Ty t, bool dec, int route, std::string const& s, bool skip) {
    switch (t) {
    case TF: return dec ? rd<float, true>(route, s, skip) : rd<float, false>(route, s, skip);
    case TD: return dec ? rd<double, true>(route, s, skip) : rd<double, false>(route, s, skip);
    default: return dec ? rd<LD, true>(route, s, skip) : rd<LD, false>(route, s, skip);
    }
}
std::string show(OutFmt const& f) {
    static char const* fo[] = {"inf_sup_form", "uncertain_form", "uncertain_up_form", "uncertain_down_form"}; static char const* nu[] = {"decimal_scientific", "decimal", "scientific", "hex"}; static char const* sp[] = {"special_text", "special_bounds", "special_no_bounds"};
    std::string st = f.std_flags || f.sw || f.sp ? strf(" standard flags %#x setw(%u) setprecision(%u)", f.std_flags, f.sw, f.sp) : "";
    if (f.defaults) return "no manipulator" + st;
    return st.substr(st.empty() ? 0 : 1) + (st.empty() ? "" : " ") + strf("%s %s %s %s width(%u) precision(%u) string_width(%u)%s%s%s", f.upper ? "upper_case" : "lower_case", fo[f.form], nu[f.num], sp[f.special], f.width, f.prec, f.swidth, f.nopunct ? " no_punctuation" : "", f.uexp ? " uncertain_exponent" : "", f.dnum ? " dec_numeric" : "");
}
struct Grouping : std::numpunct<char> { char do_thousands_sep() const override { return ','; } std::string do_grouping() const override { return "\1"; } char do_decimal_point() const override { return ';'; } };
static void apply_std(std::ostream& os, OutFmt const& f) {
    static std::ios_base::fmtflags const fl[] = {std::ios_base::hex, std::ios_base::oct, std::ios_base::showbase, std::ios_base::showpos, std::ios_base::left, std::ios_base::internal, std::ios_base::uppercase, std::ios_base::fixed, std::ios_base::scientific, std::ios_base::showpoint, std::ios_base::boolalpha, std::ios_base::unitbuf};
    if (f.std_flags & 3) os.unsetf(std::ios_base::basefield);
    for (int i = 0; i < 12; ++i) if (f.std_flags >> i & 1) os.setf(fl[i]);
    if (f.std_flags >> 12 & 1) { static std::locale const l(std::locale::classic(), new Grouping); os.imbue(l); }
    if (f.sp) os.precision(f.sp);
    if (f.sw) os.width(f.sw);
}
void apply(std::ostream& os, OutFmt const& f) {
    using namespace p1788::io;
    struct Std { std::ostream& o; OutFmt const& f; ~Std() { apply_std(o, f); } } after{os, f};
    if (f.defaults) return;
    if (f.upper) os << upper_case; else os << lower_case;
    switch (f.form) { case 0: os << inf_sup_form; break; case 1: os << uncertain_form; break; case 2: os << uncertain_up_form; break; default: os << uncertain_down_form; }
    switch (f.num) { case 0: os << decimal_scientific; break; case 1: os << decimal; break; case 2: os << p1788::io::scientific; break; default: os << p1788::io::hex; }
    switch (f.special) { case 0: os << special_text; break; case 1: os << special_bounds; break; default: os << special_no_bounds; }
    if (f.nopunct) os << no_punctuation; else os << punctuation;
    if (f.uexp) os << uncertain_exponent; else os << no_uncertain_exponent;
    if (f.dnum) os << dec_numeric; else os << dec_alpha;
    os << string_width(f.swidth) << width(f.width) << precision(f.prec);
}
template <class T> static TextOut wr(bool dec, int route, DIV_ const& x, OutFmt const& f) {
    TextOut o; exc_clear(); std::ostringstream os; vh::apply(os, f);
    try {
        if (route == 0) { if (dec) os << Cv<T>::di(x); else os << Cv<T>::bi(x.x); }
        else { if (dec) FL<T>::operator_interval_to_text(os, Cv<T>::mkd(x)); else FL<T>::operator_interval_to_text(os, Cv<T>::mk(x.x)); }
    } catch (std::exception const& e) { o.threw = true; o.what = std::string(typeid(e).name()) + ": " + e.what(); }
    o.s = os.str(); o.good = os.good(); o.flags = exc_state(); exc_clear(); return o;
}
TextOut write_text(Ty t, bool dec, int route, DIV_ const& x, OutFmt const& f) {
    switch (t) { case TF: return wr<float>(dec, route, x, f); case TD: return wr<double>(dec, route, x, f); default: return wr<LD>(dec, route, x, f); }
}
}
