// Text input and output of the library, type erased
#ifndef VH_IO_HPP
#define VH_IO_HPP
#include "lib.hpp"
namespace vh {
struct TextIn { Res r; unsigned flags = 0; bool fail = false, eof = false, threw = false, foreign = false; std::string what, rest; };
// routes: 0 flavor text function, 1 constructor from string, 2 operator>>, 3 operator>> on a stream that throws on failure, 4 operator>> on a stream that also throws at end of file
TextIn read_text(Ty t, bool dec, int route, std::string const& s, bool skipws = true);
int const N_IN = 5;
extern char const* const in_name[N_IN];
struct OutFmt {
    int upper = 0, form = 0 /* 0 inf-sup 1 uncertain 2 up 3 down */, num = 0 /* 0 decimal_scientific 1 decimal 2 scientific 3 hex */, special = 0 /* 0 text 1 bounds 2 no bounds */;
    int nopunct = 0, uexp = 0, dnum = 0; unsigned swidth = 0, width = 0, prec = 0;
    bool defaults = false;   // apply no manipulator at all
    // standard settings of the stream: bit 0 hex, 1 oct, 2 showbase, 3 showpos, 4 left, 5 internal, 6 uppercase, 7 fixed,
    // 8 scientific, 9 showpoint, 10 boolalpha, 11 unitbuf, 12 locale with grouping; sw: std::setw; sp: std::setprecision
    unsigned std_flags = 0, sw = 0, sp = 0;
};
std::string show(OutFmt const& f);
void apply(std::ostream& os, OutFmt const& f);   // sets the stream up
struct TextOut { std::string s; unsigned flags = 0; bool good = true; bool threw = false; std::string what; };
// routes: 0 operator<< on the class, 1 flavor function on the representation
TextOut write_text(Ty t, bool dec, int route, DIV_ const& x, OutFmt const& f);
}
#endif
