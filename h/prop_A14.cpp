// A14: interval literals are read as the tightest enclosing interval
#include "io.hpp"
#include "lit.hpp"
namespace vh {
char const* const prop_id = "A14";
char const* const prop_rule = "a case is one literal of the grammar read for one bound type, bare or decorated, through a constructor, the flavor text function or stream extraction (then with arbitrary text behind it); non-trivial when the literal has a finite bound that the bound type cannot represent";
void prop_setup() {}
void run_case(Ctx& c) {
    Src& s = c.src; Ty t = Ty(s.draw(3)); bool dec = s.draw(2); int route = (int)s.draw(N_IN);
    std::string x; Lit l;
    for (int i = 0; i < 8; ++i) { x = gen_lit(s, t, true); if (x.size() > 1900) continue; l = lit_read(x); if (l.ok && l.end == x.size()) break; l = Lit(); }
    if (!l.ok) { c.label("no literal"); return; }
    std::string pre, post; int k = (int)s.draw(4); if (k == 3) pre = " \t\n"; if (k >= 2) { char const* P[] = {" ", "\n", " \t "}; post = P[s.draw(3)]; }
    bool skip = true;
    if (route >= 2) { if (s.draw(8) == 7) { skip = false; pre.clear(); } char const* P[] = {"", " ", ";x", ",[1,2]", "]", "\nabc", " 3.4?", "(", "|_com"}; post = P[s.draw(9)]; }
    std::string in = pre + x + post;
    std::string d = strf("%s, %s%s%s\n  text = ", in_name[route], ty_name[t], dec ? " decorated" : "", skip ? "" : " noskipws") + showtext(in);
    if (c.verbose) c.note(d);
    IV ex; int ed; lit_value(l, t, ex, ed);
    c.nontrivial = l.kind == 1 && ((!l.loinf && q_of(ex.lo == -INFL ? 0 : ex.lo) != l.lo) || (!l.hiinf && q_of(ex.hi == INFL ? 0 : ex.hi) != l.hi));
    c.label(l.kind == 0 ? "empty" : l.kind == 2 ? "nai" : l.loinf || l.hiinf ? "unbounded" : !ex.bounded() ? "overflow" : x.find('?') != std::string::npos ? "uncertain" : x.find('/') != std::string::npos ? "rational" : x.find("0x") != std::string::npos || x.find("0X") != std::string::npos ? "hexadecimal" : "decimal"); if (l.dec >= 0) c.label("explicit decoration");
    TextIn o = read_text(t, dec, route, in, skip);
    std::string kind = l.kind != 1 ? "constant" : x.find('?') != std::string::npos ? "uncertain" : "inf-sup";
    if (o.foreign) c.fail("A14:exception:" + kind, d + "\n  exception " + o.what);
    if (o.fail || o.threw) c.fail("A14:rejected:" + kind, d + "\n  reading failed, expected " + show(ex));
    Res w; w.x = ex; w.dec = dec; w.d = ed; unsigned ef = 0; if (!dec && l.kind == 2) { ef = 4; }
    bool good = o.r.valid && o.r.dec == dec && (dec && (ed == ILL || o.r.nai()) ? (ed == ILL && o.r.nai()) : same(o.r.x, ex) && (!dec || o.r.d == ed));
    if (!good) c.fail("A14:value:" + kind, d + "\n  result " + show(o.r) + "\n  expected " + show(w));
    if (o.flags != ef) c.fail("A14:flags:" + kind, d + strf("\n  exception state %u, expected %u", o.flags, ef));
    if (route >= 2 && o.rest != post) c.fail("A14:remaining text:" + kind, d + "\n  left in the stream: " + showtext(o.rest));
}
}
