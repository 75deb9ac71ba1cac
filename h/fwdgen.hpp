// Generator of calls to the forward operations.
#ifndef VH_FWDGEN_HPP
#define VH_FWDGEN_HPP
#include "fwd.hpp"
namespace vh {
struct FwdCase {
    OpId op = OpId(0); Ty t = TD; int n = 1; int p = 0; bool dec = false; int route = 0; bool mixed = false; Ty ta[3] = {TD, TD, TD}; DIV_ a[3];
    IV x[3]; // the bare operands
    Res call() const { return mixed ? fwd_mixed(op, t, ta, route, dec, a, p) : fwd(op, t, route, dec, a, p); }
    std::string show() const;
    std::string site() const { return std::string(op_name[op]) + (dec ? "/dec" : "/bare"); }
};
int gen_exponent(Src& s);
LD gen_edge_exponent(Src& s, Ty t, bool only_large);
// operands of one operation, adjusted so that most lie around its domain
IV gen_arg(Src& s, OpId op, int k, Ty t, Pool& pool);
// one of a few values at which the branches of the operations meet
IV gen_corner(Src& s, Ty t);
FwdCase gen_fwd(Ctx& c, int mixed /*0 never 1 sometimes 2 always*/, int dec /*same*/, bool nai_ok = false);
std::string interest(FwdCase const& f);
}
#endif
