// Reductions of the library, type erased
#ifndef VH_RED_HPP
#define VH_RED_HPP
#include "num.hpp"
#include <vector>
namespace vh {
enum RedId { R_SUM, R_SUM_ABS, R_SUM_SQR, R_DOT, N_RED };
extern char const* const red_name[N_RED];
enum RedRnd { RR_NEAR, RR_DOWN, RR_UP, RR_ZERO };
extern char const* const rr_name[4];
// routes: 0 vector iterators, 1 pointers, 2 deque iterators, 3 initializer_list (at most 4 elements), 4 pointers to const
LD reduce(RedId op, Ty t, int rnd, int route, std::vector<LD> const& a, std::vector<LD> const& b);
}
#endif
