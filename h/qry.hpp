// Boolean, overlap and numeric functions of the library, type erased
#ifndef VH_QRY_HPP
#define VH_QRY_HPP
#include "lib.hpp"
#include "oracle.hpp"
namespace vh {
enum CmpId { EQUAL, SUBSET, LESS, PRECEDES, INTERIOR, STRICTLY_LESS, STRICTLY_PRECEDES, DISJOINT, SUPERSET, GREATER, SUCCEEDS, CONTAINS_INTERIOR, STRICTLY_GREATER, STRICTLY_SUCCEEDS, OP_EQ, OP_NE, N_CMP };
extern char const* const cmp_name[N_CMP];
enum PredId { P_EMPTY, P_ENTIRE, P_COMMON, P_SINGLETON, P_NAI, N_PRED };
extern char const* const pred_name[N_PRED];
enum NumId { N_INF, N_SUP, N_MID, N_RAD, N_WID, N_MAG, N_MIG, N_MIDRAD, N_NUM };
extern char const* const num_name[N_NUM];
extern char const* const ov_name[17];
// routes: 0 flavor, 1 static member, 2 free function
bool cmp_ok(CmpId op, int route);            // does the route exist
bool cmp2(CmpId op, Ty t1, Ty t2, int route, bool dec, DIV_ const& a, DIV_ const& b);
bool pred1(PredId op, Ty t, int route, bool dec, DIV_ const& a);
bool member(Ty tm, LD m, Ty t, int route, bool dec, DIV_ const& a);
int overlap2(Ty t1, Ty t2, int route, bool dec, DIV_ const& a, DIV_ const& b);   // 0..16, 0 = undefined
struct NumR { LD v, w; };
// result type t, operand type ta; route 2 needs t == ta
NumR num1(NumId op, Ty t, Ty ta, int route, bool dec, DIV_ const& a);
}
#endif
