#include "qry.hpp"
namespace vh {
char const* const cmp_name[N_CMP] = {"equal", "subset", "less", "precedes", "interior", "strictly_less", "strictly_precedes", "disjoint", "superset", "greater", "succeeds", "contains_interior", "strictly_greater", "strictly_succeeds", "operator==", "operator!="};
char const* const pred_name[N_PRED] = {"is_empty", "is_entire", "is_common_interval", "is_singleton", "is_nai"};
char const* const num_name[N_NUM] = {"inf", "sup", "mid", "rad", "wid", "mag", "mig", "mid_rad"};
char const* const ov_name[17] = {"undefined", "both_empty", "first_empty", "second_empty", "before", "meets", "overlaps", "starts", "contained_by", "finishes", "equal", "finished_by", "contains", "started_by", "overlapped_by", "met_by", "after"};
template <class T> bool qcmp(CmpId op, Ty t2, int route, bool dec, DIV_ const& a, DIV_ const& b);
template <class T> int qov(Ty t2, int route, bool dec, DIV_ const& a, DIV_ const& b);
template <class T> bool qpred(PredId op, int route, bool dec, DIV_ const& a);
template <class T> bool qmem(Ty tm, LD m, int route, bool dec, DIV_ const& a);
template <class T> NumR qnum(NumId op, Ty ta, int route, bool dec, DIV_ const& a);
#define SW(t, CALL) switch (t) { case TF: { typedef float T_; return CALL; } case TD: { typedef double T_; return CALL; } default: { typedef LD T_; return CALL; } }
bool cmp_ok(CmpId op, int route) { return route != 0 || op < SUPERSET; }
bool cmp2(CmpId op, Ty t1, Ty t2, int route, bool dec, DIV_ const& a, DIV_ const& b) { SW(t1, qcmp<T_>(op, t2, route, dec, a, b)) }
int overlap2(Ty t1, Ty t2, int route, bool dec, DIV_ const& a, DIV_ const& b) { SW(t1, qov<T_>(t2, route, dec, a, b)) }
bool pred1(PredId op, Ty t, int route, bool dec, DIV_ const& a) { SW(t, qpred<T_>(op, route, dec, a)) }
bool member(Ty tm, LD m, Ty t, int route, bool dec, DIV_ const& a) { SW(t, qmem<T_>(tm, m, route, dec, a)) }
NumR num1(NumId op, Ty t, Ty ta, int route, bool dec, DIV_ const& a) { SW(t, qnum<T_>(op, ta, route, dec, a)) }
}
