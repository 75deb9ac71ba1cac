// A10: comparison relations and predicates
#include "qry.hpp"
#include "revgen.hpp"
namespace vh {
char const* const prop_id = "A10";
char const* const prop_rule = "a case is one pair of intervals (bound types drawn independently, bounds shared or adjacent in most cases) put through every relation in one route, plus every predicate and a membership test; non-trivial when the two intervals are non-empty and share a bound or overlap";
void prop_setup() {}
static bool oracle(CmpId op, IV const& x, IV const& y) {
    LD const I = INFL;
    switch (op) {
    case OP_EQ: case EQUAL: return same(x, y);
    case OP_NE: return !same(x, y);
    case SUBSET: return x.empty || (!y.empty && y.lo <= x.lo && x.hi <= y.hi);
    case LESS: if (x.empty || y.empty) return x.empty && y.empty; return x.lo <= y.lo && x.hi <= y.hi;
    case PRECEDES: return x.empty || y.empty || x.hi <= y.lo;
    case INTERIOR: if (x.empty) return true; if (y.empty) return false; return (y.lo < x.lo || y.lo == -I) && (x.hi < y.hi || y.hi == I);
    case STRICTLY_LESS: if (x.empty || y.empty) return x.empty && y.empty; return (x.lo < y.lo || (x.lo == -I && y.lo == -I)) && (x.hi < y.hi || (x.hi == I && y.hi == I));
    case STRICTLY_PRECEDES: return x.empty || y.empty || x.hi < y.lo;
    case DISJOINT: return x.empty || y.empty || x.hi < y.lo || y.hi < x.lo;
    case SUPERSET: return oracle(SUBSET, y, x);
    case GREATER: return oracle(LESS, y, x);
    case SUCCEEDS: return oracle(PRECEDES, y, x);
    case CONTAINS_INTERIOR: return oracle(INTERIOR, y, x);
    case STRICTLY_GREATER: return oracle(STRICTLY_LESS, y, x);
    case STRICTLY_SUCCEEDS: return oracle(STRICTLY_PRECEDES, y, x);
    default: return false;
    }
}
void run_case(Ctx& c) {
    Src& s = c.src; Pool pool;
    Ty t[2] = {Ty(s.draw(3)), Ty(s.draw(3))}; if (s.draw(2)) t[1] = t[0];
    bool dec = s.draw(3) == 2; int route = (int)s.draw(3);
    DIV_ a[2]; bool nai = false;
    a[0].x = coerce(gen_iv(s, t[0], &pool), t[0]); a[1].x = gen_iv_near(s, t[1], a[0].x, pool);
    if (s.draw(12) == 11) a[0].x = IV();
    if (s.draw(2)) { std::swap(a[0], a[1]); std::swap(t[0], t[1]); }
    for (int i = 0; i < 2; ++i) { a[i].d = dec ? gen_dec_for(s, a[i].x) : COM; if (dec && s.draw(16) == 15) { a[i].d = ILL; a[i].x = IV(); nai = true; } }
    std::string d = std::string("route ") + (route == 0 ? "flavor" : route == 1 ? "static" : "free") + "\n  x (" + ty_name[t[0]] + ") = " + (dec ? show(a[0]) : show(a[0].x)) + "\n  y (" + ty_name[t[1]] + ") = " + (dec ? show(a[1]) : show(a[1].x));
    if (c.verbose) c.note(d);
    if (t[0] != t[1]) c.label("mixed types"); if (dec) c.label("decorated"); if (nai) c.label("NaI operand");
    if (!a[0].x.empty && !a[1].x.empty && a[0].x.lo <= a[1].x.hi && a[1].x.lo <= a[0].x.hi) c.nontrivial = true;
    for (int k = 0; k < N_CMP; ++k) {
        CmpId op = CmpId(k); if (!cmp_ok(op, route)) continue;
        bool g = cmp2(op, t[0], t[1], route, dec, a[0], a[1]);
        // every relation is false with a NaI; != is the negation of ==
        bool e = nai ? op == OP_NE : oracle(op, a[0].x, a[1].x);
        if (op == OP_NE && nai) e = !cmp2(OP_EQ, t[0], t[1], route, dec, a[0], a[1]);
        if (e) c.label(std::string("true:") + cmp_name[op]);
        if (g != e) c.fail(std::string("A10:") + cmp_name[op] + (nai ? ":nai" : ""), std::string(cmp_name[op]) + "(x,y) " + d + "\n  result " + (g ? "true" : "false") + ", expected " + (e ? "true" : "false"));
    }
    for (int k = 0; k < N_PRED; ++k) {
        PredId op = PredId(k); if (op == P_NAI && !dec) continue;
        IV const& x = a[0].x; bool n0 = dec && a[0].nai();
        bool g = pred1(op, t[0], route, dec, a[0]);
        bool e = op == P_NAI ? n0 : n0 ? false : op == P_EMPTY ? x.empty : op == P_ENTIRE ? x.entire() : op == P_COMMON ? x.bounded() : x.singleton();
        if (e) c.label(std::string("true:") + pred_name[op]);
        if (g != e) c.fail(std::string("A10:") + pred_name[op], std::string(pred_name[op]) + "(x) " + d + "\n  result " + (g ? "true" : "false") + ", expected " + (e ? "true" : "false"));
    }
    Ty tm = Ty(s.draw(3)); LD m;
    switch (s.draw(6)) {
    case 0: m = std::numeric_limits<LD>::quiet_NaN(); break;
    case 1: m = s.draw(2) ? INFL : -INFL; break;
    case 2: m = gen_rel(s, tm, pool); break;
    default: if (a[0].x.empty) m = gen_num(s, tm, true); else { m = s.draw(2) ? gen_point(s, a[0].x) : s.draw(2) ? a[0].x.lo : a[0].x.hi; if (std::isfinite(m)) { if (s.draw(2)) m = std::nextafterl(m, s.draw(2) ? INFL : -INFL); m = round_ld(m, tm, s.range(-1, 1)); } }
    }
    bool g = member(tm, m, t[0], route, dec, a[0]), e = !(dec && a[0].nai()) && a[0].x.has(m);
    if (e) c.label("true:is_member");
    if (g != e) c.fail("A10:is_member", "is_member(" + hexld(m) + " (" + ty_name[tm] + "), x) " + d + "\n  result " + (g ? "true" : "false") + ", expected " + (e ? "true" : "false"));
}
}
