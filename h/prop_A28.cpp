// A28: symmetries and identities between operations
#include "fwdgen.hpp"
#include "revgen.hpp"
#include "qry.hpp"
#include <algorithm>
namespace vh {
char const* const prop_id = "A28";
char const* const prop_rule = "a case is one function with one set of operands and every symmetry or identity that is claimed for it; non-trivial when no operand is empty and at least one relation was evaluated";
void prop_setup() {}
static IV neg(IV const& x) { return x.empty ? x : IV(-x.hi, -x.lo); }
static DIV_ neg(DIV_ const& x) { DIV_ y = x; y.x = neg(x.x); return y; }
static Res neg(Res const& x) { Res y = x; y.x = neg(x.x); return y; }
static bool req(Res const& a, Res const& b) { return a.valid == b.valid && a.dec == b.dec && (a.nai() || b.nai() ? a.nai() == b.nai() : same(a.x, b.x) && (!a.dec || a.d == b.d)); }
static DIV_ cst(LD v) { DIV_ d; d.x = IV(v, v); d.d = COM; return d; }
static IV scale(IV const& x, int k) { return x.empty ? x : IV(ldexpl(x.lo, k), ldexpl(x.hi, k)); }
static bool moderate(IV const& x, Ty t) { return !x.empty && x.bounded() && (x.lo == 0 || (fabsl(x.lo) > ldexpl(t_nmin(t), fmt[t].p + 40) && fabsl(x.lo) < ldexpl(t_max(t), -40))) && (x.hi == 0 || (fabsl(x.hi) > ldexpl(t_nmin(t), fmt[t].p + 40) && fabsl(x.hi) < ldexpl(t_max(t), -40))); }
void run_case(Ctx& c) {
    Src& s = c.src; int kind = (int)s.draw(8); bool did = false;
    if (kind <= 3) {
        FwdCase f = gen_fwd(c, 1, 1, true); bool emp = false; for (int i = 0; i < f.n; ++i) if (f.x[i].empty) emp = true;
        Res r = f.call(); if (c.verbose) c.note("  result = " + show(r));
        auto want = [&](FwdCase g, bool minus, char const* what) {
            if (g.mixed) { if (!fwd_mixed_supported(g.op, g.t, g.ta)) return; g.route = (int)s.draw(2); } else g.route = (int)s.draw(4);
            for (int i = 0; i < g.n; ++i) g.x[i] = g.a[i].x;
            Res q = g.call(), e = minus ? neg(r) : r; did = true;
            if (!req(q, e)) c.fail(std::string("A28:") + op_name[f.op] + ":" + what, f.show() + "\n  result = " + show(r) + "\n" + g.show() + "\n  result = " + show(q) + "\nexpected " + show(e) + " (" + what + ")");
        };
        FwdCase g = f;
        auto flip = [&](int m) { g = f; for (int i = 0; i < f.n; ++i) if (m >> i & 1) g.a[i] = neg(f.a[i]); };
        switch (f.op) {
        case POS: case NEG: case SIN: case TAN: case ASIN: case ATAN: case SINH: case TANH: case ASINH: case ATANH: case SIGN: case TRUNC: case RTE: case RTA:
            flip(1); want(g, true, "odd"); break;
        case RECIP: flip(1); want(g, true, "odd"); g = f; g.op = POWN; g.p = -1; want(g, false, "pown(x,-1)");
            g = f; g.op = DIV; g.n = 2; g.a[1] = f.a[0]; g.ta[1] = f.ta[0]; g.a[0] = cst(1); want(g, false, "1/x"); break;
        case COS: case COSH: case ABS: flip(1); want(g, false, "even"); break;
        case SQR: flip(1); want(g, false, "even"); g = f; g.op = POWN; g.p = 2; want(g, false, "pown(x,2)"); break;
        case POWN: if (f.p % 2) { flip(1); want(g, true, "odd"); } else { flip(1); want(g, false, "even"); }
            if (f.p == 1) { g = f; g.op = POS; want(g, false, "x"); } break;
        case CEIL: flip(1); g.op = FLOOR; want(g, true, "-floor(-x)"); break;
        case FLOOR: flip(1); g.op = CEIL; want(g, true, "-ceil(-x)"); break;
        case MUL: flip(1); want(g, true, "mul(-x,y)"); flip(2); want(g, true, "mul(x,-y)"); [[fallthrough]];
        case ADD: case MIN_: case MAX_: g = f; std::swap(g.a[0], g.a[1]); std::swap(g.ta[0], g.ta[1]); want(g, false, "commutative");
            if (f.op == ADD) { flip(3); want(g, true, "add(-x,-y)"); flip(2); g.op = SUB; want(g, false, "x-(-y)"); }
            if (f.op == MIN_ || f.op == MAX_) { flip(3); g.op = f.op == MIN_ ? MAX_ : MIN_; want(g, true, "-min/max(-x,-y)"); }
            if (f.op == MUL) { g = f; g.op = FMA; g.n = 3; g.a[2] = cst(0); g.ta[2] = g.ta[0]; want(g, false, "fma(x,y,0)"); }
            break;
        case SUB: flip(2); g.op = ADD; want(g, false, "x+(-y)"); g = f; std::swap(g.a[0], g.a[1]); std::swap(g.ta[0], g.ta[1]); want(g, true, "-(y-x)"); break;
        case DIV: flip(1); want(g, true, "div(-x,y)"); flip(2); want(g, true, "div(x,-y)"); break;
        case FMA: g = f; std::swap(g.a[0], g.a[1]); std::swap(g.ta[0], g.ta[1]); want(g, false, "commutative"); flip(3); want(g, false, "fma(-x,-y,z)"); flip(5); want(g, true, "fma(-x,y,-z)"); break;
        case ATAN2: if (!f.x[0].has(0) || !(f.x[1].lo < 0)) { flip(1); want(g, true, "atan2(-y,x)"); } break;
        default: break;
        }
        // scaling by powers of two is exact far from the limits of the types
        if (!f.mixed && (f.op == MUL || f.op == DIV || f.op == SQRT || f.op == SQR || f.op == ADD || f.op == SUB || f.op == ABS || f.op == MIN_ || f.op == MAX_ || f.op == NEG)) {
            bool ok = moderate(r.x, f.t) && r.x.lo != 0 && r.x.hi != 0; for (int i = 0; i < f.n; ++i) ok = ok && moderate(f.x[i], f.t);
            int k = s.range(-9, 9), kr = f.op == MUL || f.op == SQR ? 2 * k : f.op == DIV ? 0 : k;
            if (ok) { g = f; for (int i = 0; i < f.n; ++i) g.a[i].x = scale(f.a[i].x, f.op == SQRT ? 2 * k : k); g.route = (int)s.draw(4); Res q = g.call(), e = r; e.x = scale(r.x, kr); did = true; c.label("scaled");
                if (!req(q, e)) c.fail(std::string("A28:") + op_name[f.op] + ":scaling", f.show() + "\n  result = " + show(r) + "\n" + g.show() + "\n  result = " + show(q) + "\nexpected " + show(e)); }
        }
        c.nontrivial = did && !emp; return;
    }
    if (kind <= 5) {
        std::vector<int> ops; for (int i = 0; i <= MUL_REV; ++i) ops.push_back(i);
        RevCase f = gen_rev(c, ops, 1, 1, true); bool emp = false; for (int i = 0; i < f.n; ++i) if (f.x[i].empty) emp = true;
        Res r = f.call(); if (c.verbose) c.note("  result = " + show(r));
        auto want = [&](RevCase g, bool minus, char const* what) {
            if (g.mixed) g.route = (int)s.draw(2); else g.route = (int)s.draw(3);
            Res q = g.call(), e = minus ? neg(r) : r; did = true;
            if (!req(q, e)) c.fail(std::string("A28:") + rev_name[f.op] + ":" + what, f.show() + "\n  result = " + show(r) + "\n" + g.show() + "\n  result = " + show(q) + "\nexpected " + show(e) + " (" + what + ")");
        };
        RevCase g = f; auto flip = [&](int m) { g = f; for (int i = 0; i < f.n; ++i) if (m >> i & 1) g.a[i] = neg(f.a[i]); };
        switch (f.op) {
        case SQR_REV: flip(2); want(g, true, "sqr_rev(c,-x)"); g = f; g.op = POWN_REV; g.p = 2; want(g, false, "pown_rev(c,x,2)"); break;
        case ABS_REV: case COSH_REV: flip(2); want(g, true, "even"); break;
        case COS_REV: flip(2); want(g, true, "even"); break;
        case SIN_REV: case TAN_REV: flip(3); want(g, true, "odd"); break;
        case POWN_REV: if (f.p % 2) { flip(3); want(g, true, "odd"); } else { flip(2); want(g, true, "even"); } break;
        case MUL_REV: flip(3); want(g, false, "mul_rev(-b,-c,x)"); if (f.n == 3) { flip(5); want(g, true, "mul_rev(-b,c,-x)"); flip(6); want(g, true, "mul_rev(b,-c,-x)"); } else { flip(1); want(g, true, "mul_rev(-b,c)"); flip(2); want(g, true, "mul_rev(b,-c)"); } break;
        default: break;
        }
        c.nontrivial = did && !emp; return;
    }
    Pool pool; Ty ta[2]; DIV_ a[2], b[2]; bool dec = s.draw(3) == 2, emp = false;
    for (int i = 0; i < 2; ++i) {
        ta[i] = i && s.draw(3) ? ta[0] : Ty(s.draw(3));
        a[i].x = i ? gen_iv_near(s, ta[i], a[0].x, pool) : coerce(gen_iv(s, ta[0], &pool), ta[0]);
        a[i].d = dec ? gen_dec_for(s, a[i].x) : COM; if (dec && s.draw(24) == 23) { a[i].d = ILL; a[i].x = IV(); }
        if (a[i].x.empty) emp = true;
        b[i] = neg(a[i]);
    }
    c.nontrivial = !emp;
    Ty t = s.draw(2) ? ta[0] : Ty(s.draw(3)), tb[2] = {ta[1], ta[0]}; DIV_ ab[2] = {a[1], a[0]};
    int route = (int)s.draw(2), r2 = (int)s.draw(2);
    std::string d = std::string("result ") + ty_name[t] + "\n  x (" + ty_name[ta[0]] + ") = " + (dec ? show(a[0]) : show(a[0].x)) + "\n  y (" + ty_name[ta[1]] + ") = " + (dec ? show(a[1]) : show(a[1].x));
    if (c.verbose) c.note(d);
    auto chk = [&](Res const& q, Res const& e, std::string const& what) { if (!req(q, e)) c.fail("A28:" + what, what + ", " + d + "\n  results " + show(q) + " and " + show(e)); };
    if (kind == 6) {
        RevId op = RevId(CANCEL_PLUS + (int)s.draw(4)); c.label(rev_name[op]); std::string n = rev_name[op];
        Res r = rev(op, t, ta, route, dec, a, 2, 0);
        chk(rev(op, t, ta, r2, dec, b, 2, 0), neg(r), n + "(-x,-y)");
        if (op >= INTERSECTION) { chk(rev(op, t, tb, r2, dec, ab, 2, 0), r, n + " exchanged"); }
        else { DIV_ m[2] = {a[0], b[1]}; chk(rev(op == CANCEL_PLUS ? CANCEL_MINUS : CANCEL_PLUS, t, ta, r2, dec, m, 2, 0), r, n + " as the other one with -y"); }
        Res p[2], q[2]; mul_rev_pair(t, ta, route, dec, a, p); mul_rev_pair(t, ta, r2, dec, b, q);
        chk(q[0], p[0], "mul_rev_to_pair(-b,-c)"); chk(q[1], p[1], "mul_rev_to_pair(-b,-c)");
        DIV_ m[2] = {b[0], a[1]}; mul_rev_pair(t, ta, r2, dec, m, q); bool two = !p[1].x.empty;
        if (two) { chk(q[0], neg(p[1]), "mul_rev_to_pair(-b,c)"); chk(q[1], neg(p[0]), "mul_rev_to_pair(-b,c)"); }
        else { chk(q[0], neg(p[0]), "mul_rev_to_pair(-b,c)"); chk(q[1], neg(p[1]), "mul_rev_to_pair(-b,c)"); }
        // the two-operand form of mul_rev returns the hull of both parts
        if (!dec) { Res h = rev(MUL_REV, t, ta, r2, false, a, 2, 0); IV u = p[0].x; if (two) u.hi = p[1].x.hi; Res e; e.x = u; if (!same(h.x, u)) c.fail("A28:mul_rev:hull", "mul_rev(b,c), " + d + "\n  result " + show(h) + ", mul_rev_to_pair " + show(p[0]) + " , " + show(p[1])); }
    } else {
        c.label("relations and numeric functions");
        struct { CmpId k; bool ex; } rel[] = {{EQUAL, 0}, {SUBSET, 0}, {INTERIOR, 0}, {DISJOINT, 0}, {LESS, 1}, {PRECEDES, 1}, {STRICTLY_LESS, 1}, {STRICTLY_PRECEDES, 1}, {SUPERSET, 0}, {CONTAINS_INTERIOR, 0}, {GREATER, 1}, {SUCCEEDS, 1}, {STRICTLY_GREATER, 1}, {STRICTLY_SUCCEEDS, 1}};
        for (auto& q : rel) if (cmp_ok(q.k, route)) {
            bool x = cmp2(q.k, ta[0], ta[1], route, dec, a[0], a[1]);
            bool y = q.ex ? cmp2(q.k, ta[1], ta[0], route, dec, b[1], b[0]) : cmp2(q.k, ta[0], ta[1], route, dec, b[0], b[1]);
            if (x != y) c.fail(std::string("A28:") + cmp_name[q.k], std::string(cmp_name[q.k]) + ", " + d + "\n  not the same for the negated operands");
            if ((q.k == EQUAL || q.k == DISJOINT) && cmp2(q.k, ta[1], ta[0], route, dec, a[1], a[0]) != x) c.fail(std::string("A28:") + cmp_name[q.k] + ":symmetric", std::string(cmp_name[q.k]) + ", " + d + "\n  not symmetric");
        }
        auto C = [&](CmpId k) { return cmp2(k, ta[0], ta[1], 1, dec, a[0], a[1]); };
        auto imp = [&](bool p, bool q, char const* w) { if (p && !q) c.fail(std::string("A28:") + w, std::string(w) + " fails, " + d); };
        imp(C(EQUAL), C(SUBSET) && C(SUPERSET) && C(LESS) && C(GREATER), "equal implies subset, superset, less and greater");
        imp(C(SUBSET) && C(SUPERSET), C(EQUAL), "subset and superset imply equal");
        imp(C(LESS) && C(GREATER), C(EQUAL), "less and greater imply equal");
        imp(C(INTERIOR), C(SUBSET), "interior implies subset");
        imp(C(STRICTLY_LESS), C(LESS), "strictly less implies less");
        imp(C(STRICTLY_PRECEDES), C(PRECEDES) && C(DISJOINT), "strictly precedes implies precedes and disjoint");
        if (!emp && !(dec && (a[0].nai() || a[1].nai()))) { imp(C(PRECEDES), C(LESS), "precedes implies less"); imp(C(STRICTLY_PRECEDES), C(STRICTLY_LESS), "strictly precedes implies strictly less"); imp(C(DISJOINT), C(STRICTLY_PRECEDES) || C(STRICTLY_SUCCEEDS), "disjoint implies strictly precedes or succeeds"); imp(C(DISJOINT), !C(SUBSET), "disjoint excludes subset"); }
        // overlap of the negated operands is the mirrored state
        auto num = [](NumR const& r) { return r.v; };
        for (int k = 0; k < N_NUM; ++k) {
            NumR u = num1(NumId(k), t, ta[0], route, dec, a[0]), v = num1(NumId(k), t, ta[0], r2, dec, b[0]);
            LD e = k == N_INF ? -num(num1(N_SUP, t, ta[0], route, dec, a[0])) : k == N_SUP ? -num(num1(N_INF, t, ta[0], route, dec, a[0])) : k == N_MID || k == N_MIDRAD ? -u.v : u.v;
            bool ok = v.v == e || (std::isnan(v.v) && std::isnan(e)); if (k == N_MIDRAD) ok = ok && (v.w == u.w || (std::isnan(v.w) && std::isnan(u.w)));
            if (!ok) c.fail(std::string("A28:") + num_name[k], std::string(num_name[k]) + " of x, " + d + "\n  " + hexld(u.v) + ", of -x " + hexld(v.v) + ", expected " + hexld(e));
        }
        std::string n1 = ov_name[overlap2(ta[0], ta[1], route, dec, a[0], a[1])], n2 = ov_name[overlap2(ta[0], ta[1], r2, dec, b[0], b[1])];
        static std::map<std::string, std::string> const mir{{"before", "after"}, {"after", "before"}, {"meets", "met_by"}, {"met_by", "meets"}, {"overlaps", "overlapped_by"}, {"overlapped_by", "overlaps"}, {"starts", "finishes"}, {"finishes", "starts"}, {"started_by", "finished_by"}, {"finished_by", "started_by"}};
        auto it = mir.find(n1); if (n2 != (it == mir.end() ? n1 : it->second)) c.fail("A28:overlap", "overlap, " + d + "\n  " + n1 + ", of the negated operands " + n2);
    }
}
}
