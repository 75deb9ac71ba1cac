// A18: all spellings of a call agree
#include "fwdgen.hpp"
#include "revgen.hpp"
#include "qry.hpp"
#include "con.hpp"
namespace vh {
char const* const prop_id = "A18";
char const* const prop_rule = "a case is one function with one set of operands called through every spelling that exists (flavor function, static member, free function, operator, one- and two-argument forms, bare interval against decorated interval part); non-trivial when no operand is empty";
void prop_setup() {}
static bool req(Res const& a, Res const& b) { return a.valid == b.valid && a.dec == b.dec && (a.nai() || b.nai() ? a.nai() == b.nai() : same(a.x, b.x) && (!a.dec || a.d == b.d)); }
void run_case(Ctx& c) {
    Src& s = c.src; int kind = (int)s.draw(8);
    if (kind <= 2) {
        FwdCase f = gen_fwd(c, 0, 1, true); bool emp = false, nai = false; f.route = 0; for (int i = 0; i < f.n; ++i) { if (f.x[i].empty) emp = true; if (f.dec && f.a[i].nai()) nai = true; }
        c.nontrivial = !emp; Res r = f.call();
        for (int k = 1; k < 4; ++k) { FwdCase g = f; g.route = k; Res q = g.call(); if (!req(r, q)) c.fail("A18:" + f.site() + ":" + route_name[k], f.show() + "\n  result = " + show(r) + "\nvia " + route_name[k] + ": " + show(q)); }
        if (f.dec && !nai) { FwdCase g = f; g.dec = false; g.route = (int)s.draw(4); Res q = g.call(); if (!same(r.x, q.x)) c.fail("A18:" + f.site() + ":interval part", f.show() + "\n  result = " + show(r) + "\nbare operation: " + show(q)); c.label("decorated against bare"); }
        if (f.n < 3) { FwdCase g = f; g.mixed = true; g.route = (int)s.draw(2); Res q = g.call(); if (!req(r, q)) c.fail("A18:" + f.site() + ":explicit result type", f.show() + "\n  result = " + show(r) + "\nexplicit result type: " + show(q)); }
        return;
    }
    if (kind <= 4) {
        std::vector<int> ops; for (int i = 0; i <= MUL_REV; ++i) ops.push_back(i);
        RevCase f = gen_rev(c, ops, 0, 1, true); bool emp = false, nai = false; for (int i = 0; i < f.n; ++i) { if (f.x[i].empty) emp = true; if (f.dec && f.a[i].nai()) nai = true; }
        c.nontrivial = !emp; f.route = 0; Res r = f.call();
        for (int k = 1; k < 3; ++k) { RevCase g = f; g.route = k; Res q = g.call(); if (!req(r, q)) c.fail(std::string("A18:") + rev_name[f.op] + (k == 1 ? ":static" : ":free"), f.show() + "\n  result = " + show(r) + "\nother route: " + show(q)); }
        if (f.dec && !nai) { RevCase g = f; g.dec = false; g.route = (int)s.draw(3); Res q = g.call(); if (!same(r.x, q.x)) c.fail(std::string("A18:") + rev_name[f.op] + ":interval part", f.show() + "\n  result = " + show(r) + "\nbare operation: " + show(q)); c.label("decorated against bare"); }
        if (f.unary) { // the form with the entire line as domain constraint
            RevCase g = f; g.unary = false; g.a[g.n].x = IV(-INFL, INFL); g.a[g.n].d = DAC; g.x[g.n] = g.a[g.n].x; g.n++; g.route = (int)s.draw(3); Res q = g.call();
            if (!req(r, q)) c.fail(std::string("A18:") + rev_name[f.op] + ":default domain", f.show() + "\n  result = " + show(r) + "\nwith [entire] as domain constraint: " + show(q)); c.label("default domain constraint"); }
        return;
    }
    Pool pool; Ty t = Ty(s.draw(3)); DIV_ a[2]; bool dec = s.draw(2), emp = false, nai = false;
    for (int i = 0; i < 2; ++i) {
        a[i].x = i ? gen_iv_near(s, t, a[0].x, pool) : coerce(gen_iv(s, t, &pool), t);
        a[i].d = dec ? gen_dec_for(s, a[i].x) : COM; if (dec && s.draw(24) == 23) { a[i].d = ILL; a[i].x = IV(); nai = true; }
        if (a[i].x.empty) emp = true;
    }
    Ty ta[2] = {t, t}; c.nontrivial = !emp;
    std::string d = std::string(ty_name[t]) + "\n  x = " + (dec ? show(a[0]) : show(a[0].x)) + "\n  y = " + (dec ? show(a[1]) : show(a[1].x));
    if (c.verbose) c.note(d);
    if (kind == 5) {
        RevId op = RevId(CANCEL_PLUS + (int)s.draw(4)); c.label(rev_name[op]);
        Res r = rev(op, t, nullptr, 0, dec, a, 2, 0);
        for (int k = 1; k < 3; ++k) { Res q = rev(op, t, nullptr, k, dec, a, 2, 0); if (!req(r, q)) c.fail(std::string("A18:") + rev_name[op], std::string(rev_name[op]) + " " + d + "\n  flavor " + show(r) + (k == 1 ? ", static " : ", free ") + show(q)); }
        for (int k = 0; k < 2; ++k) { Res q = rev(op, t, ta, k, dec, a, 2, 0); if (!req(r, q)) c.fail(std::string("A18:") + rev_name[op] + ":explicit result type", std::string(rev_name[op]) + " " + d + "\n  " + show(r) + ", with explicit result type " + show(q)); }
        if (dec && !nai) { Res q = rev(op, t, nullptr, (int)s.draw(3), false, a, 2, 0); if (!same(r.x, q.x)) c.fail(std::string("A18:") + rev_name[op] + ":interval part", std::string(rev_name[op]) + " " + d + "\n  " + show(r) + ", bare " + show(q)); }
    } else if (kind == 6) {
        c.label("mul_rev_to_pair"); Res r[2], q[2]; mul_rev_pair(t, nullptr, 0, dec, a, r);
        for (int k = 1; k < 5; ++k) { mul_rev_pair(t, k >= 3 ? ta : nullptr, k >= 3 ? k - 3 : k, dec, a, q); if (!req(r[0], q[0]) || !req(r[1], q[1])) c.fail("A18:mul_rev_to_pair", "mul_rev_to_pair " + d + "\n  flavor " + show(r[0]) + " , " + show(r[1]) + strf(", spelling %d ", k) + show(q[0]) + " , " + show(q[1])); }
        if (dec && !nai) { mul_rev_pair(t, nullptr, (int)s.draw(3), false, a, q); if (!same(r[0].x, q[0].x) || !same(r[1].x, q[1].x)) c.fail("A18:mul_rev_to_pair:interval part", "mul_rev_to_pair " + d + "\n  " + show(r[0]) + " , " + show(r[1]) + ", bare " + show(q[0]) + " , " + show(q[1])); }
    } else {
        c.label("relations, predicates and numeric functions");
        for (int k = 0; k < N_CMP; ++k) {
            int base = -1; bool r = false;
            for (int route = 0; route < 3; ++route) if (cmp_ok(CmpId(k), route)) { bool q = cmp2(CmpId(k), t, t, route, dec, a[0], a[1]); if (base < 0) base = route, r = q; else if (q != r) c.fail(std::string("A18:") + cmp_name[k], std::string(cmp_name[k]) + " " + d + "\n  the spellings disagree"); }
            if (dec && !nai) { bool q = cmp2(CmpId(k), t, t, 1, false, a[0], a[1]); if (q != r) c.fail(std::string("A18:") + cmp_name[k] + ":interval part", std::string(cmp_name[k]) + " " + d + "\n  decorated and bare operands disagree"); }
        }
        // converse relations are the same function with exchanged operands
        CmpId pr[7][2] = {{SUPERSET, SUBSET}, {GREATER, LESS}, {SUCCEEDS, PRECEDES}, {CONTAINS_INTERIOR, INTERIOR}, {STRICTLY_GREATER, STRICTLY_LESS}, {STRICTLY_SUCCEEDS, STRICTLY_PRECEDES}, {OP_EQ, EQUAL}};
        for (auto& p : pr) if (cmp2(p[0], t, t, 2, dec, a[0], a[1]) != cmp2(p[1], t, t, 1, dec, a[1], a[0])) c.fail(std::string("A18:") + cmp_name[p[0]] + ":converse", std::string(cmp_name[p[0]]) + " " + d + "\n  disagrees with " + cmp_name[p[1]] + " of exchanged operands");
        int o = overlap2(t, t, 0, dec, a[0], a[1]);
        for (int k = 1; k < 3; ++k) if (overlap2(t, t, k, dec, a[0], a[1]) != o) c.fail("A18:overlap", "overlap " + d + "\n  the spellings disagree");
        for (int k = 0; k < N_PRED; ++k) if (k != P_NAI || dec) { bool r = pred1(PredId(k), t, 0, dec, a[0]); for (int q = 1; q < 3; ++q) if (pred1(PredId(k), t, q, dec, a[0]) != r) c.fail(std::string("A18:") + pred_name[k], std::string(pred_name[k]) + " of x, " + d + "\n  the spellings disagree"); }
        auto eq = [](LD x, LD y) { return (x == y && std::signbit(x) == std::signbit(y)) || (std::isnan(x) && std::isnan(y)); };
        NumR m[N_NUM];
        for (int k = 0; k < N_NUM; ++k) {
            m[k] = num1(NumId(k), t, t, 0, dec, a[0]);
            for (int q = 1; q < 3; ++q) { NumR v = num1(NumId(k), t, t, q, dec, a[0]); if (!eq(m[k].v, v.v) || (k == N_MIDRAD && !eq(m[k].w, v.w))) c.fail(std::string("A18:") + num_name[k], std::string(num_name[k]) + " of x, " + d + "\n  " + hexld(m[k].v) + " and " + hexld(v.v)); }
        }
        if (!eq(m[N_MIDRAD].v, m[N_MID].v) || !eq(m[N_MIDRAD].w, m[N_RAD].v)) c.fail("A18:mid_rad", "mid_rad of x, " + d + "\n  differs from mid and rad");
    }
}
}
