// A17: the type an operand is stored in does not matter
#include "fwdgen.hpp"
#include "revgen.hpp"
#include "qry.hpp"
#include "con.hpp"
namespace vh {
char const* const prop_id = "A17";
char const* const prop_rule = "a case is one function called twice, the second time with some operands stored in a wider bound type (same values), and a third time with a wider result type; non-trivial when at least one operand type differs and no operand is empty";
void prop_setup() {}
static Ty widen(Src& s, Ty t) { return Ty(t + (int)s.draw(3 - t)); }
static bool req(Res const& a, Res const& b) { return a.valid == b.valid && a.dec == b.dec && (a.nai() || b.nai() ? a.nai() == b.nai() : same(a.x, b.x) && (!a.dec || a.d == b.d)); }
static bool sub(Res const& in, Res const& out) { return in.x.empty || (!out.x.empty && out.x.lo <= in.x.lo && in.x.hi <= out.x.hi); }
void run_case(Ctx& c) {
    Src& s = c.src; int kind = (int)s.draw(8);
    if (kind <= 2) {
        FwdCase f = gen_fwd(c, 2, 1, true), g = f; bool diff = false, emp = false;
        for (int i = 0; i < f.n; ++i) { g.ta[i] = widen(s, f.ta[i]); if (f.x[i].empty) emp = true; }
        if (!fwd_mixed_supported(f.op, f.t, g.ta)) for (int i = 0; i < f.n; ++i) g.ta[i] = TL;
        for (int i = 0; i < f.n; ++i) if (g.ta[i] != f.ta[i]) diff = true;
        FwdCase h = f; h.t = widen(s, f.t); if (!fwd_mixed_supported(h.op, h.t, h.ta)) h.t = f.t;
        g.route = (int)s.draw(2);
        c.nontrivial = diff && !emp; c.label("forward");
        Res a = f.call(), b = g.call(), w = h.call();
        if (c.verbose) c.note("  result = " + show(a) + "\n" + g.show() + "\n  result = " + show(b) + "\n" + h.show() + "\n  result = " + show(w));
        if (!req(a, b)) c.fail("A17:" + f.site() + ":operand types", f.show() + "\n  result = " + show(a) + "\nsame operands, other types: " + g.show() + "\n  result = " + show(b));
        if (!sub(w, a) || w.nai() != a.nai() || (w.dec && w.d < a.d)) c.fail("A17:" + f.site() + ":result type", f.show() + "\n  result = " + show(a) + "\nwider result type: " + h.show() + "\n  result = " + show(w) + " is not contained");
        return;
    }
    if (kind <= 4) {
        std::vector<int> ops; for (int i = 0; i <= MUL_REV; ++i) if (i != SIN_REV && i != COS_REV && i != TAN_REV) ops.push_back(i); // the periodic ones need not be tight
        RevCase f = gen_rev(c, ops, 2, 1, true), g = f; bool diff = false, emp = false;
        for (int i = 0; i < f.n; ++i) { g.ta[i] = widen(s, f.ta[i]); if (f.x[i].empty) emp = true; }
        if (f.n == 3 && !rev_mixed3_ok(g.ta)) for (int i = 0; i < 3; ++i) g.ta[i] = TL;
        for (int i = 0; i < f.n; ++i) if (g.ta[i] != f.ta[i]) diff = true;
        g.route = (int)s.draw(2); c.nontrivial = diff && !emp; c.label("reverse");
        Res a = f.call(), b = g.call();
        if (c.verbose) c.note("  result = " + show(a) + "\n" + g.show() + "\n  result = " + show(b));
        if (!req(a, b)) c.fail(std::string("A17:") + rev_name[f.op] + ":operand types", f.show() + "\n  result = " + show(a) + "\nsame operands, other types: " + g.show() + "\n  result = " + show(b));
        return;
    }
    // two-operand set functions, relations, two-output division, numeric functions
    Pool pool; Ty t = Ty(s.draw(3)); Ty ta[2], tb[2]; DIV_ a[2]; bool dec = s.draw(3) == 2, emp = false, diff = false;
    for (int i = 0; i < 2; ++i) {
        ta[i] = Ty(s.draw(3)); tb[i] = widen(s, ta[i]); if (tb[i] != ta[i]) diff = true;
        a[i].x = i ? gen_iv_near(s, ta[i], a[0].x, pool) : coerce(gen_iv(s, ta[0], &pool), ta[0]);
        a[i].d = dec ? gen_dec_for(s, a[i].x) : COM; if (dec && s.draw(24) == 23) { a[i].d = ILL; a[i].x = IV(); }
        if (a[i].x.empty) emp = true;
    }
    int route = (int)s.draw(2);
    c.nontrivial = diff && !emp;
    std::string d = std::string("result ") + ty_name[t] + (route ? " static" : " flavor") + "\n  x (" + ty_name[ta[0]] + " / " + ty_name[tb[0]] + ") = " + (dec ? show(a[0]) : show(a[0].x)) + "\n  y (" + ty_name[ta[1]] + " / " + ty_name[tb[1]] + ") = " + (dec ? show(a[1]) : show(a[1].x));
    if (c.verbose) c.note(d);
    if (kind == 5) {
        RevId op = RevId(CANCEL_PLUS + (int)s.draw(4)); c.label(rev_name[op]);
        Res r = rev(op, t, ta, route, dec, a, 2, 0), q = rev(op, t, tb, route, dec, a, 2, 0);
        if (!req(r, q)) c.fail(std::string("A17:") + rev_name[op] + ":operand types", std::string(rev_name[op]) + " " + d + "\n  results " + show(r) + " and " + show(q));
        Ty w = widen(s, t); Res u = rev(op, w, ta, route, dec, a, 2, 0);
        if (!sub(u, r) || u.nai() != r.nai()) c.fail(std::string("A17:") + rev_name[op] + ":result type", std::string(rev_name[op]) + " " + d + "\n  result " + show(r) + ", in wider type " + ty_name[w] + " " + show(u));
    } else if (kind == 6) {
        c.label("mul_rev_to_pair"); Res r[2], q[2]; mul_rev_pair(t, ta, route, dec, a, r); mul_rev_pair(t, tb, route, dec, a, q);
        if (!req(r[0], q[0]) || !req(r[1], q[1])) c.fail("A17:mul_rev_to_pair", "mul_rev_to_pair " + d + "\n  results " + show(r[0]) + " , " + show(r[1]) + " and " + show(q[0]) + " , " + show(q[1]));
    } else {
        c.label("relations and numeric functions");
        for (int k = 0; k < N_CMP; ++k) if (cmp_ok(CmpId(k), route)) {
            bool r = cmp2(CmpId(k), ta[0], ta[1], route, dec, a[0], a[1]), q = cmp2(CmpId(k), tb[0], tb[1], route, dec, a[0], a[1]);
            if (r != q) c.fail(std::string("A17:") + cmp_name[k], std::string(cmp_name[k]) + " " + d + (r ? "\n  true and false" : "\n  false and true"));
        }
        int r = overlap2(ta[0], ta[1], route, dec, a[0], a[1]), q = overlap2(tb[0], tb[1], route, dec, a[0], a[1]);
        if (r != q) c.fail("A17:overlap", "overlap " + d + "\n  " + ov_name[r] + " and " + ov_name[q]);
        for (int k = 0; k < N_NUM; ++k) {
            NumR u = num1(NumId(k), t, ta[0], route, dec, a[0]), v = num1(NumId(k), t, tb[0], route, dec, a[0]);
            auto eq = [](LD x, LD y) { return x == y || (std::isnan(x) && std::isnan(y)); };
            if (!eq(u.v, v.v) || (k == N_MIDRAD && !eq(u.w, v.w))) c.fail(std::string("A17:") + num_name[k], std::string(num_name[k]) + " of x, " + d + "\n  " + hexld(u.v) + " and " + hexld(v.v));
        }
    }
}
}
