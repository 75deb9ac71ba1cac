#include "revgen.hpp"
#include "fwdgen.hpp"
#include <functional>
#include <algorithm>
namespace vh {
std::string RevCase::show() const {
    std::string s = std::string(rev_name[op]) + "<" + ty_name[t] + "> via " + (route == 0 ? "flavor" : route == 1 ? "static" : "free") + (dec ? " (decorated)" : "");
    for (int i = 0; i < n; ++i) s += std::string("\n  arg") + std::to_string(i + 1) + (mixed ? std::string(" (") + ty_name[ta[i]] + ")" : "") + " = " + (dec ? vh::show(a[i]) : vh::show(a[i].x));
    if (op == POWN_REV) s += "\n  p = " + std::to_string(p);
    return s;
}
bool rev_forward(RevId op, LD v, LD beta, int p, M& lo, M& hi) {
    LD q[2] = {v, beta};
    switch (op) {
    case SQR_REV: return point_value(SQR, q, 0, lo, hi);
    case ABS_REV: return point_value(ABS, q, 0, lo, hi);
    case COSH_REV: return point_value(COSH, q, 0, lo, hi);
    case SIN_REV: return point_value(SIN, q, 0, lo, hi);
    case COS_REV: return point_value(COS, q, 0, lo, hi);
    case TAN_REV: return point_value(TAN, q, 0, lo, hi);
    case POWN_REV: return point_value(POWN, q, p, lo, hi);
    case MUL_REV: return point_value(MUL, q, 0, lo, hi);
    default: return false;
    }
}
IV gen_iv_near(Src& s, Ty t, IV const& y, Pool& p) {
    if (y.empty || s.draw(3) == 0) return coerce(gen_iv(s, t, &p), t);
    LD e[2];
    for (int i = 0; i < 2; ++i) switch (s.draw(9)) {
        case 0: e[i] = y.lo; break;
        case 1: e[i] = y.hi; break;
        case 2: e[i] = std::nextafterl(y.lo, s.draw(2) ? INFL : -INFL); break;
        case 3: e[i] = std::nextafterl(y.hi, s.draw(2) ? INFL : -INFL); break;
        case 4: e[i] = s.draw(2) ? INFL : -INFL; break;
        case 5: e[i] = gen_point(s, y); break;
        case 6: e[i] = round_ld(s.draw(2) ? y.lo : y.hi, TD, s.draw(2) ? 1 : -1); break;
        case 7: e[i] = round_ld(s.draw(2) ? y.lo : y.hi, TF, s.draw(2) ? 1 : -1); break;
        default: e[i] = gen_rel(s, t, p); break;
    }
    if (e[0] > e[1]) std::swap(e[0], e[1]);
    return coerce(IV(e[0], e[1]), t);
}
IV coerce(IV x, Ty t) {
    if (x.empty) return x;
    x.lo = std::isinf(x.lo) ? x.lo : round_ld(x.lo, t, 0); x.hi = std::isinf(x.hi) ? x.hi : round_ld(x.hi, t, 0);
    if (x.lo == INFL || x.hi == -INFL || x.lo > x.hi) return IV(0, 1);
    return x;
}
RevCase gen_rev(Ctx& c, std::vector<int> const& ops, int mixed, int dec, bool nai_ok) {
    Src& s = c.src; RevCase f; Pool pool;
    f.op = RevId(s.pick(ops));
    f.t = Ty(s.pick(std::vector<int>{TD, TF, TL, TD}));
    f.mixed = mixed == 2 || (mixed == 1 && s.draw(4) == 3);
    f.dec = dec == 2 || (dec == 1 && s.draw(3) == 2);
    f.unary = s.draw(5) == 4;
    f.n = (f.op == MUL_REV ? 3 : 2) - (f.unary ? 1 : 0);
    f.route = f.mixed ? (int)s.draw(2) : (int)s.draw(3);
    for (int i = 0; i < 3; ++i) f.ta[i] = f.t;
    if (f.mixed) {
        if (f.n == 3) { int tab[7][3] = {{0,0,0},{0,0,1},{0,1,2},{1,0,0},{1,1,1},{2,1,0},{2,2,2}}; int k = (int)s.draw(7); for (int i = 0; i < 3; ++i) f.ta[i] = Ty(tab[k][i]); }
        else for (int i = 0; i < f.n; ++i) f.ta[i] = Ty(s.draw(3));
    }
    if (f.op == POWN_REV) f.p = gen_exponent(s);
    bool mul = f.op == MUL_REV;
    Ty tb = f.ta[0], tc = mul ? f.ta[1] : f.ta[0], tx = f.unary ? f.t : f.ta[f.n - 1];
    bool trig = f.op == SIN_REV || f.op == COS_REV || f.op == TAN_REV;
    // domain constraint
    IV x = f.unary ? IV(-INFL, INFL) : trig && s.draw(2) ? gen_arg(s, SIN, 0, tx, pool) : gen_iv(s, tx, &pool);
    if (!f.unary) x = coerce(x, tx);
    f.dom = x;
    if (mul) f.b = coerce(gen_iv(s, tb, &pool), tb);
    // range constraint: random, or the neighbourhood of the value at a point of the domain
    IV cc;
    if (!x.empty && s.draw(8) != 0 && !(mul && f.b.empty)) {
        LD v;
        if (trig && s.draw(2)) { LD z = gen_mod(s, tx); v = x.has(z) ? z : gen_point(s, x); } else v = gen_point(s, x);
        if (s.draw(3) == 0) { LD w = round_ld(v, tx, 0); if (x.has(w)) v = w; }
        LD beta = mul ? gen_point(s, f.b) : 0;
        M lo(160), hi(160);
        if (rev_forward(f.op, v, beta, f.p, lo, hi)) {
            LD l, h; { MpfrState st; l = to_ty(lo, tc, -1); h = to_ty(hi, tc, 1); }
            if (l == INFL) l = t_max(tc);
            if (h == -INFL) h = -t_max(tc);
            cc = IV(l, h); f.target = v; f.has_target = true;
            int grow = (int)s.draw(11);
            LD e = gen_rel(s, tc, pool);
            switch (grow) {
            case 1: cc.hi = std::max(cc.hi, e); break;
            case 2: cc.lo = std::min(cc.lo, e); break;
            case 3: cc.hi = std::max(cc.hi, e); { LD e2 = gen_num(s, tc, true); cc.lo = std::min(cc.lo, e2); } break;
            case 4: cc.lo = pred(cc.lo, tc); break;
            case 5: cc.hi = succ(cc.hi, tc); break;
            case 6: if (s.draw(2)) cc.hi = INFL; else cc.lo = -INFL; break;
            case 8: case 9: case 10: { // just misses the value: the solution set ends one rounding before v
                bool up = s.draw(2); LD w = up ? succ(h, tc) : pred(l, tc);
                if (std::isinf(w)) break;
                f.has_target = false;
                if (up) cc = IV(w, s.draw(4) == 0 ? w : s.draw(2) ? INFL : std::max(w, e));
                else cc = IV(s.draw(4) == 0 ? w : s.draw(2) ? -INFL : std::min(w, e), w);
                c.label("just misses a point of the domain");
                break; }
            default: break;
            }
            if (cc.lo == INFL) cc.lo = t_max(tc);
        } else cc = gen_iv(s, tc, &pool);
    } else {
        if ((f.op == SIN_REV || f.op == COS_REV) && s.draw(2)) cc = gen_arg(s, ASIN, 0, tc, pool); else cc = gen_iv(s, tc, &pool);
    }
    if (s.draw(24) == 23) { // every operand from the few values at which branches meet
        c.label("corner operands"); f.has_target = false; if (!f.unary) f.dom = x = coerce(gen_corner(s, tx), tx);
        cc = gen_corner(s, tc); if (mul) f.b = coerce(gen_corner(s, tb), tb); }
    cc = coerce(cc, tc);
    f.c = cc;
    if (mul) { f.x[0] = f.b; f.x[1] = cc; f.x[2] = x; } else { f.x[0] = cc; f.x[1] = x; }
    for (int i = 0; i < f.n; ++i) {
        f.a[i].x = f.x[i]; f.a[i].d = COM;
        if (f.dec) { f.a[i].d = gen_dec_for(s, f.x[i]); if (nai_ok && s.draw(24) == 23) { f.a[i].d = ILL; f.a[i].x = IV(); f.x[i] = IV(); } }
    }
    c.label(std::string("op:") + rev_name[f.op]);
    c.label(std::string("type:") + ty_name[f.t]);
    if (f.mixed) c.label("mixed types");
    if (f.dec) c.label("decorated");
    if (f.unary) c.label("without domain constraint");
    if (f.has_target) c.label("constructed solution");
    if (c.verbose) c.note(f.show());
    return f;
}

// ---- solution sets -------------------------------------------------------
struct XR { M lo, hi; XR() : lo(200), hi(200) {} };   // real number in [lo,hi], exact if equal
struct Piece { XR a, b; bool oa = false, ob = false; };   // open ends (only at 0)
static XR fn(std::function<void(mpfr_ptr, mpfr_rnd_t)> f) { XR r; f(r.lo, MPFR_RNDD); f(r.hi, MPFR_RNDU); return r; }
static XR ex(LD v) { XR r; mpfr_set_ld(r.lo, v, MPFR_RNDN); mpfr_set_ld(r.hi, v, MPFR_RNDN); return r; }
static XR ng(XR const& x) { XR r; mpfr_neg(r.lo, x.hi, MPFR_RNDD); mpfr_neg(r.hi, x.lo, MPFR_RNDU); return r; }
static bool le(XR const& a, LD v) { return mpfr_cmp_ld((mpfr_srcptr)a.hi, v) <= 0; }
static bool ge(XR const& a, LD v) { return mpfr_cmp_ld((mpfr_srcptr)a.lo, v) >= 0; }
static void sym(std::vector<Piece>& v, XR const& a, XR const& b, bool oa) {
    Piece p; p.a = a; p.b = b; p.oa = oa; Piece q; q.a = ng(b); q.b = ng(a); q.ob = oa; v.push_back(q); v.push_back(p);
}
// c^(1/p), p<0, c>0
static XR nroot(LD c, long p) {
    if (c == INFL) return ex(0);
    if (c == 0) return ex(INFL);
    int e; LD m = frexpl(c, &e);
    if (m == 0.5L && (e - 1) % p == 0) { XR r; mpfr_set_ui_2exp(r.lo, 1, (e - 1) / p, MPFR_RNDN); mpfr_set(r.hi, r.lo, MPFR_RNDN); return r; }
    M x = mk(c), l(260), u(260); unsigned long k = (unsigned long)(-p);
    mpfr_rootn_ui(l, x, k, MPFR_RNDD); mpfr_rootn_ui(u, x, k, MPFR_RNDU);
    XR r; mpfr_ui_div(r.lo, 1, u, MPFR_RNDD); mpfr_ui_div(r.hi, 1, l, MPFR_RNDU); return r;
}
static XR quo(LD a, LD b) { // b > 0
    if (a == 0) return ex(0);
    if (b == 0) return ex(a > 0 ? INFL : -INFL);
    if (std::isinf(a)) return ex(a);
    if (b == INFL) return ex(0);
    M x = mk(a), y = mk(b); return fn([&](mpfr_ptr r, mpfr_rnd_t d) { mpfr_div(r, x, y, d); });
}
static std::vector<Piece> solve(RevCase const& r) {
    std::vector<Piece> v; IV c = r.c; LD const I = INFL;
    auto un = [&](LD lowest, int (*g)(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t)) {
        if (c.hi < lowest) return;
        M l = mk(std::max(c.lo, lowest)), u = mk(c.hi);
        sym(v, fn([&](mpfr_ptr q, mpfr_rnd_t d) { g(q, l, d); }), fn([&](mpfr_ptr q, mpfr_rnd_t d) { g(q, u, d); }), false);
    };
    switch (r.op) {
    case SQR_REV: un(0, mpfr_sqrt); break;
    case ABS_REV: un(0, mpfr_set); break;
    case COSH_REV: un(1, mpfr_acosh); break;
    case POWN_REV: {
        long p = r.p;
        if (p == 0) { if (c.has(1)) { Piece q; q.a = ex(-I); q.b = ex(I); v.push_back(q); } break; }
        if (p > 0) {
            auto rt = [&](LD x) { M m = mk(x); return fn([&](mpfr_ptr q, mpfr_rnd_t d) { mpfr_rootn_ui(q, m, (unsigned long)p, d); }); };
            if (p % 2 == 0) { if (c.hi >= 0) sym(v, rt(std::max(c.lo, 0.0L)), rt(c.hi), false); }
            else { Piece q; q.a = rt(c.lo); q.b = rt(c.hi); v.push_back(q); }
            break;
        }
        if (p % 2 == 0) { if (c.hi > 0) sym(v, nroot(c.hi, p), nroot(std::max(c.lo, 0.0L), p), c.hi == I); break; }
        if (c.lo < 0) { Piece q; q.a = ng(nroot(std::max(-c.hi, 0.0L), p)); q.b = ng(nroot(-c.lo, p)); q.ob = c.lo == -I; v.push_back(q); }
        if (c.hi > 0) { Piece q; q.a = nroot(c.hi, p); q.b = nroot(std::max(c.lo, 0.0L), p); q.oa = c.hi == I; v.push_back(q); }
        break; }
    case MUL_REV: {
        IV b = r.b;
        if (b.has(0) && c.has(0)) { Piece q; q.a = ex(-I); q.b = ex(I); v.push_back(q); break; }
        for (int sg = -1; sg <= 1; sg += 2) {
            LD bl = sg > 0 ? b.lo : -b.hi, bh = sg > 0 ? b.hi : -b.lo;
            if (bh <= 0) continue;
            bl = std::max(bl, 0.0L);
            Piece q;
            q.a = c.lo < 0 ? quo(c.lo, bl) : quo(c.lo, bh); q.oa = c.lo > 0 && bh == I;
            q.b = c.hi > 0 ? quo(c.hi, bl) : quo(c.hi, bh); q.ob = c.hi < 0 && bh == I;
            if (sg < 0) { Piece m; m.a = ng(q.b); m.b = ng(q.a); m.oa = q.ob; m.ob = q.oa; q = m; }
            v.push_back(q);
        }
        break; }
    default: break;
    }
    return v;
}
std::vector<IV> mul_pieces(IV const& b, IV const& cc, Ty t) {
    MpfrState st; std::vector<IV> v;
    if (b.empty || cc.empty) return v;
    RevCase r; r.op = MUL_REV; r.b = b; r.c = cc; r.t = t;
    for (Piece const& q : solve(r)) {
        LD l = to_ty(q.a.lo, t, -1), h = to_ty(q.b.hi, t, 1);
        if (l == INFL) l = t_max(t);
        if (h == -INFL) h = -t_max(t);
        v.push_back(IV(l, h));
    }
    if (v.size() == 2 && v[1].lo < v[0].lo) std::swap(v[0], v[1]);
    return v;
}
void rev_hull(RevCase const& r, IV& in, IV& out) {
    MpfrState st; in = out = IV();
    if (r.c.empty || r.dom.empty || (r.op == MUL_REV && r.b.empty)) return;
    IV x = r.dom;
    for (Piece const& q : solve(r)) for (int strict = 0; strict < 2; ++strict) {
        bool lo_ok = le(q.a, x.hi), hi_ok = ge(q.b, x.lo);
        if (strict && q.oa && !(x.hi > 0)) lo_ok = false;
        if (strict && q.ob && !(x.lo < 0)) hi_ok = false;
        if (!lo_ok || !hi_ok) continue;
        LD l = ge(q.a, x.lo) ? to_ty(q.a.lo, r.t, -1) : round_ld(x.lo, r.t, -1);
        LD h = le(q.b, x.hi) ? to_ty(q.b.hi, r.t, 1) : round_ld(x.hi, r.t, 1);
        if (l == INFL) l = t_max(r.t);
        if (h == -INFL) h = -t_max(r.t);
        IV& o = strict ? in : out;
        if (o.empty) o = IV(l, h); else { o.lo = std::min(o.lo, l); o.hi = std::max(o.hi, h); }
    }
}
}
