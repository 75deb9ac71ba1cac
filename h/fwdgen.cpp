#include "fwdgen.hpp"
#include <climits>
#include <algorithm>
namespace vh {
int gen_exponent(Src& s) {
    switch (s.draw(8)) {
    case 0: case 1: case 2: return s.range(-4, 8);
    case 3: case 4: return s.range(-20, 20);
    case 5: { int sp[] = {2, 3, 0, 1, -1, -2, -3, 127, 255, 1023, -1023, 1074, -1074, 16383, 1000001, -1000000}; return sp[s.draw(16)]; }
    case 6: return s.range(-300, 300);
    case 7: if (s.draw(2)) { int q = (int)s.bits(s.range(2, 31)); return s.draw(2) ? -q : q; } // fall through
    default: { int sp[] = {INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 65536, -65535, 1 << 30, -(1 << 30)}; return sp[s.draw(8)]; }
    }
}
static LD clampt(LD x, Ty t) { return std::isinf(x) ? (x > 0 ? t_max(t) : -t_max(t)) : x; }
IV gen_arg(Src& s, OpId op, int k, Ty t, Pool& pool) {
    IV x;
    bool dom = s.draw(3) != 0;
    auto unit = [&](LD sc) { // endpoints around [-sc, sc]
        LD v;
        switch (s.draw(6)) { case 0: v = 0; break; case 1: v = 1; break; case 2: v = 0.5L; break;
            case 3: v = round_ld((LD)s.draw(1025) / 1024 * sc, t, 0); break;
            case 4: v = round_ld(ldexpl((LD)s.bits(60), -60) * sc, t, 0); break;
            default: v = round_ld(ldexpl(1 + ldexpl((LD)s.bits(20), -20), -s.range(1, fmt[t].p + 10)), t, 0); break; }
        int nd = (int)s.draw(6); if (nd == 4) v = succ(v, t); if (nd == 5) v = pred(v, t);
        return s.draw(2) ? -v : v; };
    if ((op == EXP2 || op == EXP10 || op == LOG2 || op == LOG10) && s.draw(8) == 7) { // exact values, and their neighbours
        auto one = [&]() -> LD {
            Fmt const& f = fmt[t]; LD v;
            switch (op) {
            case EXP2: v = (LD)s.range(f.emin - f.p - 2, f.emax + 1); break;
            case EXP10: v = s.draw(2) ? (LD)s.range(-50, 50) : (LD)s.range((f.emin - f.p) / 3, f.emax / 3); break;
            case LOG2: v = ldexpl(1, s.range(f.emin - f.p, f.emax - 1)); break;
            default: v = round_ld(powl(10.0L, s.range(-37, 37)), t, 0); }
            int nd = (int)s.draw(6); return nd == 4 ? succ(v, t) : nd == 5 ? pred(v, t) : v; };
        LD a = one(), b = s.draw(3) ? one() : a; if (a > b) std::swap(a, b); if (std::isfinite(a) && std::isfinite(b)) { x = IV(a, b); pool.add(x); return x; }
    }
    if ((op == SIN || op == COS || op == TAN) && s.draw(6) == 5) { // large arguments a few units in the last place wide
        LD v = ldexpl(1 + ldexpl((LD)s.bits(fmt[t].p - 1), 1 - fmt[t].p), s.range(fmt[t].p / 3, fmt[t].p + 3)), w = v; for (int i = s.range(0, 6); i > 0; --i) w = succ(w, t);
        x = s.draw(2) ? IV(v, w) : IV(-w, -v); pool.add(x); return x;
    }
    switch (op) {
    case ASIN: case ACOS: case ATANH:
        if (dom) { LD a = unit(1.25L), b = unit(1.25L); x = a <= b ? IV(a, b) : IV(b, a); pool.add(x); return x; } break;
    case SQRT: case LOG: case LOG2: case LOG10: case ACOSH: case POW:
        if (dom && (op != POW || k == 0)) { LD a = fabsl(gen_rel(s, t, pool)), b = fabsl(gen_rel(s, t, pool));
            if (s.draw(4) == 3) b = a; if (s.draw(6) == 5) b = INFL; x = a <= b ? IV(a, b) : IV(b, a); if (s.draw(8) == 7) x.lo = 0; if (x.lo == INFL) x.lo = t_max(t); pool.add(x); return x; }
        if (dom && s.draw(2)) { LD a = (LD)s.range(-6, 6) / (1 << s.draw(3)), b = (LD)s.range(-6, 6) / (1 << s.draw(3)); x = a <= b ? IV(a, b) : IV(b, a); pool.add(x); return x; }
        break;
    case EXP: case EXP2: case EXP10: case SINH: case COSH: case TANH: case ASINH: case SIN: case COS: case TAN: case ATAN:
        if (dom) { LD a = gen_mod(s, t), b = gen_mod(s, t);
            switch (s.draw(6)) { case 0: b = a; break; case 1: b = succ(a, t); break;
                case 2: b = clampt(round_ld(a + (LD)s.range(0, 9) * 1.5707963267948966192L, t, 0), t); break;
                case 3: b = clampt(round_ld(a + fabsl(unit(1)), t, 0), t); break; default: break; }
            a = clampt(a, t); b = clampt(b, t);
            x = a <= b ? IV(a, b) : IV(b, a); pool.add(x); return x; }
        break;
    case CEIL: case FLOOR: case TRUNC: case RTE: case RTA:
        if (dom) { LD a = (LD)s.range(-6, 6) / 2, b = a + (LD)s.draw(5) / 4; x = IV(a, b);
            switch (s.draw(5)) { case 0: x.hi = x.lo; break; case 1: x.lo = succ(x.lo, t); break; case 2: x.hi = pred(x.hi, t); break; case 3: x.hi = pred(x.hi, t); x.lo = succ(x.lo, t); break; default: break; }
            if (x.lo > x.hi) std::swap(x.lo, x.hi); pool.add(x); return x; }
        break;
    case FMA:
        if (k == 2 && s.draw(3) == 2 && pool.v.size() >= 4) { // near minus the product
            LD u = pool.v[s.draw(2)], v = pool.v[2 + s.draw(2)]; LD q = round_ld(-(u * v), t, 0);
            if (std::isfinite(q) && !std::isnan(q)) { LD r = q; int nd = (int)s.draw(4); if (nd == 2) r = succ(r, t); if (nd == 3) r = pred(r, t); r = clampt(r, t);
                x = r <= q ? IV(r, q) : IV(q, r); if (s.draw(2)) x = IV(q, q); return x; } }
        break;
    default: break;
    }
    return gen_iv(s, t, &pool);
}
// operands for which two candidates for the same bound of the result nearly
// coincide
static bool near_tie(Src& s, FwdCase& f) {
    auto nudge = [&](LD v, Ty t) { int k = (int)s.draw(6); for (int i = 0; i < (k + 1) / 2; ++i) v = k % 2 ? succ(v, t) : pred(v, t); return v; };
    auto pos = [&](Ty t, LD v) { v = round_ld(fabsl(v), t, 0); return !(v > 0) || std::isinf(v) ? 1 : v; };
    auto mod = [&](Ty t) { LD v = pos(t, gen_mod(s, t)); return v > 1e6L || v < 1e-6L ? 1 + ldexpl((LD)s.bits(fmt[t].p - 1), 1 - fmt[t].p) : v; };
    auto put = [&](int k, LD a, LD b) { if (!std::isfinite(a) || !std::isfinite(b)) return false; f.a[k].x = a <= b ? IV(a, b) : IV(b, a); return true; };
    bool up = s.draw(2);
    switch (f.op) {
    case MUL: case FMA: { int k = (int)s.draw(2), l = 1 - k; Ty t = f.ta[k], u = f.ta[l];
        LD xl = -mod(t), xu = mod(t), y = mod(u), z; if (s.draw(4) == 3) xl = round_ld(-nudge(xu, t), t, 0);
        // xl*(-y) against xu*z, or xl*z against xu*(-y)
        z = nudge(round_ld(up ? -xl * y / xu : xu * y / -xl, u, 0), u);
        return put(k, xl, xu) && put(l, -y, z); }
    case POW: { Ty t = f.ta[0], u = f.ta[1]; LD a = 1 / (1 + mod(t) / 8), b = 1 + mod(t) / 8; a = round_ld(a, t, 0); b = round_ld(b, t, 0);
        if (s.draw(3) == 2) { b = ldexpl(1, s.range(1, 6)); a = ldexpl(1, -s.range(1, 6)); }
        LD y = s.draw(2) ? (LD)s.range(1, 12) : mod(u), r = logl(a) / logl(b);
        // a^-y against b^z, or a^z against b^-y
        LD z = nudge(round_ld(up ? -y * r : -y / r, u, 0), u);
        if (s.draw(4) == 3 && up) { y = round_ld(y * 64 / (1 - logl(a)), u, 0); z = round_ld(-y * r, u, 0); }
        return put(0, a, b) && put(1, -y, z); }
    case SQR: case ABS: case COSH: case POWN: { LD a = mod(f.ta[0]); return put(0, -a, nudge(a, f.ta[0])); }
    case SIN: case COS: { Ty t = f.ta[0]; LD m = (LD)(2 * s.range(-20, 20) + (f.op == SIN ? 1 : 0)) * 1.570796326794896619231321691639751442L, d = ldexpl(mod(t), -s.range(0, 12)); if (d > 3) d = 1;
        return put(0, round_ld(m - d, t, 0), nudge(round_ld(m + d, t, 0), t)); }
    default: return false;
    }
}
// exponent (base 2, with fraction) of a result near the limits of a type
LD gen_edge_exponent(Src& s, Ty t, bool only_large) {
    Fmt const& f = fmt[t]; LD fr = s.draw(3) ? ldexpl((LD)s.bits(f.p < 62 ? f.p : 62), -(f.p < 62 ? f.p : 62)) : 0;
    if (only_large || s.draw(3) == 2) return (LD)s.range(f.emax - 3, f.emax) + fr;
    return (LD)s.range(f.emin - f.p - 3, f.emin + 2) + fr;
}
// an interval with v as one bound
static IV around(Src& s, LD v, Ty t, Pool& p) {
    v = round_ld(v, t, 0); if (std::isnan(v)) v = 1; if (std::isinf(v)) v = v > 0 ? t_max(t) : -t_max(t);
    p.add(v); LD w = v;
    switch (s.draw(9)) {
    case 0: break;
    case 1: w = succ(v, t); break;
    case 2: w = pred(v, t); break;
    case 3: w = -v; break;
    case 4: w = 0; break;
    case 5: w = round_ld(v * (1 + ldexpl((LD)s.bits(20), -18)), t, 0); break;
    case 6: w = s.draw(2) ? INFL : -INFL; break;
    default: w = gen_rel(s, t, p); }
    return v <= w ? IV(v, w) : IV(w, v);
}
// operands for which a bound of the result is subnormal or close to overflow
static bool edge(Src& s, FwdCase& f) {
    Pool p; Ty t = f.t, a0 = f.ta[0], a1 = f.n > 1 ? f.ta[1] : a0; LD v[3] = {1, 1, 0}, ln2 = 0.693147180559945309417232121458176568L;
    bool large = f.op == SINH || f.op == COSH; LD E = gen_edge_exponent(s, t, large), e = floorl(E);
    auto m = [&](Ty u) { return 1 + ldexpl((LD)s.bits(fmt[u].p - 1), 1 - fmt[u].p); };
    auto split = [&] { Ty u = fmt[a0].p < fmt[a1].p ? a0 : a1; int w = fmt[u].emax - 2; int lo = std::max(-w, (int)e - w), hi = std::min(w, (int)e + w); if (lo > hi) return (int)e / 2; return s.draw(2) ? std::min(hi, std::max(lo, (int)e / 2 + s.range(-20, 20))) : s.range(lo, hi); };
    switch (f.op) {
    case MUL: case FMA: { int k = split(); v[0] = ldexpl(m(a0), k); v[1] = ldexpl(m(a1), (int)e - k); if (f.op == FMA) v[2] = s.draw(3) ? ldexpl(m(f.ta[2]), (int)e - (int)s.draw(4)) : 0; break; }
    case DIV: case ATAN2: { int k = split(); v[0] = ldexpl(m(a0), k); v[1] = ldexpl(m(a1), k - (int)e); break; }
    case SQR: v[0] = exp2l(E / 2); break;
    case POWN: { int q = s.range(2, 9); if (s.draw(2)) q = -q; if (s.draw(6) == 5) q *= s.range(2, 200); else if (s.draw(5) == 4) { q = (int)s.bits(s.range(4, 30)) + 2; if (s.draw(2)) q = -q; if (s.draw(2)) E = E * (LD)s.range(1, 99) / 100; } f.p = q; v[0] = exp2l(E / q); break; }
    case POW: { v[0] = s.draw(2) ? m(a0) : 1 / m(a0); if (s.draw(6) == 5) { v[0] = 1 + ldexpl(s.draw(2) ? 1 : -1, -s.range(1, fmt[a0].p)); if (s.draw(2)) E = E * (LD)s.range(1, 99) / 100; } else if (s.draw(2)) v[0] = ldexpl(v[0], s.range(-30, 30)); v[0] = round_ld(v[0], a0, 0); LD l = log2l(v[0]); if (l == 0) return false; v[1] = E / l; break; }
    case EXP: v[0] = E * ln2; break;
    case EXP2: v[0] = E; break;
    case EXP10: v[0] = E * 0.301029995663981195213738894724493027L; break;
    case SINH: case COSH: v[0] = (E + 1) * ln2; break;
    case SQRT: case SIN: case TAN: case ASIN: case ATAN: case TANH: case ASINH: case ATANH: case ADD: case SUB: case RECIP: v[0] = s.draw(2) || f.op != RECIP ? exp2l(E) : exp2l(-E); v[1] = exp2l(gen_edge_exponent(s, t, false)); break;
    default: return false;
    }
    for (int i = 0; i < f.n; ++i) { if (f.op != EXP && f.op != EXP2 && f.op != EXP10 && f.op != POW && s.draw(3) == 2) v[i] = -v[i]; if (std::isnan(v[i])) return false; f.a[i].x = around(s, v[i], f.ta[i], p); }
    return true;
}
IV gen_corner(Src& s, Ty t) {
    switch (s.draw(18)) {
    case 0: return IV(0, 0); case 1: return IV(); case 2: return IV(-INFL, INFL); case 3: return IV(0, INFL); case 4: return IV(-INFL, 0);
    case 5: return IV(1, 1); case 6: return IV(-1, -1); case 7: return IV(-1, 1); case 8: return IV(0, 1); case 9: return IV(-1, 0);
    case 10: return IV(1, INFL); case 11: return IV(-INFL, -1); case 12: return IV(-INFL, 1); case 13: return IV(-1, INFL);
    case 14: return IV(t_max(t), INFL); case 15: return IV(-INFL, -t_max(t)); case 16: return IV(0, t_dmin(t)); default: return IV(-t_dmin(t), 0);
    }
}
FwdCase gen_fwd(Ctx& c, int mixed, int dec, bool nai_ok) {
    Src& s = c.src; FwdCase f; Pool pool;
    f.op = OpId(s.draw(N_OPS));
    if (s.draw(4) == 3) { OpId hot[] = {ADD, MUL, DIV, SIN, COS, TAN, POW, POWN, ATAN2, FMA}; f.op = hot[s.draw(10)]; }
    f.t = Ty(s.pick(std::vector<int>{TD, TF, TL, TD}));
    f.n = op_arity(f.op);
    f.mixed = mixed == 2 || (mixed == 1 && s.draw(4) == 3);
    f.dec = dec == 2 || (dec == 1 && s.draw(3) == 2);
    f.route = f.mixed ? (int)s.draw(2) : (int)s.draw(4);
    for (int i = 0; i < 3; ++i) f.ta[i] = f.t;
    if (f.mixed) {
        do { for (int i = 0; i < f.n; ++i) f.ta[i] = Ty(s.draw(3)); if (f.op == FMA) { int tab[7][3] = {{0,0,0},{0,0,1},{0,1,2},{1,0,0},{1,1,1},{2,1,0},{2,2,2}}; int k = (int)s.draw(7); for (int i = 0; i < 3; ++i) f.ta[i] = Ty(tab[k][i]); } }
        while (!fwd_mixed_supported(f.op, f.t, f.ta));
    }
    bool const corner = s.draw(20) == 19; if (corner) c.label("corner operands");
    for (int i = 0; i < f.n; ++i) {
        IV x = corner ? gen_corner(s, f.ta[i]) : gen_arg(s, f.op, i, f.ta[i], pool);
        if (!x.empty) { x.lo = std::isinf(x.lo) ? x.lo : round_ld(x.lo, f.ta[i], 0); x.hi = std::isinf(x.hi) ? x.hi : round_ld(x.hi, f.ta[i], 0); if (x.lo == INFL || x.hi == -INFL || x.lo > x.hi) x = IV(0, 1); }
        f.a[i].x = x; f.a[i].d = COM;
        if (f.dec) { f.a[i].d = gen_dec_for(s, x); if (nai_ok && s.draw(24) == 23) { f.a[i].d = ILL; f.a[i].x = IV(); } }
        f.x[i] = f.a[i].x;
    }
    if (f.op == POWN) f.p = gen_exponent(s);
    int special = (int)s.draw(6);
    if (special >= 4) {
        FwdCase g = f; bool ok = true; for (int i = 0; i < f.n; ++i) if (f.a[i].d == ILL) ok = false;
        if (ok && (special == 4 ? near_tie(s, g) : edge(s, g))) {
            for (int i = 0; i < f.n; ++i) {
                IV& x = g.a[i].x; g.x[i] = x; if (same(x, f.a[i].x)) continue;
                if (x.empty || !(x.lo <= x.hi) || x.lo == INFL || x.hi == -INFL || !representable(x.lo, f.ta[i]) || !representable(x.hi, f.ta[i])) { ok = false; break; }
                if (f.dec) { if (f.a[i].x.empty) g.a[i].d = DAC; if (!x.bounded() && g.a[i].d == COM) g.a[i].d = DAC; }
            }
            if (ok) { f = g; c.label(special == 4 ? "nearly tied bounds" : "result near the limits of the type"); }
        }
    }
    c.label(std::string("op:") + op_name[f.op]);
    c.label(std::string("type:") + ty_name[f.t]);
    c.label(std::string("route:") + route_name[f.route]);
    if (f.mixed) c.label("mixed types");
    if (f.dec) c.label("decorated");
    if (c.verbose) c.note(f.show());
    return f;
}
std::string FwdCase::show() const {
    std::string s = std::string(op_name[op]) + "<" + ty_name[t] + "> via " + route_name[route] + (dec ? " (decorated)" : "");
    for (int i = 0; i < n; ++i) s += std::string("\n  arg") + std::to_string(i + 1) + (mixed ? std::string(" (") + ty_name[ta[i]] + ")" : "") + " = " + (dec ? vh::show(a[i]) : vh::show(a[i].x));
    if (op == POWN) s += "\n  p = " + std::to_string(p);
    return s;
}
}
