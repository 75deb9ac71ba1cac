#include "any.hpp"
#include "lit.hpp"
namespace vh {
std::string digest(LD x) { if (std::isnan(x)) return "nan"; return hexld(x) + (std::signbit(x) && x == 0 ? "(-)" : ""); }
std::string digest(Res const& r) {
    std::string s; if (!r.valid) s = "INVALID ";
    if (r.nai()) return s + "[nai]";
    s += r.x.empty ? std::string("[empty]") : "[" + digest(r.x.lo) + "," + digest(r.x.hi) + "]";
    if (r.dec) s += r.d >= 0 && r.d <= 4 ? std::string("_") + dec_name[r.d] : "_?";
    return s;
}
int Any::nops() const { switch (kind) { case K_FWD: return f.n; case K_REV: return r.n; case K_NUMS: case K_TEXT: case K_REDUCE: return 0; default: return n; } }
DIV_& Any::operand(int i) { return kind == K_FWD ? f.a[i] : kind == K_REV ? r.a[i] : a[i]; }
bool Any::flavor_route() const {
    switch (kind) { case K_CMP: return cmp_ok(CmpId(op), 0); case K_PRINT: return true; default: return nops() > 0; }
}
void Any::use_flavor_route() { f.route = r.route = 0; route = kind == K_PRINT ? 1 : 0; }
std::string Any::site() const {
    std::string s;
    switch (kind) {
    case K_FWD: return f.site() + (f.mixed ? "/mixed" : ""); case K_REV: return std::string(rev_name[r.op]) + (r.dec ? "/dec" : "/bare") + (r.mixed ? "/mixed" : "");
    case K_PAIR: s = "mul_rev_to_pair"; break; case K_CMP: s = cmp_name[op]; break; case K_PRED: s = pred_name[op]; break; case K_NUM: s = num_name[op]; break;
    case K_MEMBER: s = "is_member"; break; case K_OVERLAP: s = "overlap"; break; case K_CONV: s = conv_name[op]; break; case K_DECPART: s = "decoration"; break;
    case K_NUMS: s = op ? "nums_dec_to_interval" : "nums_to_interval"; break; case K_TEXT: s = "text_to_interval"; break; case K_PRINT: s = "interval_to_text"; break; default: return red_name[op]; }
    return s + (dec ? "/dec" : "/bare") + (mixed ? "/mixed" : "");
}
std::string Any::show() const {
    if (kind == K_FWD) return f.show(); if (kind == K_REV) return r.show();
    std::string s = site() + strf(" <%s> route %d", ty_name[t], route);
    switch (kind) {
    case K_NUMS: return s + " (" + ty_name[ta[0]] + ", " + ty_name[ta[1]] + ")  lo = " + hexld(v[0]) + "  hi = " + hexld(v[1]) + (op ? strf("  decoration code %d", raw) : std::string());
    case K_TEXT: return s + "\n  text = " + text;
    case K_REDUCE: { s += strf(" %s", rr_name[rnd]); for (size_t i = 0; i < v.size(); ++i) s += "\n  " + hexld(v[i]) + (op == R_DOT ? " * " + hexld(w[i]) : std::string()); return s; }
    default: break; }
    for (int i = 0; i < n; ++i) s += strf("\n  x%d (%s) = ", i, ty_name[ta[i]]) + (a[i].raw ? "raw [" + hexld(a[i].x.lo) + "," + hexld(a[i].x.hi) + "]" + (dec ? std::string("_") + dec_name[a[i].d] : "") : dec ? vh::show(a[i]) : vh::show(a[i].x));
    if (kind == K_MEMBER) s += "\n  m = " + hexld(m); if (kind == K_CONV && op == DEC_BARE_D) s += strf("\n  decoration code %d", raw); if (kind == K_PRINT) s += "\n  " + vh::show(fmt);
    return s;
}
std::string Any::run() const {
    switch (kind) {
    case K_FWD: return digest(f.call());
    case K_REV: return digest(r.call());
    case K_PAIR: { Res o[2]; mul_rev_pair(t, mixed ? ta : nullptr, route, dec, a, o); return digest(o[0]) + " , " + digest(o[1]); }
    case K_CMP: return cmp2(CmpId(op), ta[0], ta[1], route, dec, a[0], a[1]) ? "true" : "false";
    case K_PRED: return pred1(PredId(op), t, route, dec, a[0]) ? "true" : "false";
    case K_NUM: { NumR q = num1(NumId(op), t, ta[0], route, dec, a[0]); return digest(q.v) + (op == N_MIDRAD ? " , " + digest(q.w) : std::string()); }
    case K_MEMBER: return member(ta[1], m, t, route, dec, a[0]) ? "true" : "false";
    case K_OVERLAP: return ov_name[overlap2(ta[0], ta[1], route, dec, a[0], a[1])];
    case K_CONV: return digest(conv(ConvId(op), t, ta[0], route, a[0], raw));
    case K_DECPART: { int d = dec_part(t, route, a[0]); return d < 0 ? "?" : dec_name[d]; }
    case K_NUMS: return digest(op ? con3(t, ta[0], ta[1], route, v[0], v[1], raw) : con2(t, ta[0], ta[1], route, dec, v[0], v[1]));
    case K_TEXT: { TextIn i = read_text(t, dec, route, text); return i.foreign ? "threw " + i.what : digest(i.r) + strf(" flags %u%s%s%s rest ", i.flags, i.fail ? " fail" : "", i.eof ? " eof" : "", i.threw ? " threw" : "") + i.rest; }
    case K_PRINT: { TextOut o = write_text(t, dec, route, a[0], fmt); return o.threw ? "threw " + o.what : "\"" + o.s + "\"" + (o.good ? "" : " not good") + strf(" flags %u", o.flags); }
    case K_REDUCE: return digest(reduce(RedId(op), t, rnd, route, v, w));
    default: return "";
    }
}
std::string Any::invalid_result() const {
    auto set = [](bool d) { return std::string(d ? "[nai]" : "[empty]"); };
    switch (kind) {
    case K_FWD: return set(f.dec); case K_REV: return set(r.dec);
    case K_PAIR: return set(dec) + " , " + set(dec);
    case K_CMP: case K_PRED: case K_MEMBER: return "false";
    case K_NUM: return op == N_MIDRAD ? "nan , nan" : "nan";
    case K_OVERLAP: return ov_name[0];
    case K_CONV: return set(op != BARE_BARE && op != BARE_DEC);
    case K_DECPART: return "ill";
    case K_PRINT: return "\"\" flags 8";
    default: return "";
    }
}
Any gen_any(Ctx& c, unsigned kinds, bool nai_ok) {
    Src& s = c.src; Any g; std::vector<int> ks;
    for (int k = 0; k < N_KIND; ++k) if (kinds >> k & 1) { ks.push_back(k); if (k == K_FWD) { ks.push_back(k); ks.push_back(k); } if (k == K_REV) ks.push_back(k); }
    g.kind = AnyKind(s.pick(ks));
    if (g.kind == K_FWD) { g.f = gen_fwd(c, 1, 1, nai_ok); g.dec = g.f.dec; g.mixed = g.f.mixed; g.t = g.f.t; return g; }
    Pool p;
    if (g.kind == K_REV) {
        if (s.draw(3) != 2) { std::vector<int> ops; for (int i = 0; i <= MUL_REV; ++i) ops.push_back(i); g.r = gen_rev(c, ops, 1, 1, nai_ok); }
        else {
            RevCase& r = g.r; r.op = RevId(CANCEL_PLUS + (int)s.draw(4)); r.t = Ty(s.draw(3)); r.n = 2; r.dec = s.draw(2); r.mixed = s.draw(3) == 2; r.route = r.mixed ? (int)s.draw(2) : (int)s.draw(3); c.label(std::string("op:") + rev_name[r.op]);
            for (int i = 0; i < 2; ++i) { Ty t = r.ta[i] = r.mixed ? Ty(s.draw(3)) : r.t; IV x = coerce(i ? gen_iv_near(s, t, r.x[0], p) : gen_iv(s, t, &p), t); r.x[i] = r.a[i].x = x; r.a[i].d = r.dec ? gen_dec_for(s, x) : COM; if (r.dec && nai_ok && s.draw(24) == 23) { r.a[i].d = ILL; r.a[i].x = IV(); } }
        }
        g.dec = g.r.dec; g.mixed = g.r.mixed; g.t = g.r.t; return g;
    }
    g.t = Ty(s.draw(3)); g.dec = s.draw(2);
    auto iv = [&](int i, Ty t) { g.ta[i] = t; g.a[i].x = coerce(i ? gen_iv_near(s, t, g.a[0].x, p) : gen_iv(s, t, &p), t); g.a[i].d = g.dec ? gen_dec_for(s, g.a[i].x) : COM; if (g.dec && nai_ok && s.draw(24) == 23) { g.a[i].d = ILL; g.a[i].x = IV(); } };
    g.ta[0] = g.ta[1] = g.ta[2] = g.t;
    switch (g.kind) {
    case K_PAIR: g.n = 2; g.mixed = s.draw(3) == 2; for (int i = 0; i < 2; ++i) iv(i, g.mixed ? Ty(s.draw(3)) : g.t); g.route = g.mixed ? (int)s.draw(2) : (int)s.draw(3); break;
    case K_CMP: { g.n = 2; g.mixed = s.draw(3) == 2; for (int i = 0; i < 2; ++i) iv(i, g.mixed ? Ty(s.draw(3)) : g.t); g.op = (int)s.draw(N_CMP); g.route = (int)s.draw(3); while (!cmp_ok(CmpId(g.op), g.route)) g.route = (g.route + 1) % 3; break; }
    case K_OVERLAP: g.n = 2; g.mixed = s.draw(3) == 2; for (int i = 0; i < 2; ++i) iv(i, g.mixed ? Ty(s.draw(3)) : g.t); g.route = (int)s.draw(3); break;
    case K_PRED: g.op = (int)s.draw(N_PRED); if (g.op == P_NAI) g.dec = true; iv(0, g.t); g.route = (int)s.draw(3); break;
    case K_NUM: g.op = (int)s.draw(N_NUM); g.mixed = s.draw(3) == 2; iv(0, g.mixed ? Ty(s.draw(3)) : g.t); g.route = g.mixed ? (int)s.draw(2) : (int)s.draw(3); break;
    case K_MEMBER: iv(0, g.t); g.ta[1] = Ty(s.draw(3)); g.m = s.draw(2) && !g.a[0].x.empty ? round_ld(s.draw(2) ? g.a[0].x.lo : g.a[0].x.hi, g.ta[1], s.range(-1, 1)) : gen_num(s, g.ta[1]); g.route = (int)s.draw(3); break;
    case K_CONV: g.op = (int)s.draw(N_CONV); g.dec = g.op == DEC_DEC || g.op == BARE_DEC; iv(0, Ty(s.draw(3))); g.mixed = g.ta[0] != g.t; g.route = (int)s.draw(3); g.raw = raw_dec(Dec(s.draw(5))); break;
    case K_DECPART: g.dec = true; iv(0, g.t); g.route = (int)s.draw(3); break;
    case K_NUMS: { g.op = (int)s.draw(2); if (g.op) g.dec = true; for (int i = 0; i < 2; ++i) { g.ta[i] = Ty(s.draw(3)); LD x = gen_num(s, g.ta[i]); p.add(x); g.v.push_back(x); } if (s.draw(4) && g.v[0] > g.v[1]) { std::swap(g.v[0], g.v[1]); std::swap(g.ta[0], g.ta[1]); } g.route = (int)s.draw(2); g.raw = raw_dec(Dec(s.draw(5))); break; }
    case K_TEXT: g.text = gen_lit(s, g.t, g.dec); g.route = (int)s.draw(N_IN); break;
    case K_PRINT: {
        iv(0, g.t); g.route = (int)s.draw(2); OutFmt& f = g.fmt;
        if (s.draw(8) == 7) f.defaults = true; else { f.upper = (int)s.draw(2); f.form = s.draw(2) ? (int)s.draw(4) : 0; f.num = (int)s.draw(4); f.special = (int)s.draw(3); f.nopunct = s.draw(4) == 3; f.uexp = (int)s.draw(2); f.dnum = s.draw(8) == 7;
            if (s.draw(2)) f.prec = (unsigned)s.range(1, 40); if (s.draw(3) == 2) f.width = (unsigned)s.range(0, 60); if (s.draw(3) == 2) f.swidth = (unsigned)s.range(0, 80); }
        break; }
    case K_REDUCE: { g.op = (int)s.draw(N_RED); g.rnd = (int)s.draw(4); g.route = (int)s.draw(5); int n = s.range(0, 5); for (int i = 0; i < n; ++i) { LD x = gen_rel(s, g.t, p), y = gen_rel(s, g.t, p); p.add(x); g.v.push_back(x); g.w.push_back(y); } break; }
    default: break; }
    return g;
}
}
