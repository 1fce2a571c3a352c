// Interval branch-and-prune decision procedure over the exact IEEE / bit-vector semantics of Expr.
// UNSAT: every box of the (finite or bounded) domain was refuted by interval evaluation, where each operation's
// interval is exact under correct rounding (libm calls widened by a few ulps). SAT: a point that evaluates to true natively.
#include "solver.h"
#include <chrono>
namespace {
double nowI() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Iv { double lo = 0, hi = 0; uint64_t a = 0, b = 0; bool nan = false; bool f = false; };
struct Node { Op op; Ty ty; unsigned w; uint32_t aux; int k[3]; const Expr *e; unsigned kw; Ty kty; };
typedef __int128 s128;
const double INF = INFINITY;
static inline bool isF(const Expr *e) { return e->ty != Ty::BV; }
static double dn(double x, int n = 4) { while (n--) x = std::nextafter(x, -INF); return x; }
static double up(double x, int n = 4) { while (n--) x = std::nextafter(x, INF); return x; }
static uint64_t enc(double d, Ty t) { return t == Ty::F64 ? d2b(d) : f2b((float)d); }
static double dec(uint64_t b, Ty t) { return t == Ty::F64 ? b2d(b) : (double)b2f(b); }
struct Tape {
  std::vector<Node> n; std::unordered_map<const Expr *, int> idx; std::vector<Iv> v; std::unordered_map<uint32_t, int> varPos; std::vector<int> varNode;
  std::vector<uint32_t> vars;
  int add(const Expr *e) {
    auto it = idx.find(e); if (it != idx.end()) return it->second;
    std::vector<std::pair<const Expr *, int>> st; st.push_back({e, 0});
    while (!st.empty()) { auto &t = st.back(); const Expr *x = t.first; if (idx.count(x)) { st.pop_back(); continue; } if (t.second < 3) { const Expr *c = x->k[t.second++]; if (c && !idx.count(c)) st.push_back({c, 0}); continue; }
      Node q; q.op = x->op; q.ty = x->ty; q.w = x->width; q.aux = x->aux; q.e = x; q.kw = x->k[0] ? x->k[0]->width : 0; q.kty = x->k[0] ? x->k[0]->ty : Ty::BV; for (int i = 0; i < 3; i++) q.k[i] = x->k[i] ? idx[x->k[i]] : -1;
      idx[x] = (int)n.size(); n.push_back(q); st.pop_back(); }
    return idx[e]; }
};
static Iv full(unsigned w) { Iv r; r.a = 0; r.b = maskw(w); return r; }
static Iv fullF() { Iv r; r.f = true; r.lo = -INF; r.hi = INF; r.nan = true; return r; }
static Iv fr(double lo, double hi, bool nan) { Iv r; r.f = true; r.nan = nan; if (std::isnan(lo) || std::isnan(hi)) return fullF(); r.lo = lo; r.hi = hi; return r; }
static Iv wrap(s128 lo, s128 hi, unsigned w) { s128 m = (s128)1 << w; if (hi - lo >= m) return full(w); s128 q = lo >= 0 ? lo / m : -((-lo + m - 1) / m); s128 q2 = hi >= 0 ? hi / m : -((-hi + m - 1) / m); if (q != q2) return full(w); Iv r; r.a = (uint64_t)(lo - q * m); r.b = (uint64_t)(hi - q * m); return r; }
static bool sgn(const Iv &x, unsigned w, s128 &lo, s128 &hi) { uint64_t h = 1ull << (w - 1); if (x.b < h) { lo = x.a; hi = x.b; return true; } if (x.a >= h) { lo = (s128)sx(x.a, w); hi = (s128)sx(x.b, w); return true; } lo = -(s128)h; hi = (s128)h - 1; return false; }
static inline bool one(const Iv &x) { return x.f ? (x.lo == x.hi && !x.nan && !(x.lo == 0)) : x.a == x.b; }
static bool single(const Iv &x) { return x.f ? (x.lo == x.hi && !x.nan) : x.a == x.b; }
static Iv tri(int t) { Iv r; r.a = t == 1; r.b = t != 0; return r; }   // 0 false 1 true 2 unknown
static double fb(Op op, double a, double b, Ty t) { return dec(foldFBin(op, enc(a, t), enc(b, t), t), t); }
static double f1(Op op, double a, Ty t) { return dec(foldFUn(op, enc(a, t), t), t); }

static Iv mulF(const Iv &x, const Iv &y, Ty t, bool same) {
  if (same) { double a = fb(Op::FMUL, x.lo, x.lo, t), b = fb(Op::FMUL, x.hi, x.hi, t); double lo = (x.lo <= 0 && x.hi >= 0) ? 0 : std::min(a, b); return fr(lo, std::max(a, b), x.nan); }
  double p[4] = {fb(Op::FMUL, x.lo, y.lo, t), fb(Op::FMUL, x.lo, y.hi, t), fb(Op::FMUL, x.hi, y.lo, t), fb(Op::FMUL, x.hi, y.hi, t)}; double lo = INF, hi = -INF; for (double d : p) { if (std::isnan(d)) return fullF(); lo = std::min(lo, d); hi = std::max(hi, d); }
  bool xi = std::isinf(x.lo) || std::isinf(x.hi), yi = std::isinf(y.lo) || std::isinf(y.hi); bool n = x.nan || y.nan || (xi && y.lo <= 0 && y.hi >= 0) || (yi && x.lo <= 0 && x.hi >= 0); return fr(lo, hi, n); }
static Iv callF(const std::string &fn, const Iv &x, const Iv *y, Ty t, uint32_t) {
  if (single(x) && (!y || single(*y))) { double d = dec(foldFCall(fn, t, enc(x.lo, t), y ? enc(y->lo, t) : 0), t); if (!std::isnan(d)) return fr(d, d, false); return fullF(); }
  bool n = x.nan || (y && y->nan); auto C = [&](double a, double b) { return dec(foldFCall(fn, t, enc(a, t), enc(b, t)), t); };
  std::string b = fn; if (!b.empty() && b.back() == 'f' && b != "f") { std::string q = b.substr(0, b.size() - 1); if (t == Ty::F32) b = q; }
  if (b == "sin" || b == "cos") { if (std::isinf(x.lo) || std::isinf(x.hi) || x.hi - x.lo >= 6.28) return fr(-1, 1, n || std::isinf(x.lo) || std::isinf(x.hi)); double a = C(x.lo, 0), c = C(x.hi, 0), lo = std::min(a, c), hi = std::max(a, c); double ph = b == "sin" ? 0.25 : 0; // maxima at (k + ph) * 2pi, minima at half turn later
    const double T = 6.283185307179586; double s = 1e-12; if (std::floor(x.hi / T - ph + s) >= std::ceil(x.lo / T - ph - s)) hi = 1; double pm = ph + 0.5; if (std::floor(x.hi / T - pm + s) >= std::ceil(x.lo / T - pm - s)) lo = -1; return fr(std::max(-1.0, dn(lo)), std::min(1.0, up(hi)), n); }
  if (b == "atan" || b == "exp") return fr(dn(C(x.lo, 0)), up(C(x.hi, 0)), n);
  if (b == "log" || b == "log10") { if (x.lo <= 0) return fullF(); return fr(dn(C(x.lo, 0)), up(C(x.hi, 0)), n); }
  if (b == "acos" || b == "asin") { if (x.lo < -1 || x.hi > 1) { double l = std::max(-1.0, x.lo), h = std::min(1.0, x.hi); if (l > h) return fullF(); double p = C(l, 0), q = C(h, 0); return fr(dn(std::min(p, q)), up(std::max(p, q)), true); } double p = C(x.lo, 0), q = C(x.hi, 0); return fr(dn(std::min(p, q)), up(std::max(p, q)), n); }
  if (b == "fabs") return fullF();
  if (b == "atan2" && y) { if (n) return fullF(); const Iv &Y = x, &X = *y; if (X.lo > 0 || Y.lo > 0 || Y.hi < 0) { double lo = INF, hi = -INF; for (int i = 0; i < 4; i++) { double d = C(i & 1 ? Y.hi : Y.lo, i & 2 ? X.hi : X.lo); lo = std::min(lo, d); hi = std::max(hi, d); } return fr(dn(lo), up(hi), false); } return fr(-3.1415926535897940, 3.1415926535897940, false); }
  if (b == "hypot" && y) { auto ab = [](const Iv &q, double &l, double &h) { l = (q.lo <= 0 && q.hi >= 0) ? 0 : std::min(std::fabs(q.lo), std::fabs(q.hi)); h = std::max(std::fabs(q.lo), std::fabs(q.hi)); }; double l1, h1, l2, h2; ab(x, l1, h1); ab(*y, l2, h2); return fr(std::max(0.0, dn(C(l1, l2))), up(C(h1, h2)), n); }
  if ((b == "fmin" || b == "fmax") && y && !n) { double p = b == "fmin" ? std::min(x.lo, y->lo) : std::max(x.lo, y->lo), q = b == "fmin" ? std::min(x.hi, y->hi) : std::max(x.hi, y->hi); return fr(p, q, false); }
  if (b == "pow" && y && single(*y)) { double e = y->lo; if (x.lo > 0) { double p = C(x.lo, e), q = C(x.hi, e); return fr(dn(std::min(p, q)), up(std::max(p, q)), n); } if (e == 2) { double p = C(x.lo, e), q = C(x.hi, e); double lo = (x.lo <= 0 && x.hi >= 0) ? 0 : std::min(p, q); return fr(std::max(0.0, dn(lo)), up(std::max(p, q)), n); } if (e == 1 || e == 3) return fr(dn(C(x.lo, e)), up(C(x.hi, e)), n); }
  if (b == "pow" && y && single(x) && x.lo > 0) { double p = C(x.lo, y->lo), q = C(x.lo, y->hi); return fr(dn(std::min(p, q)), up(std::max(p, q)), n); }
  if (b == "fmod" && y) { double m = std::max(std::fabs(y->lo), std::fabs(y->hi)); return fr(-m, m, true); }
  return fullF();
}
static Iv evalNode(const Node &q, const std::vector<Iv> &v) {
  const Iv z; const Iv &x = q.k[0] >= 0 ? v[q.k[0]] : z; const Iv &y = q.k[1] >= 0 ? v[q.k[1]] : z; const Iv &u = q.k[2] >= 0 ? v[q.k[2]] : z; unsigned w = q.w; Ty t = q.ty;
  switch (q.op) {
  case Op::ADD: return wrap((s128)x.a + y.a, (s128)x.b + y.b, w);
  case Op::SUB: if (q.k[0] == q.k[1]) return full(w).a ? z : Iv(); return wrap((s128)x.a - y.b, (s128)x.b - y.a, w);
  case Op::MUL: { if (x.b <= 0xffffffffffffull && y.b <= 0x7fff) return wrap((s128)x.a * y.a, (s128)x.b * y.b, w); s128 l1, h1, l2, h2; if (sgn(x, w, l1, h1) && sgn(y, w, l2, h2)) { auto big = [](s128 k) { return k > ((s128)1 << 62) || k < -((s128)1 << 62); }; if (!big(l1) && !big(h1) && !big(l2) && !big(h2)) { s128 p[4] = {l1 * l2, l1 * h2, h1 * l2, h1 * h2}; s128 lo = p[0], hi = p[0]; for (s128 k : p) { if (k < lo) lo = k; if (k > hi) hi = k; } return wrap(lo, hi, w); } } break; }
  case Op::UDIV: if (y.a > 0) { Iv r; r.a = x.a / y.b; r.b = x.b / y.a; return r; } break;
  case Op::UREM: if (y.a == y.b && y.a > 0) { if (x.b < y.a) return x; if (x.a / y.a == x.b / y.a) { Iv r; r.a = x.a % y.a; r.b = x.b % y.a; return r; } Iv r; r.a = 0; r.b = y.a - 1; return r; } break;
  case Op::SDIV: case Op::SREM: { s128 l, h, l2, h2; if (sgn(x, w, l, h) && sgn(y, w, l2, h2) && l >= 0 && l2 > 0) { Iv r; if (q.op == Op::SDIV) { r.a = (uint64_t)(l / h2); r.b = (uint64_t)(h / l2); } else if (h < l2) { r.a = (uint64_t)l; r.b = (uint64_t)h; } else { r.a = 0; r.b = (uint64_t)std::min(h2 - 1, h); } return r; } break; }
  case Op::AND: if (w == 1) { if ((x.a == x.b && !x.a) || (y.a == y.b && !y.a)) return tri(0); if (x.a && y.a) return tri(1); return tri(2); } if (single(x) && single(y)) break; { Iv r; r.a = 0; r.b = std::min(x.b, y.b); if (y.a == y.b && (y.a & (y.a + 1)) == 0 && y.a) { uint64_t m = y.a; if ((x.a & ~m) == (x.b & ~m)) { r.a = x.a & m; r.b = x.b & m; } } return r; }
  case Op::OR: if (w == 1) { if (x.a || y.a) return tri(1); if (!x.b && !y.b) return tri(0); return tri(2); } if (single(x) && single(y)) break; { Iv r; r.a = std::max(x.a, y.a); uint64_t m = x.b | y.b; m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32; r.b = m & maskw(w); return r; }
  case Op::XOR: if (w == 1) { if (single(x) && single(y)) return tri(x.a ^ y.a); return tri(2); } if (single(x) && single(y)) break; { Iv r; r.a = 0; uint64_t m = x.b | y.b; m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32; r.b = m & maskw(w); return r; }
  case Op::SHL: if (y.a == y.b && y.a < w) return wrap((s128)((u128)x.a << y.a), (s128)((u128)x.b << y.a), w); break;
  case Op::LSHR: if (y.a == y.b && y.a < w) { Iv r; r.a = x.a >> y.a; r.b = x.b >> y.a; return r; } break;
  case Op::ASHR: if (y.a == y.b && y.a < w) { s128 l, h; if (sgn(x, w, l, h)) { Iv r; r.a = (uint64_t)((int64_t)l >> y.a) & maskw(w); r.b = (uint64_t)((int64_t)h >> y.a) & maskw(w); return r; } } break;
  case Op::EQ: if (q.k[0] == q.k[1]) return tri(1); if (x.f || y.f) break; if (single(x) && single(y)) return tri(x.a == y.a); if (x.b < y.a || y.b < x.a) return tri(0); return tri(2);
  case Op::ULT: if (x.b < y.a) return tri(1); if (x.a >= y.b) return tri(0); return tri(2);
  case Op::ULE: if (x.b <= y.a) return tri(1); if (x.a > y.b) return tri(0); return tri(2);
  case Op::SLT: case Op::SLE: { s128 l, h, l2, h2; sgn(x, q.kw, l, h); sgn(y, q.kw, l2, h2); if (q.op == Op::SLT) { if (h < l2) return tri(1); if (l >= h2) return tri(0); } else { if (h <= l2) return tri(1); if (l > h2) return tri(0); } return tri(2); }
  case Op::ITE: if (x.a == x.b) return x.a ? y : u; { Iv r; if (y.f) { r.f = true; r.nan = y.nan || u.nan; r.lo = std::min(y.lo, u.lo); r.hi = std::max(y.hi, u.hi); } else { r.a = std::min(y.a, u.a); r.b = std::max(y.b, u.b); } return r; }
  case Op::CONCAT: { unsigned wl = q.e->k[1]->width; Iv r; r.a = (x.a << wl) | y.a; r.b = (x.b << wl) | y.b; return r; }
  case Op::EXTRACT: { unsigned off = q.aux; uint64_t a = x.a >> off, b = x.b >> off, m = maskw(w); if ((a & ~m) == (b & ~m)) { Iv r; r.a = a & m; r.b = b & m; return r; } return full(w); }
  case Op::ZEXT: return x;
  case Op::SEXT: { s128 l, h; if (sgn(x, q.kw, l, h)) { Iv r; r.a = (uint64_t)l & maskw(w); r.b = (uint64_t)h & maskw(w); return r; } return full(w); }
  case Op::FADD: { bool n = x.nan || y.nan || ((std::isinf(x.lo) || std::isinf(x.hi)) && (std::isinf(y.lo) || std::isinf(y.hi))); return fr(fb(Op::FADD, x.lo, y.lo, t), fb(Op::FADD, x.hi, y.hi, t), n); }
  case Op::FSUB: { if (q.k[0] == q.k[1] && !x.nan && !std::isinf(x.lo) && !std::isinf(x.hi)) return fr(0, 0, false); bool n = x.nan || y.nan || ((std::isinf(x.lo) || std::isinf(x.hi)) && (std::isinf(y.lo) || std::isinf(y.hi))); return fr(fb(Op::FSUB, x.lo, y.hi, t), fb(Op::FSUB, x.hi, y.lo, t), n); }
  case Op::FMUL: return mulF(x, y, t, q.k[0] == q.k[1]);
  case Op::FDIV: { if (y.lo <= 0 && y.hi >= 0) { if (single(x) && single(y)) { double d = fb(Op::FDIV, x.lo, y.lo, t); (void)d; } return fullF(); } double p[4] = {fb(Op::FDIV, x.lo, y.lo, t), fb(Op::FDIV, x.lo, y.hi, t), fb(Op::FDIV, x.hi, y.lo, t), fb(Op::FDIV, x.hi, y.hi, t)}; double lo = INF, hi = -INF; for (double d : p) { if (std::isnan(d)) return fullF(); lo = std::min(lo, d); hi = std::max(hi, d); } bool n = x.nan || y.nan || ((std::isinf(x.lo) || std::isinf(x.hi)) && (std::isinf(y.lo) || std::isinf(y.hi))); return fr(lo, hi, n); }
  case Op::FREM: { double m = std::max(std::fabs(y.lo), std::fabs(y.hi)); return fr(-m, m, true); }
  case Op::FNEG: return fr(-x.hi, -x.lo, x.nan);
  case Op::FABS: { double lo = (x.lo <= 0 && x.hi >= 0) ? 0 : std::min(std::fabs(x.lo), std::fabs(x.hi)); return fr(lo, std::max(std::fabs(x.lo), std::fabs(x.hi)), x.nan); }
  case Op::FSQRT: { if (x.hi < 0) return fullF(); bool n = x.nan || x.lo < 0; return fr(x.lo <= 0 ? 0 : f1(Op::FSQRT, x.lo, t), f1(Op::FSQRT, x.hi, t), n); }
  case Op::FFLOOR: case Op::FCEIL: case Op::FTRUNC: case Op::FROUND: case Op::FRINT: return fr(f1(q.op, x.lo, t), f1(q.op, x.hi, t), x.nan);
  case Op::FPEXT: case Op::FPTRUNC: { if (q.kty == t) return x; if (t == Ty::F32) return fr((double)(float)x.lo, (double)(float)x.hi, x.nan); return x; }
  case Op::SITOFP: { s128 l, h; sgn(x, q.kw, l, h); if (t == Ty::F64) return fr((double)(int64_t)l, (double)(int64_t)h, false); return fr((double)(float)(int64_t)l, (double)(float)(int64_t)h, false); }
  case Op::UITOFP: if (t == Ty::F64) return fr((double)x.a, (double)x.b, false); return fr((double)(float)x.a, (double)(float)x.b, false);
  case Op::FPTOSI: { if (x.nan) return full(w); double m = std::ldexp(1.0, (int)w - 1); if (!(x.lo > -m && x.hi < m)) return full(w); int64_t l = (int64_t)x.lo, h = (int64_t)x.hi; if ((l < 0) != (h < 0)) return full(w); Iv r; r.a = (uint64_t)l & maskw(w); r.b = (uint64_t)h & maskw(w); return r; }
  case Op::FPTOUI: { if (x.nan) return full(w); double m = std::ldexp(1.0, (int)w); if (!(x.lo > -1 && x.hi < m)) return full(w); Iv r; r.a = (uint64_t)std::max(0.0, x.lo); r.b = (uint64_t)std::max(0.0, x.hi); return r; }
  case Op::FCMP: { bool n = x.nan || y.nan; bool eq, lt, gt; if (q.k[0] == q.k[1]) { eq = true; lt = gt = false; } else { eq = !(x.hi < y.lo || y.hi < x.lo); lt = x.lo < y.hi; gt = x.hi > y.lo; } unsigned P = q.aux; unsigned pos = (eq ? 1u : 0) | (gt ? 2u : 0) | (lt ? 4u : 0) | (n ? 8u : 0); if ((pos & P) == 0) return tri(0); if ((pos & ~P) == 0) return tri(1); return tri(2); }
  case Op::FCALL: return callF(gFuncs[q.aux], x, q.k[1] >= 0 ? &y : nullptr, t, q.aux);
  case Op::BC_F2I: if (!x.nan && x.lo > 0) { Iv r; r.a = enc(x.lo, q.kty); r.b = enc(x.hi, q.kty); return r; } return full(w);
  case Op::BC_I2F: if (x.a == x.b) { double d = dec(x.a, t); if (!std::isnan(d)) return fr(d, d, false); } return fullF();
  default: break;
  }
  if (t == Ty::BV) { if (q.k[1] >= 0 && !x.f && !y.f && single(x) && single(y) && q.op < Op::EQ) { if ((q.op == Op::UDIV || q.op == Op::SDIV || q.op == Op::UREM || q.op == Op::SREM) && y.a == 0) return full(w); Iv r; r.a = r.b = foldBin(q.op, x.a, y.a, w); return r; } return full(w); }
  return fullF();
}
struct Box { std::vector<Iv> d; };
}
Res icpCheck(const std::vector<const Expr *> &conj, Model *out, double seconds, uint64_t maxEvals, uint64_t *boxes) {
  Tape T; std::vector<int> roots; for (auto e : conj) roots.push_back(T.add(e));
  if (T.n.size() > 200000) return Res::UNKNOWN;
  T.v.resize(T.n.size()); std::vector<int> vn; std::vector<uint32_t> vi;
  for (size_t i = 0; i < T.n.size(); i++) { Node &q = T.n[i]; if (q.op == Op::CONST) { Iv r; if (q.ty == Ty::BV) r.a = r.b = q.e->cval; else { double d = dec(q.e->cval, q.ty); if (std::isnan(d)) r = fullF(); else r = fr(d, d, false); } T.v[i] = r; } else if (q.op == Op::VAR) { vn.push_back((int)i); vi.push_back((uint32_t)q.e->cval); } }
  if (vn.size() > 24) return Res::UNKNOWN;
  Box b0; { std::vector<std::pair<uint32_t, int>> o; for (size_t i = 0; i < vn.size(); i++) o.push_back({vi[i], vn[i]}); std::sort(o.begin(), o.end()); for (size_t i = 0; i < o.size(); i++) { vi[i] = o[i].first; vn[i] = o[i].second; } }
  std::vector<double> w0; for (auto x : vi) { auto &g = gVars[x]; Iv r; if (g.ty == Ty::BV) { r.a = g.lo; r.b = g.hi; w0.push_back((double)(g.hi - g.lo) + 1); } else { r.f = true; r.lo = g.flo; r.hi = g.fhi; w0.push_back(std::max(1e-300, g.fhi - g.flo)); } b0.d.push_back(r); }
  std::vector<int> body; for (size_t i = 0; i < T.n.size(); i++) if (T.n[i].op != Op::CONST && T.n[i].op != Op::VAR) body.push_back((int)i);
  double t0 = nowI(); uint64_t evals = 0; bool unk = false; std::vector<Box> st; st.push_back(b0);
  auto fwd = [&](const Box &b) { for (size_t i = 0; i < vn.size(); i++) T.v[vn[i]] = b.d[i]; for (int i : body) { const Iv r = evalNode(T.n[i], T.v); T.v[i] = r; } evals += body.size() + 1; };
  auto metric = [&](bool &falsified) { double m = 0; falsified = false; for (int r : roots) { Iv &x = T.v[r]; if (x.a == x.b) { if (!x.a) falsified = true; continue; } const Node *q = &T.n[r]; 
      if (q->op == Op::XOR && q->k[0] >= 0) { const Node *s = &T.n[q->k[0]]; if (s->op != Op::CONST) q = s; else if (q->k[1] >= 0) q = &T.n[q->k[1]]; }
      if (q->op == Op::FCMP) { double a = T.v[q->k[0]].hi - T.v[q->k[0]].lo, c = T.v[q->k[1]].hi - T.v[q->k[1]].lo; double s = a + c; m += std::isfinite(s) ? std::min(s, 1e12) : 1e12; } else if (q->k[0] >= 0 && !T.v[q->k[0]].f) m += (double)(T.v[q->k[0]].b - T.v[q->k[0]].a) + 1; else m += 1; } return m; };
  static uint64_t gen = 1ull << 60;
  while (!st.empty()) {
    if (evals > maxEvals || ((boxes && (*boxes & 63) == 0) && nowI() - t0 > seconds)) return Res::UNKNOWN;
    if (boxes) ++*boxes;
    Box b = std::move(st.back()); st.pop_back(); fwd(b);
    bool dead = false, allTrue = true; for (int r : roots) { if (!T.v[r].b) { dead = true; break; } if (!T.v[r].a) allTrue = false; }
    if (dead) continue;
    // candidate point
    { Model m; for (size_t i = 0; i < vi.size(); i++) { const Iv &x = b.d[i]; if (x.f) m[vi[i]] = enc(x.lo + (x.hi - x.lo) / 2, gVars[vi[i]].ty); else m[vi[i]] = x.a + (x.b - x.a) / 2; }
      gEvalGen = ++gen; bool ok = true; for (auto e : conj) if (!evalExpr(e, m)) { ok = false; break; } evals += body.size();
      if (ok) { if (out) *out = m; return Res::SAT; } if (allTrue) { unk = true; continue; } }
    // choose a variable to split
    std::vector<size_t> cand; for (size_t i = 0; i < vi.size(); i++) { const Iv &x = b.d[i]; if (x.f) { if (x.hi - x.lo > 1e-13 * std::max(1.0, std::fabs(x.lo)) ) cand.push_back(i); } else if (x.a != x.b) cand.push_back(i); }
    if (cand.empty()) { bool anyF = false; for (auto &x : b.d) if (x.f && x.lo != x.hi) anyF = true; if (anyF) unk = true; continue; } // all integers fixed: the point evaluation above decided
    size_t best = cand[0]; if (cand.size() > 1) { double bm = INF; for (size_t i : cand) { Box c = b; Iv &x = c.d[i]; if (x.f) { double md = x.lo + (x.hi - x.lo) / 2; x.lo = x.hi = md; } else x.a = x.b = x.a + (x.b - x.a) / 2; fwd(c); bool fa; double m = metric(fa); double rel = b.d[i].f ? (b.d[i].hi - b.d[i].lo) / w0[i] : 0; if (m < bm * (1 - 1e-9) ) { bm = m; best = i; } (void)rel; } }
    Iv x = b.d[best]; Box c = b; if (x.f) { double md = x.lo + (x.hi - x.lo) / 2; if (x.lo < 0 && x.hi > 0 && md != 0 && std::fabs(md) < 1e-3 * (x.hi - x.lo)) md = 0; b.d[best].hi = md; c.d[best].lo = md; } else { uint64_t md = x.a + (x.b - x.a) / 2; b.d[best].b = md; c.d[best].a = md + 1; }
    st.push_back(std::move(c)); st.push_back(std::move(b));
  }
  return unk ? Res::UNKNOWN : Res::UNSAT;
}
