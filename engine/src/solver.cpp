#include "solver.h"
#include <chrono>
#include <cstdio>
#include <functional>
using z3::expr;
bool gVerbose = false;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

Solver::Solver() {}

bool Solver::holds(const Expr *e, const ModelBox &m) { gEvalGen = m.gen; return evalExpr(e, m.m) & 1; }

expr Solver::ratOf(double d) {
  // exact rational of a double
  if (d == 0) return c.real_val(0);
  int ex; double f = std::frexp(d, &ex); // d = f*2^ex
  int64_t m = (int64_t)std::ldexp(f, 53); ex -= 53;
  while ((m & 1) == 0 && ex < 0) { m >>= 1; ex++; }
  expr num = c.real_val((int64_t)m);
  if (ex == 0) return num;
  // 2^|ex| as decimal string
  int n = ex < 0 ? -ex : ex;
  std::string s = "1"; for (int i = 0; i < n; i++) { int carry = 0; for (int k = (int)s.size() - 1; k >= 0; k--) { int v = (s[k] - '0') * 2 + carry; s[k] = '0' + v % 10; carry = v / 10; } if (carry) s.insert(s.begin(), '0' + carry); }
  char buf[32]; snprintf(buf, 32, "%lld", (long long)m);
  if (ex < 0) { std::string q = std::string(buf) + "/" + s; return c.real_val(q.c_str()); }
  return (num * c.real_val(s.c_str())).simplify();
}

expr Solver::BV(const Expr *e) {
  auto it = bvMemo.find(e); if (it != bvMemo.end()) return it->second;
  auto b2v = [&](const expr &x) { return z3::ite(x, c.bv_val(1, 1), c.bv_val(0, 1)); };
  auto K = [&](int i) { return BV(e->k[i]); };
  expr r(c);
  switch (e->op) {
  case Op::CONST:
    if (e->ty == Ty::BV) r = c.bv_val((uint64_t)e->cval, e->width);
    else r = expr(c, Z3_mk_fpa_to_fp_bv(c, c.bv_val((uint64_t)e->cval, e->width), e->ty == Ty::F64 ? Z3_mk_fpa_sort_double(c) : Z3_mk_fpa_sort_single(c)));
    break;
  case Op::VAR: { std::string n = "v" + std::to_string(e->cval);
    r = e->ty == Ty::BV ? c.bv_const(n.c_str(), e->width) : expr(c, Z3_mk_const(c, c.str_symbol(n.c_str()), Z3_mk_fpa_sort_double(c))); break; }
  case Op::ADD: r = K(0) + K(1); break; case Op::SUB: r = K(0) - K(1); break; case Op::MUL: r = K(0) * K(1); break;
  case Op::UDIV: r = z3::udiv(K(0), K(1)); break; case Op::SDIV: r = K(0) / K(1); break; case Op::UREM: r = z3::urem(K(0), K(1)); break; case Op::SREM: r = z3::srem(K(0), K(1)); break;
  case Op::AND: r = K(0) & K(1); break; case Op::OR: r = K(0) | K(1); break; case Op::XOR: r = K(0) ^ K(1); break;
  case Op::SHL: r = z3::shl(K(0), K(1)); break; case Op::LSHR: r = z3::lshr(K(0), K(1)); break; case Op::ASHR: r = z3::ashr(K(0), K(1)); break;
  case Op::EQ: r = b2v(K(0) == K(1)); break; case Op::ULT: r = b2v(z3::ult(K(0), K(1))); break; case Op::ULE: r = b2v(z3::ule(K(0), K(1))); break;
  case Op::SLT: r = b2v(K(0) < K(1)); break; case Op::SLE: r = b2v(K(0) <= K(1)); break;
  case Op::ITE: r = z3::ite(K(0) == c.bv_val(1, 1), K(1), K(2)); break;
  case Op::CONCAT: r = z3::concat(K(0), K(1)); break;
  case Op::EXTRACT: r = K(0).extract(e->aux + e->width - 1, e->aux); break;
  case Op::ZEXT: r = z3::zext(K(0), e->width - e->k[0]->width); break; case Op::SEXT: r = z3::sext(K(0), e->width - e->k[0]->width); break;
  default: {
    Z3_ast rne = Z3_mk_fpa_rne(c); expr rm(c, rne);
    Z3_sort so = e->ty == Ty::F32 ? Z3_mk_fpa_sort_single(c) : Z3_mk_fpa_sort_double(c);
    switch (e->op) {
    case Op::FADD: r = expr(c, Z3_mk_fpa_add(c, rm, K(0), K(1))); break; case Op::FSUB: r = expr(c, Z3_mk_fpa_sub(c, rm, K(0), K(1))); break;
    case Op::FMUL: r = expr(c, Z3_mk_fpa_mul(c, rm, K(0), K(1))); break; case Op::FDIV: r = expr(c, Z3_mk_fpa_div(c, rm, K(0), K(1))); break;
    case Op::FNEG: r = expr(c, Z3_mk_fpa_neg(c, K(0))); break; case Op::FABS: r = expr(c, Z3_mk_fpa_abs(c, K(0))); break; case Op::FSQRT: r = expr(c, Z3_mk_fpa_sqrt(c, rm, K(0))); break;
    case Op::FFLOOR: r = expr(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), K(0))); break; case Op::FCEIL: r = expr(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), K(0))); break;
    case Op::FTRUNC: r = expr(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), K(0))); break; case Op::FROUND: r = expr(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), K(0))); break; case Op::FRINT: r = expr(c, Z3_mk_fpa_round_to_integral(c, rne, K(0))); break;
    case Op::FCMP: { expr a = K(0), b = K(1); expr x = c.bool_val(false);
      if (e->aux & 1) x = x || expr(c, Z3_mk_fpa_eq(c, a, b)); if (e->aux & 2) x = x || expr(c, Z3_mk_fpa_gt(c, a, b)); if (e->aux & 4) x = x || expr(c, Z3_mk_fpa_lt(c, a, b));
      if (e->aux & 8) x = x || expr(c, Z3_mk_fpa_is_nan(c, a)) || expr(c, Z3_mk_fpa_is_nan(c, b)); r = b2v(x); break; }
    case Op::SITOFP: r = expr(c, Z3_mk_fpa_to_fp_signed(c, rm, K(0), so)); break; case Op::UITOFP: r = expr(c, Z3_mk_fpa_to_fp_unsigned(c, rm, K(0), so)); break;
    case Op::FPTOSI: r = expr(c, Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), K(0), e->width)); break; case Op::FPTOUI: r = expr(c, Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), K(0), e->width)); break;
    case Op::FPEXT: case Op::FPTRUNC: r = expr(c, Z3_mk_fpa_to_fp_float(c, rm, K(0), so)); break;
    case Op::BC_I2F: r = expr(c, Z3_mk_fpa_to_fp_bv(c, K(0), so)); break;
    case Op::BC_F2I: r = expr(c, Z3_mk_fpa_to_ieee_bv(c, K(0))); break;
    default: { std::string n = "abs" + std::to_string(e->id); r = expr(c, Z3_mk_const(c, c.str_symbol(n.c_str()), e->ty == Ty::BV ? Z3_mk_bv_sort(c, e->width) : so)); }
    } }
  }
  bvMemo.emplace(e, r); return r;
}

static std::string pow2s(unsigned n) { u128 v = (u128)1 << n; std::string s; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } return s; }

expr Solver::S(const Expr *e) {
  uint64_t sg = 1ull << (e->width - 1);
  if (e->op == Op::CONST) return c.int_val((int64_t)sx(e->cval, e->width));
  expr t = I(e);
  if (e->hi < sg) return t;
  expr p = c.int_val(pow2s(e->width).c_str());
  if (e->lo >= sg) return t - p;
  return z3::ite(t >= c.int_val(pow2s(e->width - 1).c_str()), t - p, t);
}

// unsigned integer value of a bit-vector term
expr Solver::I(const Expr *e) {
  auto &memo = tr[mode].I; auto it = memo.find(e); if (it != memo.end()) return it->second;
  expr r(c); unsigned w = e->width;
  expr P = c.int_val(pow2s(w).c_str());
  auto fresh = [&]() { std::string n = "ia" + std::to_string(e->id); expr x = c.int_const(n.c_str()); addSide(e, x >= c.int_val((uint64_t)e->lo) && x <= c.int_val((uint64_t)e->hi)); return x; };
  const Expr *a = e->k[0], *b = e->k[1];
  if (w == 1 && (e->op == Op::AND || e->op == Op::OR || e->op == Op::XOR || e->op == Op::ITE || (e->op >= Op::EQ && e->op <= Op::SLE) || e->op == Op::FCMP)) {
    std::string n = "bk" + std::to_string(e->id); expr k = c.bool_const(n.c_str());
    addSide(e, z3::implies(k, B(e, false))); addSide(e, z3::implies(!k, B(e, true)));
    r = z3::ite(k, c.int_val(1), c.int_val(0));
    memo.emplace(e, r); return r;
  }
  switch (e->op) {
  case Op::CONST: r = c.int_val((uint64_t)e->cval); break;
  case Op::VAR: { std::string n = "v" + std::to_string(e->cval); r = c.int_const(n.c_str()); break; }
  case Op::ADD: { expr t = I(a) + I(b); if ((u128)a->hi + b->hi <= maskw(w)) r = t; else if ((u128)a->lo + b->lo > maskw(w)) r = t - P; else r = z3::ite(t >= P, t - P, t); break; }
  case Op::SUB: { expr t = I(a) - I(b); if (a->lo >= b->hi) r = t; else if (a->hi < b->lo) r = t + P; else r = z3::ite(t < 0, t + P, t); break; }
  case Op::MUL: { if ((u128)a->hi * b->hi <= maskw(w)) r = I(a) * I(b); else if (a->op == Op::CONST || b->op == Op::CONST) r = z3::mod(S(a) * S(b), P); else r = fresh(); break; }
  case Op::UDIV: if (b->op == Op::CONST && b->cval) r = expr(c, Z3_mk_div(c, I(a), I(b))); else r = fresh(); break;
  case Op::UREM: if (b->op == Op::CONST && b->cval) r = z3::mod(I(a), I(b)); else r = fresh(); break;
  case Op::SDIV: case Op::SREM: { uint64_t sg = 1ull << (w - 1); if (b->op == Op::CONST && b->cval && b->cval < sg) { 
      if (a->hi < sg) r = e->op == Op::SDIV ? expr(c, Z3_mk_div(c, I(a), I(b))) : z3::mod(I(a), I(b));
      else { expr s = S(a), d = I(b); expr q = z3::ite(s >= 0, expr(c, Z3_mk_div(c, s, d)), -expr(c, Z3_mk_div(c, -s, d))); expr t = e->op == Op::SDIV ? q : s - q * d; r = z3::ite(t < 0, t + P, t); } } else r = fresh(); break; }
  case Op::AND: if (b->op == Op::CONST && (b->cval & (b->cval + 1)) == 0) r = z3::mod(I(a), c.int_val((uint64_t)(b->cval + 1))); else r = fresh(); break;
  case Op::OR: { // disjoint bits: high part multiple of 2^k, low part < 2^k
      auto tz = [](const Expr *x) -> unsigned { if (x->op == Op::SHL && x->k[1]->op == Op::CONST) return (unsigned)x->k[1]->cval; if (x->op == Op::CONST) return x->cval ? __builtin_ctzll(x->cval) : 64; if (x->op == Op::MUL && x->k[1]->op == Op::CONST && x->k[1]->cval) return __builtin_ctzll(x->k[1]->cval); return 0; };
      if (tz(a) < 64 && b->hi < (1ull << tz(a))) r = I(a) + I(b); else if (tz(b) < 64 && a->hi < (1ull << tz(b))) r = I(a) + I(b); else r = fresh(); break; }
  case Op::SHL: if (b->op == Op::CONST && b->cval < w) { expr t = I(a) * c.int_val(pow2s((unsigned)b->cval).c_str()); if (((u128)a->hi << b->cval) <= maskw(w)) r = t; else r = z3::mod(t, P); } else r = fresh(); break;
  case Op::LSHR: if (b->op == Op::CONST && b->cval < w) r = expr(c, Z3_mk_div(c, I(a), c.int_val(pow2s((unsigned)b->cval).c_str()))); else r = fresh(); break;
  case Op::ASHR: if (b->op == Op::CONST && b->cval < w) { expr t = expr(c, Z3_mk_div(c, S(a), c.int_val(pow2s((unsigned)b->cval).c_str()))); r = z3::ite(t < 0, t + P, t); } else r = fresh(); break;
  case Op::ITE: { std::string n = "bk" + std::to_string(a->id); 
      expr k = c.bool_const(n.c_str()); addSide(e, z3::implies(k, B(a, false))); addSide(e, z3::implies(!k, B(a, true))); r = z3::ite(k, I(b), I(e->k[2])); break; }
  case Op::ZEXT: r = I(a); break;
  case Op::SEXT: { expr s = S(a); uint64_t sg = 1ull << (a->width - 1); if (a->hi < sg) r = s; else r = z3::ite(s < 0, s + P, s); break; }
  case Op::EXTRACT: { expr t = I(a); if (e->aux) t = expr(c, Z3_mk_div(c, t, c.int_val(pow2s(e->aux).c_str()))); if ((a->hi >> e->aux) > maskw(w)) t = z3::mod(t, P); r = t; break; }
  case Op::CONCAT: r = I(a) * c.int_val(pow2s(b->width).c_str()) + I(b); break;
  case Op::FPTOSI: case Op::FPTOUI: { std::string nm = "ia" + std::to_string(e->id); expr n = c.int_const(nm.c_str()); expr x = R(a); expr ep = a->exactInt ? c.real_val(0) : ratOf(curEps > 0 ? curEps : 0.0); expr nr = z3::to_real(n);
      addSide(e, z3::implies(n > 0, nr <= x + ep && x < nr + 1 + ep)); addSide(e, z3::implies(n < 0, nr >= x - ep && x > nr - 1 - ep)); addSide(e, z3::implies(n == 0, x > -1 - ep && x < 1 + ep));
      if (a->flo > -std::ldexp(1.0, w - 1) && a->fhi < std::ldexp(1.0, w - 1) && !a->mayNaN) { if (a->flo >= 0) { addSide(e, n >= 0); r = n; } else r = z3::ite(n < 0, n + P, n); }
      else r = z3::mod(n, P); break; }
  default: r = fresh(); break;
  }
  memo.emplace(e, r); return r;
}

expr Solver::R(const Expr *e) {
  auto &memo = tr[mode].R; auto it = memo.find(e); if (it != memo.end()) return it->second;
  expr r(c); const Expr *a = e->k[0], *b = e->k[1];
  std::string id = std::to_string(e->id);
  auto fresh = [&](const char *p) { expr x = c.real_const((p + id).c_str()); if (std::isfinite(e->flo)) addSide(e, x >= ratOf(e->flo)); if (std::isfinite(e->fhi)) addSide(e, x <= ratOf(e->fhi)); return x; };
  auto rnd = [&](int kind) { // kind: 0 floor 1 ceil 2 trunc 3 nearest
    expr n = c.int_const(("ri" + id).c_str()); expr x = R(a); expr ep = a->exactInt ? c.real_val(0) : ratOf(curEps > 0 ? curEps : 0.0); expr nr = z3::to_real(n);
    expr fl = nr <= x + ep && x < nr + 1 + ep, ce = nr >= x - ep && x > nr - 1 - ep;
    if (kind == 0) addSide(e, fl); else if (kind == 1) addSide(e, ce);
    else if (kind == 2) { addSide(e, z3::implies(x >= 0, fl)); addSide(e, z3::implies(x <= 0, ce)); }
    else addSide(e, 2 * nr <= 2 * x + 1 + ep && 2 * nr >= 2 * x - 1 - ep);
    return nr; };
  switch (e->op) {
  case Op::CONST: { double d = e->ty == Ty::F64 ? b2d(e->cval) : (double)b2f(e->cval); if (!std::isfinite(d)) r = c.real_const(("nf" + id).c_str()); else r = ratOf(d); break; }
  case Op::VAR: { std::string n = "v" + std::to_string(e->cval); r = c.real_const(n.c_str()); break; }
  case Op::FADD: r = R(a) + R(b); break; case Op::FSUB: r = R(a) - R(b); break; case Op::FMUL: r = R(a) * R(b); break;
  case Op::FDIV: if (b->op == Op::CONST && std::isfinite(b->flo) && b->flo != 0) { r = R(a) / ratOf(b->flo); } else { r = fresh("q"); expr d = R(b); addSide(e, z3::implies(d != 0, r * d == R(a))); } break;
  case Op::FNEG: r = -R(a); break;
  case Op::FABS: { expr x = R(a); if (a->flo >= 0) r = x; else r = z3::ite(x >= 0, x, -x); break; }
  case Op::FSQRT: { r = c.real_const(("sq" + id).c_str()); expr x = R(a); addSide(e, r >= 0); addSide(e, z3::implies(x >= 0, r * r == x)); break; }
  case Op::FFLOOR: r = rnd(0); break; case Op::FCEIL: r = rnd(1); break; case Op::FTRUNC: r = rnd(2); break; case Op::FROUND: case Op::FRINT: r = rnd(3); break;
  case Op::ITE: { std::string n = "bk" + std::to_string(a->id); expr k = c.bool_const(n.c_str()); addSide(e, z3::implies(k, B(a, false))); addSide(e, z3::implies(!k, B(a, true))); r = z3::ite(k, R(b), R(e->k[2])); break; }
  case Op::SITOFP: r = z3::to_real(S(a)); break;
  case Op::UITOFP: r = z3::to_real(I(a)); break;
  case Op::FPEXT: case Op::FPTRUNC: r = R(a); break;
  case Op::FCALL: {
    const std::string &f = gFuncs[e->aux];
    if (f == "hypot") { r = c.real_const(("hy" + id).c_str()); expr x = R(a), y = R(b); addSide(e, r >= 0); addSide(e, r * r == x * x + y * y); }
    else if (f == "sin" || f == "cos") { r = fresh("tg");
      // couple sin/cos of the same argument
      const Expr *o = mkFCall(f == "sin" ? "cos" : "sin", e->ty, a, nullptr);
      expr ro = c.real_const(("tg" + std::to_string(o->id)).c_str());
      addSide(e, r * r + ro * ro == 1);
    }
    else if (f == "atan2") { r = fresh("at"); expr y = R(a), x = R(b); 
      expr hp = ratOf(1.5707963267948966), ep = ratOf(1e-9);
      addSide(e, z3::implies(y > 0, r > -ep)); addSide(e, z3::implies(y < 0, r < ep)); addSide(e, z3::implies(x > 0, r <= hp + ep && r >= -hp - ep)); addSide(e, z3::implies(x < 0, r >= hp - ep || r <= -hp + ep));
      addSide(e, z3::implies(y == 0 && x > 0, r == 0)); }
    else if (f == "fmin") { expr x = R(a), y = R(b); r = z3::ite(x <= y, x, y); }
    else if (f == "fmax") { expr x = R(a), y = R(b); r = z3::ite(x >= y, x, y); }
    else r = fresh("fc");
    break; }
  default: r = fresh("fa"); break;
  }
  memo.emplace(e, r); return r;
}

expr Solver::B(const Expr *e, bool neg) {
  auto &memo = neg ? tr[mode].Bneg : tr[mode].Bpos; auto it = memo.find(e); if (it != memo.end()) return it->second;
  expr r(c); const Expr *a = e->k[0], *b = e->k[1];
  switch (e->op) {
  case Op::CONST: r = c.bool_val(neg ? !e->cval : !!e->cval); break;
  case Op::AND: r = neg ? (B(a, true) || B(b, true)) : (B(a, false) && B(b, false)); break;
  case Op::OR: r = neg ? (B(a, true) && B(b, true)) : (B(a, false) || B(b, false)); break;
  case Op::XOR: if (b->op == Op::CONST) r = B(a, neg != !!b->cval); else r = neg ? ((B(a, false) && B(b, false)) || (B(a, true) && B(b, true))) : ((B(a, false) && B(b, true)) || (B(a, true) && B(b, false))); break;
  case Op::ITE: r = (B(a, false) && B(b, neg)) || (B(a, true) && B(e->k[2], neg)); break;
  case Op::EQ: if (a->width == 1) { r = neg ? ((B(a, false) && B(b, true)) || (B(a, true) && B(b, false))) : ((B(a, false) && B(b, false)) || (B(a, true) && B(b, true))); }
    else { expr x = I(a) == I(b); r = neg ? !x : x; } break;
  case Op::ULT: { expr x = I(a) < I(b); r = neg ? !x : x; break; }
  case Op::ULE: { expr x = I(a) <= I(b); r = neg ? !x : x; break; }
  case Op::SLT: { expr x = S(a) < S(b); r = neg ? !x : x; break; }
  case Op::SLE: { expr x = S(a) <= S(b); r = neg ? !x : x; break; }
  case Op::FCMP: {
    unsigned p = neg ? (~e->aux & 15) : e->aux; p &= 7;
    if ((!std::isfinite(a->flo) && a->op == Op::CONST) || (!std::isfinite(b->flo) && b->op == Op::CONST)) { r = c.bool_const(("nfc" + std::to_string(e->id)).c_str()); break; }
    double ev = (a->exactInt && b->exactInt) ? 0 : curEps;
    if (ev != 0 && (a->ty == Ty::F32 )) ev *= 1000;
    expr x = R(a), y = R(b);
    expr ep = ratOf(ev);
    switch (p) {
    case 0: r = c.bool_val(false); break;
    case 1: if (ev > 0) r = (x - y <= ep && y - x <= ep); else r = (x == y); break;
    case 2: r = ev > 0 ? (x > y - ep) : (x > y - ep); break;
    case 3: r = (x >= y - ep); break;
    case 4: r = (x < y + ep); break;
    case 5: r = (x <= y + ep); break;
    case 6: if (ev > 0) r = c.bool_val(true); else if (ev < 0) r = (x > y - ep || x < y + ep); else r = (x != y); break;
    case 7: r = c.bool_val(true); break;
    }
    break; }
  default: { expr x = I(e); r = neg ? x == 0 : x == 1; break; }
  }
  memo.emplace(e, r); return r;
}

void Solver::collectSides(const Expr *e, std::set<const Expr *> &seen, std::vector<expr> &out, std::set<uint32_t> &vars) {
  std::vector<const Expr *> st{e};
  while (!st.empty()) { const Expr *x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue;
    if (x->op == Op::VAR) vars.insert((uint32_t)x->cval);
    auto it = tr[mode].side.find(x); if (it != tr[mode].side.end()) for (auto &s : it->second) out.push_back(s);
    for (int i = 0; i < 3; i++) if (x->k[i]) st.push_back(x->k[i]); }
}

Res icpCheck(const std::vector<const Expr *> &conj, Model *out, double seconds, uint64_t maxEvals, uint64_t *boxes);
static bool exact(const std::vector<const Expr *> &conj, const Model &m) { static uint64_t g = 1ull << 61; gEvalGen = ++g; for (auto e : conj) if (!(evalExpr(e, m) & 1)) return false; return true; }
// only sums and products with constants over the variables: linear real arithmetic settles these quickest
static bool linearOnly(const std::vector<const Expr *> &conj) {
  std::set<const Expr *> seen; std::vector<const Expr *> st(conj.begin(), conj.end());
  auto isC = [](const Expr *x) { return x->op == Op::CONST; };
  while (!st.empty()) { const Expr *x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue;
    switch (x->op) { case Op::FMUL: if (!isC(x->k[0]) && !isC(x->k[1])) return false; break; case Op::FDIV: if (!isC(x->k[1])) return false; break;
      case Op::FSQRT: case Op::FCALL: case Op::FREM: return false; default: break; }
    for (int i = 0; i < 3; i++) if (x->k[i]) st.push_back(x->k[i]); }
  return true;
}
Res Solver::check(const std::vector<const Expr *> &conj0, Model *out, int epsMode, unsigned timeoutMs) {
  std::vector<const Expr *> conj; bool fp = false;
  for (auto e : conj0) { if (e->op == Op::CONST) { if (!e->cval) return Res::UNSAT; continue; } conj.push_back(e); fp |= e->hasFP; }
  if (conj.empty()) { if (out) out->clear(); return Res::SAT; }
  bool real = fp && !exactFP;
  std::vector<uint32_t> key; for (auto e : conj) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto ck = std::make_pair(real ? epsMode : 0, key);
  auto ci = cache.find(ck); if (ci != cache.end()) { st.cacheHits++; if (out) *out = ci->second.second; return ci->second.first; }
  st.queries++; double t0 = now();
  Res res = Res::UNKNOWN; Model m; bool icpDone = false;
  if (fp && useIcp) { double tb = std::min(timeoutMs / 1000.0, linearOnly(conj) ? 0.05 : 1.5); res = icpCheck(conj, &m, tb, (uint64_t)(tb * 4e7), &st.icpBoxes); st.icpQueries++; if (res != Res::UNKNOWN) { st.icpDecided++; icpDone = true; } else m.clear(); }
  if (res == Res::UNKNOWN) try {
    z3::solver s = fp && linearOnly(conj) ? z3::solver(c, z3::solver::simple()) : z3::solver(c); std::set<uint32_t> vars;
    z3::params p(c); p.set("timeout", timeoutMs); 
    if (!real) {
      if (fp) st.fpaQueries++; else st.bvQueries++;
      s.set(p);
      for (auto e : conj) { s.add(BV(e) == c.bv_val(1, 1)); vars.insert(e->vars->begin(), e->vars->end()); }
      for (auto v : vars) { auto &vi = gVars[v]; std::string n = "v" + std::to_string(v);
        if (vi.ty == Ty::BV) { expr x = c.bv_const(n.c_str(), vi.width); if (vi.lo > 0) s.add(z3::uge(x, c.bv_val((uint64_t)vi.lo, vi.width))); if (vi.hi < maskw(vi.width)) s.add(z3::ule(x, c.bv_val((uint64_t)vi.hi, vi.width))); }
        else { expr x(c, Z3_mk_const(c, c.str_symbol(n.c_str()), Z3_mk_fpa_sort_double(c))); s.add(expr(c, Z3_mk_fpa_leq(c, Z3_mk_fpa_numeral_double(c, vi.flo, Z3_mk_fpa_sort_double(c)), x))); s.add(expr(c, Z3_mk_fpa_leq(c, x, Z3_mk_fpa_numeral_double(c, vi.fhi, Z3_mk_fpa_sort_double(c))))); } }
    } else {
      st.realQueries++;
      mode = epsMode > 0 ? 0 : epsMode < 0 ? 2 : 1; curEps = epsMode * eps;
      std::vector<expr> fs, sides; std::set<const Expr *> seen;
      for (auto e : conj) fs.push_back(B(e, false));
      for (auto e : conj) collectSides(e, seen, sides, vars);
      s.set(p);
      for (auto &f : fs) s.add(f); for (auto &f : sides) s.add(f);
      for (auto v : vars) { auto &vi = gVars[v]; std::string n = "v" + std::to_string(v);
        if (vi.ty == Ty::BV) { expr x = c.int_const(n.c_str()); s.add(x >= c.int_val((uint64_t)vi.lo) && x <= c.int_val((uint64_t)vi.hi)); }
        else { expr x = c.real_const(n.c_str()); s.add(x >= ratOf(vi.flo) && x <= ratOf(vi.fhi)); } }
    }
    double tz = now(); z3::check_result cr = s.check(); if (gVerbose && now() - tz > 0.5) fprintf(stderr, "z3 %.2f\n", now() - tz);
    if (cr == z3::unsat) res = Res::UNSAT;
    else if (cr == z3::sat) {
      res = Res::SAT; z3::model zm = s.get_model();
      for (auto v : vars) { auto &vi = gVars[v]; std::string n = "v" + std::to_string(v);
        if (!real) {
          if (vi.ty == Ty::BV) { expr x = zm.eval(c.bv_const(n.c_str(), vi.width), true); uint64_t u = 0; Z3_get_numeral_uint64(c, x, &u); m[v] = u; }
          else { expr x(c, Z3_mk_const(c, c.str_symbol(n.c_str()), Z3_mk_fpa_sort_double(c))); expr bv = zm.eval(expr(c, Z3_mk_fpa_to_ieee_bv(c, x)), true).simplify(); uint64_t u = 0; Z3_get_numeral_uint64(c, bv, &u); m[v] = u; }
        } else if (vi.ty == Ty::BV) { expr x = zm.eval(c.int_const(n.c_str()), true); uint64_t u = 0; if (!Z3_get_numeral_uint64(c, x, &u)) { int64_t i = 0; Z3_get_numeral_int64(c, x, &i); u = (uint64_t)i; } m[v] = u & maskw(vi.width); }
        else { expr x = zm.eval(c.real_const(n.c_str()), true); std::string d; if (x.is_algebraic()) { expr lo(c, Z3_get_algebraic_number_lower(c, x, 20)); d = lo.get_decimal_string(25); } else d = x.get_decimal_string(25); m[v] = d2b(strtod(d.c_str(), nullptr)); }
      }
    }
  } catch (z3::exception &ex) { if (gVerbose) fprintf(stderr, "z3: %s\n", ex.msg()); res = Res::UNKNOWN; }
  if (fp && useIcp && res != Res::UNSAT && (epsMode > 0 || res == Res::UNKNOWN) && !icpDone && !(res == Res::SAT && linearOnly(conj)) && !(res == Res::SAT && exact(conj, m))) { Model m2; double tb = timeoutMs / 1000.0; Res r2 = icpCheck(conj, &m2, tb, (uint64_t)(tb * 4e7), &st.icpBoxes); if (r2 != Res::UNKNOWN) { st.icpDecided++; res = r2; m = m2; } }
  double dt = now() - t0; st.time += dt; if (dt * 1000 > st.maxMs) st.maxMs = (uint64_t)(dt * 1000);
  if (res == Res::UNKNOWN) st.unknown++;
  if (gVerbose && dt > 1.0) { fprintf(stderr, "slow query %.2fs res=%d n=%zu real=%d\n", dt, (int)res, conj.size(), real); for (auto e : conj) fprintf(stderr, "   %s\n", exprStr(e, 6).c_str()); }
  cache[ck] = {res, m};
  if (out) *out = m;
  return res;
}
