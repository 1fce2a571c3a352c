#include "expr.h"
#include <unordered_set>
#include <map>
#include <set>
#include <cassert>
#include <cstdio>
#include <cstdlib>

std::vector<VarInfo> gVars;
std::vector<std::string> gFuncs;
uint64_t gEvalGen = 1;
void newEvalGen() { gEvalGen++; }

static const double INF = std::numeric_limits<double>::infinity();

struct EHash { size_t operator()(const Expr *e) const {
  uint64_t h = (uint64_t)e->op * 0x9E3779B97F4A7C15ull ^ ((uint64_t)e->ty << 7) ^ ((uint64_t)e->width << 20) ^ ((uint64_t)e->aux << 33);
  h ^= e->cval * 0xff51afd7ed558ccdull; h = (h << 13) | (h >> 51);
  for (int i = 0; i < 3; i++) h = (h ^ (uint64_t)(uintptr_t)e->k[i]) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;
  return h; } };
struct EEq { bool operator()(const Expr *a, const Expr *b) const {
  return a->op == b->op && a->ty == b->ty && a->width == b->width && a->aux == b->aux && a->cval == b->cval && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };
static std::unordered_set<Expr *, EHash, EEq> gTab;
static std::set<std::vector<uint32_t>> gVarSets;
static const std::vector<uint32_t> *internVars(const std::vector<uint32_t> &v) { return &*gVarSets.insert(v).first; }
static uint32_t gNextId = 1;

static uint64_t satAdd(uint64_t a, uint64_t b, unsigned w, bool &ov) { u128 t = (u128)a + b; ov = t > maskw(w); return (uint64_t)t; }

static void computeRange(Expr *e) {
  // defaults
  e->lo = 0; e->hi = maskw(e->width);
  const Expr *a = e->k[0], *b = e->k[1], *c = e->k[2];
  if (e->ty == Ty::BV) {
    switch (e->op) {
    case Op::CONST: e->lo = e->hi = e->cval; break;
    case Op::VAR: e->lo = gVars[e->cval].lo; e->hi = gVars[e->cval].hi; break;
    case Op::ADD: { bool o1, o2; uint64_t l = satAdd(a->lo, b->lo, e->width, o1), h = satAdd(a->hi, b->hi, e->width, o2);
      if (!o1 && !o2) { e->lo = l; e->hi = h; } else if (o1 && o2) { e->lo = l & maskw(e->width); e->hi = h & maskw(e->width); } break; }
    case Op::SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } 
      else if (a->hi < b->lo) { e->lo = (a->lo - b->hi) & maskw(e->width); e->hi = (a->hi - b->lo) & maskw(e->width); } break;
    case Op::MUL: { u128 h = (u128)a->hi * b->hi; if (h <= maskw(e->width)) { e->lo = a->lo * b->lo; e->hi = (uint64_t)h; } break; }
    case Op::UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
    case Op::UREM: if (b->lo > 0) { if (a->hi < b->lo) { e->lo = a->lo; e->hi = a->hi; } else { e->lo = 0; e->hi = std::min(a->hi, b->hi - 1); } } break;
    case Op::AND: e->lo = 0; e->hi = std::min(a->hi, b->hi); break;
    case Op::OR: e->lo = std::max(a->lo, b->lo); { uint64_t m = a->hi | b->hi; uint64_t t = 1; while (t <= m && t) t <<= 1; e->hi = std::min<uint64_t>(maskw(e->width), t ? t - 1 : ~0ull); } break;
    case Op::XOR: { uint64_t m = a->hi | b->hi; uint64_t t = 1; while (t <= m && t) t <<= 1; e->hi = std::min<uint64_t>(maskw(e->width), t ? t - 1 : ~0ull); } break;
    case Op::SHL: if (b->op == Op::CONST && b->cval < e->width) { u128 h = (u128)a->hi << b->cval; if (h <= maskw(e->width)) { e->lo = a->lo << b->cval; e->hi = (uint64_t)h; } } break;
    case Op::LSHR: if (b->op == Op::CONST && b->cval < e->width) { e->lo = a->lo >> b->cval; e->hi = a->hi >> b->cval; } else e->hi = a->hi; break;
    case Op::ITE: e->lo = std::min(b->lo, c->lo); e->hi = std::max(b->hi, c->hi); break;
    case Op::ZEXT: e->lo = a->lo; e->hi = a->hi; break;
    case Op::SEXT: { uint64_t sg = 1ull << (a->width - 1);
      if (a->hi < sg) { e->lo = a->lo; e->hi = a->hi; } else if (a->lo >= sg) { e->lo = (uint64_t)sx(a->lo, a->width) & maskw(e->width); e->hi = (uint64_t)sx(a->hi, a->width) & maskw(e->width); } break; }
    case Op::EXTRACT: { uint64_t m = maskw(e->width); if (e->aux == 0) { if (a->hi <= m) { e->lo = a->lo; e->hi = a->hi; } else if ((a->lo & ~m) == (a->hi & ~m)) { e->lo = a->lo & m; e->hi = a->hi & m; } }
      else { uint64_t h = a->hi >> e->aux; if (h <= m) { e->lo = a->lo >> e->aux; e->hi = h; } } break; }
    case Op::CONCAT: e->lo = (a->lo << b->width) | b->lo; e->hi = (a->hi << b->width) | b->hi; break;
    case Op::FPTOSI: if (!a->mayNaN && a->flo >= 0 && a->fhi < 9e18 && a->fhi < std::ldexp(1.0, e->width - 1)) { e->lo = (uint64_t)a->flo; e->hi = (uint64_t)a->fhi; } break;
    case Op::FPTOUI: if (!a->mayNaN && a->flo >= 0 && a->fhi < 9e18 && a->fhi < std::ldexp(1.0, e->width)) { e->lo = (uint64_t)a->flo; e->hi = (uint64_t)a->fhi; } break;
    default: break;
    }
    return;
  }
  // floats
  e->flo = -INF; e->fhi = INF; e->mayNaN = true; e->exactInt = false;
  auto setI = [&](double l, double h, bool nan) { if (std::isnan(l) || std::isnan(h)) { e->flo = -INF; e->fhi = INF; e->mayNaN = true; } else { if (e->ty == Ty::F32) { float fl = (float)l, fh = (float)h; l = fl; h = fh; } e->flo = l; e->fhi = h; e->mayNaN = nan; } };
  auto fin = [](const Expr *x) { return !x->mayNaN && std::isfinite(x->flo) && std::isfinite(x->fhi); };
  bool ei = a && b && a->exactInt && b->exactInt;
  switch (e->op) {
  case Op::CONST: { double d = e->ty == Ty::F64 ? b2d(e->cval) : (double)b2f(e->cval); if (std::isnan(d)) break; e->flo = e->fhi = d; e->mayNaN = false; e->exactInt = std::isfinite(d) && std::floor(d) == d && std::fabs(d) < 9e15 && e->ty == Ty::F64; break; }
  case Op::VAR: e->flo = gVars[e->cval].flo; e->fhi = gVars[e->cval].fhi; e->mayNaN = false; break;
  case Op::FADD: if (fin(a) && fin(b)) setI(a->flo + b->flo, a->fhi + b->fhi, false); break;
  case Op::FSUB: if (fin(a) && fin(b)) setI(a->flo - b->fhi, a->fhi - b->flo, false); break;
  case Op::FMUL: if (fin(a) && fin(b)) { double p[4] = {a->flo * b->flo, a->flo * b->fhi, a->fhi * b->flo, a->fhi * b->fhi};
      if (a == b) { double l = (a->flo <= 0 && a->fhi >= 0) ? 0 : std::min(p[0], p[3]); setI(l, std::max(p[0], p[3]), false); }
      else setI(*std::min_element(p, p + 4), *std::max_element(p, p + 4), false); } break;
  case Op::FDIV: if (fin(a) && fin(b) && (b->flo > 0 || b->fhi < 0)) { double p[4] = {a->flo / b->flo, a->flo / b->fhi, a->fhi / b->flo, a->fhi / b->fhi}; setI(*std::min_element(p, p + 4), *std::max_element(p, p + 4), false); } break;
  case Op::FNEG: setI(-a->fhi, -a->flo, a->mayNaN); e->exactInt = a->exactInt; break;
  case Op::FABS: { double l = (a->flo <= 0 && a->fhi >= 0) ? 0 : std::min(std::fabs(a->flo), std::fabs(a->fhi)); setI(l, std::max(std::fabs(a->flo), std::fabs(a->fhi)), a->mayNaN); e->exactInt = a->exactInt; break; }
  case Op::FSQRT: if (!a->mayNaN && a->flo >= 0) setI(std::sqrt(a->flo), std::sqrt(a->fhi), false); break;
  case Op::FFLOOR: setI(std::floor(a->flo), std::floor(a->fhi), a->mayNaN); e->exactInt = fin(a) && std::max(std::fabs(e->flo), std::fabs(e->fhi)) < 9e15; break;
  case Op::FCEIL: setI(std::ceil(a->flo), std::ceil(a->fhi), a->mayNaN); e->exactInt = fin(a) && std::max(std::fabs(e->flo), std::fabs(e->fhi)) < 9e15; break;
  case Op::FTRUNC: setI(std::trunc(a->flo), std::trunc(a->fhi), a->mayNaN); e->exactInt = fin(a) && std::max(std::fabs(e->flo), std::fabs(e->fhi)) < 9e15; break;
  case Op::FROUND: setI(std::round(a->flo), std::round(a->fhi), a->mayNaN); break;
  case Op::FRINT: setI(std::rint(a->flo), std::rint(a->fhi), a->mayNaN); break;
  case Op::FPEXT: setI(a->flo, a->fhi, a->mayNaN); break;
  case Op::FPTRUNC: setI(a->flo, a->fhi, a->mayNaN); break;
  case Op::ITE: setI(std::min(b->flo, c->flo), std::max(b->fhi, c->fhi), b->mayNaN || c->mayNaN); e->exactInt = b->exactInt && c->exactInt; break;
  case Op::SITOFP: { uint64_t sg = 1ull << (a->width - 1); if (a->hi < sg) setI((double)a->lo, (double)a->hi, false); else if (a->lo >= sg) setI((double)sx(a->lo, a->width), (double)sx(a->hi, a->width), false); else setI(-std::ldexp(1.0, a->width - 1), std::ldexp(1.0, a->width - 1), false);
      e->exactInt = e->ty == Ty::F64 && std::max(std::fabs(e->flo), std::fabs(e->fhi)) < 9e15; break; }
  case Op::UITOFP: setI((double)a->lo, (double)a->hi, false); e->exactInt = e->ty == Ty::F64 && e->fhi < 9e15; break;
  case Op::FCALL: { const std::string &f = gFuncs[e->aux];
      if ((f == "sin" || f == "cos") && fin(a)) setI(-1, 1, false);
      else if (f == "atan2" && fin(a) && fin(b)) setI(-3.1415926535897936, 3.1415926535897936, false);
      else if (f == "atan" && !a->mayNaN) setI(-1.5707963267948968, 1.5707963267948968, false);
      else if (f == "acos" ) setI(0, 3.1415926535897936, !fin(a) || a->flo < -1 || a->fhi > 1);
      else if (f == "fmin" && fin(a) && fin(b)) setI(std::min(a->flo, b->flo), std::min(a->fhi, b->fhi), false);
      else if (f == "fmax" && fin(a) && fin(b)) setI(std::max(a->flo, b->flo), std::max(a->fhi, b->fhi), false);
      else if (f == "hypot" && fin(a) && fin(b)) setI(0, std::hypot(std::max(std::fabs(a->flo), std::fabs(a->fhi)), std::max(std::fabs(b->flo), std::fabs(b->fhi))) * (1 + 1e-15), false);
      break; }
  default: break;
  }
  if (e->op == Op::FADD || e->op == Op::FSUB || e->op == Op::FMUL) e->exactInt = e->ty == Ty::F64 && ei && !e->mayNaN && std::max(std::fabs(e->flo), std::fabs(e->fhi)) < 9e15;
}

static const Expr *intern(Op op, Ty ty, unsigned w, uint32_t aux, uint64_t cval, const Expr *a, const Expr *b, const Expr *c) {
  Expr t; t.op = op; t.ty = ty; t.width = w; t.aux = aux; t.cval = cval; t.k[0] = a; t.k[1] = b; t.k[2] = c;
  auto it = gTab.find(&t);
  if (it != gTab.end()) return *it;
  Expr *e = new Expr(t);
  e->id = gNextId++; e->evGen = 0; e->flo = e->fhi = 0; e->mayNaN = e->exactInt = false; e->lo = e->hi = 0;
  e->hasFP = ty != Ty::BV; e->hasUndef = false;
  std::vector<uint32_t> vs;
  const std::vector<uint32_t> *only = nullptr; bool many = false;
  for (int i = 0; i < 3; i++) if (e->k[i]) { e->hasFP |= e->k[i]->hasFP; e->hasUndef |= e->k[i]->hasUndef;
      if (!e->k[i]->vars->empty()) { if (!only) only = e->k[i]->vars; else if (only != e->k[i]->vars) many = true; } }
  if (op == Op::VAR) { vs.push_back((uint32_t)cval); e->vars = internVars(vs); e->hasUndef = gVars[cval].undef; }
  else if (!only) e->vars = internVars(vs);
  else if (!many) e->vars = only;
  else { std::set<uint32_t> s; for (int i = 0; i < 3; i++) if (e->k[i]) s.insert(e->k[i]->vars->begin(), e->k[i]->vars->end()); vs.assign(s.begin(), s.end()); e->vars = internVars(vs); }
  computeRange(e);
  gTab.insert(e);
  if (ty == Ty::BV && op != Op::CONST && e->lo == e->hi) return mkConst(e->lo, w);
  return e;
}

const Expr *mkConst(uint64_t v, unsigned w) { return intern(Op::CONST, Ty::BV, w, 0, v & maskw(w), 0, 0, 0); }
const Expr *mkFConst(uint64_t bits, Ty t) { return intern(Op::CONST, t, t == Ty::F64 ? 64 : 32, 0, bits, 0, 0, 0); }
const Expr *mkVarBV(const std::string &name, unsigned w, uint64_t lo, uint64_t hi, bool undef) {
  gVars.push_back({name, Ty::BV, (uint16_t)w, lo, hi, 0, 0, undef}); if (lo == hi) return mkConst(lo, w);
  return intern(Op::VAR, Ty::BV, w, 0, gVars.size() - 1, 0, 0, 0); }
const Expr *mkVarF(const std::string &name, double lo, double hi) {
  gVars.push_back({name, Ty::F64, 64, 0, 0, lo, hi, false}); return intern(Op::VAR, Ty::F64, 64, 0, gVars.size() - 1, 0, 0, 0); }

uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w); a &= m; b &= m; uint64_t r = 0;
  switch (op) {
  case Op::ADD: r = a + b; break; case Op::SUB: r = a - b; break; case Op::MUL: r = a * b; break;
  case Op::UDIV: r = b ? a / b : m; break;
  case Op::UREM: r = b ? a % b : a; break;
  case Op::SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (y == 0) r = x < 0 ? 1 : m; else if (y == -1) r = (uint64_t)0 - (uint64_t)x; else r = (uint64_t)(x / y); break; }
  case Op::SREM: { int64_t x = sx(a, w), y = sx(b, w); if (y == 0) r = a; else if (y == -1) r = 0; else r = (uint64_t)(x % y); break; }
  case Op::AND: r = a & b; break; case Op::OR: r = a | b; break; case Op::XOR: r = a ^ b; break;
  case Op::SHL: r = b >= w ? 0 : a << b; break; case Op::LSHR: r = b >= w ? 0 : a >> b; break;
  case Op::ASHR: r = (uint64_t)(sx(a, w) >> (b >= w ? 63 : b)); break;
  case Op::EQ: return a == b; case Op::ULT: return a < b; case Op::ULE: return a <= b;
  case Op::SLT: return sx(a, w) < sx(b, w); case Op::SLE: return sx(a, w) <= sx(b, w);
  default: abort();
  }
  return r & m;
}

const Expr *mkNot(const Expr *a) { return mkBin(Op::XOR, a, mkConst(1, 1)); }

const Expr *mkBin(Op op, const Expr *a, const Expr *b) {
  unsigned w = a->width;
  bool cmp = op >= Op::EQ && op <= Op::SLE;
  if (a->op == Op::CONST && b->op == Op::CONST) { uint64_t r = foldBin(op, a->cval, b->cval, w); return mkConst(r, cmp ? 1 : w); }
  uint64_t m = maskw(w);
  switch (op) {
  case Op::ADD: case Op::MUL: case Op::AND: case Op::OR: case Op::XOR: case Op::EQ:
    if (a->op == Op::CONST || (b->op != Op::CONST && a->id > b->id)) std::swap(a, b); break;
  default: break;
  }
  bool bc = b->op == Op::CONST; uint64_t cv = bc ? b->cval : 0;
  switch (op) {
  case Op::ADD:
    if (bc && cv == 0) return a;
    if (bc && a->op == Op::ADD && a->k[1]->op == Op::CONST) return mkBin(Op::ADD, a->k[0], mkConst(a->k[1]->cval + cv, w));
    break;
  case Op::SUB:
    if (bc) return cv == 0 ? a : mkBin(Op::ADD, a, mkConst(0 - cv, w));
    if (a == b) return mkConst(0, w);
    break;
  case Op::MUL: if (bc && cv == 0) return b; if (bc && cv == 1) return a; break;
  case Op::UDIV: if (bc && cv == 1) return a; break;
  case Op::SDIV: if (bc && cv == 1) return a; break;
  case Op::AND: if (bc && cv == 0) return b; if (bc && cv == m) return a; if (a == b) return a;
    if (bc && (cv & (cv + 1)) == 0 && a->hi <= cv) return a;
    if (bc && a->op == Op::AND && a->k[1]->op == Op::CONST) return mkBin(Op::AND, a->k[0], mkConst(a->k[1]->cval & cv, w));
    if (w == 1 && (a == mkNot(b))) return mkConst(0, 1);
    break;
  case Op::OR: if (bc && cv == 0) return a; if (bc && cv == m) return b; if (a == b) return a;
    if (w == 1 && (a == mkNot(b))) return mkConst(1, 1);
    break;
  case Op::XOR: if (bc && cv == 0) return a; if (a == b) return mkConst(0, w);
    if (bc && a->op == Op::XOR && a->k[1]->op == Op::CONST) return mkBin(Op::XOR, a->k[0], mkConst(a->k[1]->cval ^ cv, w));
    if (w == 1 && bc && cv == 1) { // push negation into comparisons
      if (a->op == Op::ULT) return mkBin(Op::ULE, a->k[1], a->k[0]);
      if (a->op == Op::ULE) return mkBin(Op::ULT, a->k[1], a->k[0]);
      if (a->op == Op::SLT) return mkBin(Op::SLE, a->k[1], a->k[0]);
      if (a->op == Op::SLE) return mkBin(Op::SLT, a->k[1], a->k[0]);
      if (a->op == Op::FCMP) return mkFCmp(a->aux ^ 15, a->k[0], a->k[1]);
    }
    break;
  case Op::SHL: case Op::LSHR: case Op::ASHR: if (bc && cv == 0) return a; 
    if (bc && op == Op::LSHR && cv < w && a->op == Op::ZEXT && cv >= a->k[0]->width) return mkConst(0, w);
    break;
  case Op::EQ:
    if (a == b) return mkConst(1, 1);
    if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1);
    if (w == 1 && bc) return cv ? a : mkNot(a);
    if (bc && a->op == Op::ZEXT) return cv > maskw(a->k[0]->width) ? mkConst(0, 1) : mkBin(Op::EQ, a->k[0], mkConst(cv, a->k[0]->width));
    if (bc && a->op == Op::SEXT) { uint64_t t = cv & maskw(a->k[0]->width); if (((uint64_t)sx(t, a->k[0]->width) & m) != cv) return mkConst(0, 1); return mkBin(Op::EQ, a->k[0], mkConst(t, a->k[0]->width)); }
    if (bc && a->op == Op::ADD && a->k[1]->op == Op::CONST) return mkBin(Op::EQ, a->k[0], mkConst(cv - a->k[1]->cval, w));
    if (bc && a->op == Op::XOR && a->k[1]->op == Op::CONST) return mkBin(Op::EQ, a->k[0], mkConst(cv ^ a->k[1]->cval, w));
    if (bc && a->op == Op::ITE) {
      const Expr *t = a->k[1], *f = a->k[2];
      bool tc = t->op == Op::CONST, fc = f->op == Op::CONST;
      if (tc || fc || t->hi < cv || t->lo > cv || f->hi < cv || f->lo > cv) return mkIte(a->k[0], mkBin(Op::EQ, t, b), mkBin(Op::EQ, f, b));
    }
    break;
  case Op::ULT: if (a == b) return mkConst(0, 1); if (a->hi < b->lo) return mkConst(1, 1); if (a->lo >= b->hi) return mkConst(0, 1); 
    if (a->op == Op::ZEXT && bc && cv <= maskw(a->k[0]->width)) return mkBin(Op::ULT, a->k[0], mkConst(cv, a->k[0]->width));
    if (b->op == Op::ZEXT && a->op == Op::CONST && a->cval <= maskw(b->k[0]->width)) return mkBin(Op::ULT, mkConst(a->cval, b->k[0]->width), b->k[0]);
    break;
  case Op::ULE: if (a == b) return mkConst(1, 1); if (a->hi <= b->lo) return mkConst(1, 1); if (a->lo > b->hi) return mkConst(0, 1); 
    if (a->op == Op::ZEXT && bc && cv <= maskw(a->k[0]->width)) return mkBin(Op::ULE, a->k[0], mkConst(cv, a->k[0]->width));
    if (b->op == Op::ZEXT && a->op == Op::CONST && a->cval <= maskw(b->k[0]->width)) return mkBin(Op::ULE, mkConst(a->cval, b->k[0]->width), b->k[0]);
    break;
  case Op::SLT: case Op::SLE: {
    if (a == b) return mkConst(op == Op::SLE, 1);
    uint64_t sg = 1ull << (w - 1);
    bool an = a->lo >= sg, ap = a->hi < sg, bn = b->lo >= sg, bp = b->hi < sg;
    if (ap && bp) return mkBin(op == Op::SLT ? Op::ULT : Op::ULE, a, b);
    if (an && bn) return mkBin(op == Op::SLT ? Op::ULT : Op::ULE, a, b);
    if (an && bp) return mkConst(1, 1);
    if (ap && bn) return mkConst(0, 1);
    break; }
  default: break;
  }
  return intern(op, Ty::BV, cmp ? 1 : w, 0, 0, a, b, 0);
}

const Expr *mkIte(const Expr *c, const Expr *a, const Expr *b) {
  if (c->op == Op::CONST) return c->cval ? a : b;
  if (a == b) return a;
  if (a->ty == Ty::BV && a->width == 1) {
    if (a->op == Op::CONST && b->op == Op::CONST) return a->cval ? c : mkNot(c);
    if (a->op == Op::CONST) return a->cval ? mkBin(Op::OR, c, b) : mkBin(Op::AND, mkNot(c), b);
    if (b->op == Op::CONST) return b->cval ? mkBin(Op::OR, mkNot(c), a) : mkBin(Op::AND, c, a);
  }
  return intern(Op::ITE, a->ty, a->width, 0, 0, c, a, b);
}
const Expr *mkExtract(const Expr *a, unsigned off, unsigned len) {
  if (a->ty != Ty::BV) a = mkF2I(a);
  if (off == 0 && len == a->width) return a;
  if (a->op == Op::CONST) return mkConst(a->cval >> off, len);
  if (a->op == Op::EXTRACT) return mkExtract(a->k[0], a->aux + off, len);
  if (a->op == Op::ZEXT) { unsigned w0 = a->k[0]->width; if (off >= w0) return mkConst(0, len); if (off + len <= w0) return mkExtract(a->k[0], off, len); if (off == 0) return mkZext(a->k[0], len); }
  if (a->op == Op::SEXT && off + len <= a->k[0]->width) return mkExtract(a->k[0], off, len);
  if (a->op == Op::SEXT && off == 0 && len > a->k[0]->width) return mkSext(a->k[0], len);
  if (a->op == Op::CONCAT) { unsigned wl = a->k[1]->width; if (off + len <= wl) return mkExtract(a->k[1], off, len); if (off >= wl) return mkExtract(a->k[0], off - wl, len); }
  if (a->op == Op::ITE && a->k[1]->op == Op::CONST && a->k[2]->op == Op::CONST) return mkIte(a->k[0], mkExtract(a->k[1], off, len), mkExtract(a->k[2], off, len));
  if (off == 0 && (a->op == Op::ADD || a->op == Op::SUB || a->op == Op::MUL || a->op == Op::AND || a->op == Op::OR || a->op == Op::XOR)) return mkBin(a->op, mkExtract(a->k[0], 0, len), mkExtract(a->k[1], 0, len));
  return intern(Op::EXTRACT, Ty::BV, len, off, 0, a, 0, 0);
}
const Expr *mkConcat(const Expr *h, const Expr *l) {
  if (h->op == Op::CONST && l->op == Op::CONST) return mkConst((h->cval << l->width) | l->cval, h->width + l->width);
  if (h->op == Op::CONST && h->cval == 0) return mkZext(l, h->width + l->width);
  if (h->op == Op::EXTRACT && l->op == Op::EXTRACT && h->k[0] == l->k[0] && h->aux == l->aux + l->width) return mkExtract(h->k[0], l->aux, h->width + l->width);
  return intern(Op::CONCAT, Ty::BV, h->width + l->width, 0, 0, h, l, 0);
}
const Expr *mkZext(const Expr *a, unsigned w) {
  if (w == a->width) return a;
  if (a->op == Op::CONST) return mkConst(a->cval, w);
  if (a->op == Op::ZEXT) return mkZext(a->k[0], w);
  if (a->op == Op::ITE && a->k[1]->op == Op::CONST && a->k[2]->op == Op::CONST) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  return intern(Op::ZEXT, Ty::BV, w, 0, 0, a, 0, 0);
}
const Expr *mkSext(const Expr *a, unsigned w) {
  if (w == a->width) return a;
  if (a->op == Op::CONST) return mkConst((uint64_t)sx(a->cval, a->width), w);
  if (a->op == Op::SEXT) return mkSext(a->k[0], w);
  if (a->hi < (1ull << (a->width - 1))) return mkZext(a, w);
  if (a->op == Op::ITE && a->k[1]->op == Op::CONST && a->k[2]->op == Op::CONST) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return intern(Op::SEXT, Ty::BV, w, 0, 0, a, 0, 0);
}

// ---- floats
uint64_t foldFBin(Op op, uint64_t a, uint64_t b, Ty t) {
  if (t == Ty::F64) { volatile double x = b2d(a), y = b2d(b), r = 0; switch (op) { case Op::FADD: r = x + y; break; case Op::FSUB: r = x - y; break; case Op::FMUL: r = x * y; break; case Op::FDIV: r = x / y; break; case Op::FREM: r = std::fmod(x, y); break; default: abort(); } return d2b(r); }
  volatile float x = b2f(a), y = b2f(b), r = 0; switch (op) { case Op::FADD: r = x + y; break; case Op::FSUB: r = x - y; break; case Op::FMUL: r = x * y; break; case Op::FDIV: r = x / y; break; case Op::FREM: r = std::fmod(x, y); break; default: abort(); } return f2b(r);
}
uint64_t foldFUn(Op op, uint64_t a, Ty t) {
  if (t == Ty::F64) { double x = b2d(a); switch (op) { case Op::FNEG: return a ^ (1ull << 63); case Op::FABS: return a & ~(1ull << 63); case Op::FSQRT: return d2b(std::sqrt(x)); case Op::FFLOOR: return d2b(std::floor(x)); case Op::FCEIL: return d2b(std::ceil(x)); case Op::FTRUNC: return d2b(std::trunc(x)); case Op::FROUND: return d2b(std::round(x)); case Op::FRINT: return d2b(std::rint(x)); default: abort(); } }
  float x = b2f(a); switch (op) { case Op::FNEG: return (a ^ (1u << 31)) & 0xffffffffu; case Op::FABS: return a & 0x7fffffffu; case Op::FSQRT: return f2b(std::sqrt(x)); case Op::FFLOOR: return f2b(std::floor(x)); case Op::FCEIL: return f2b(std::ceil(x)); case Op::FTRUNC: return f2b(std::trunc(x)); case Op::FROUND: return f2b(std::round(x)); case Op::FRINT: return f2b(std::rint(x)); default: abort(); }
}
bool foldFCmp(unsigned p, uint64_t a, uint64_t b, Ty t) {
  double x = t == Ty::F64 ? b2d(a) : b2f(a), y = t == Ty::F64 ? b2d(b) : b2f(b);
  if (std::isnan(x) || std::isnan(y)) return p & 8;
  if (x == y) return p & 1; if (x > y) return p & 2; return p & 4;
}
uint64_t foldFCall(const std::string &fn, Ty t, uint64_t a, uint64_t b) {
  if (t == Ty::F64) { double x = b2d(a), y = b2d(b), r;
    if (fn == "sin") r = std::sin(x); else if (fn == "cos") r = std::cos(x); else if (fn == "tan") r = std::tan(x); else if (fn == "atan2") r = std::atan2(x, y); else if (fn == "atan") r = std::atan(x);
    else if (fn == "acos") r = std::acos(x); else if (fn == "asin") r = std::asin(x); else if (fn == "pow") r = std::pow(x, y); else if (fn == "exp") r = std::exp(x); else if (fn == "log") r = std::log(x); else if (fn == "log10") r = std::log10(x);
    else if (fn == "hypot") r = ::hypot(x, y); else if (fn == "fmod") r = std::fmod(x, y); else if (fn == "fmin") r = std::fmin(x, y); else if (fn == "fmax") r = std::fmax(x, y); else if (fn == "copysign") r = std::copysign(x, y);
    else { fprintf(stderr, "symir: unknown float function %s\n", fn.c_str()); abort(); } return d2b(r); }
  float x = b2f(a), y = b2f(b), r;
  if (fn == "sin") r = sinf(x); else if (fn == "cos") r = cosf(x); else if (fn == "atan2") r = atan2f(x, y); else if (fn == "atan") r = atanf(x); else if (fn == "acos") r = acosf(x); else if (fn == "asin") r = asinf(x); else if (fn == "pow") r = powf(x, y);
  else if (fn == "hypot") r = hypotf(x, y); else if (fn == "fmod") r = fmodf(x, y); else if (fn == "fmin") r = fminf(x, y); else if (fn == "fmax") r = fmaxf(x, y); else if (fn == "copysign") r = copysignf(x, y);
  else { fprintf(stderr, "symir: unknown float function %s\n", fn.c_str()); abort(); } return f2b(r);
}
uint64_t foldFtoI(Op op, uint64_t a, Ty t, unsigned w) {
  double x = t == Ty::F64 ? b2d(a) : (double)b2f(a);
  if (std::isnan(x)) return op == Op::FPTOSI ? (1ull << (w - 1)) : 0;
  if (op == Op::FPTOSI) { double l = -std::ldexp(1.0, w - 1), h = std::ldexp(1.0, w - 1); x = std::trunc(x); if (!(x >= l && x < h)) return 1ull << (w - 1); return (uint64_t)(int64_t)x & maskw(w); }
  x = std::trunc(x); if (!(x >= 0 && x < std::ldexp(1.0, w))) { if (x > -9e18 && x < 9e18) return (uint64_t)(int64_t)x & maskw(w); return maskw(w) == ~0ull ? 1ull << 63 : 0; } return (uint64_t)x & maskw(w);
}
uint64_t foldItoF(Op op, uint64_t a, unsigned w, Ty t) {
  if (op == Op::SITOFP) { int64_t v = sx(a, w); return t == Ty::F64 ? d2b((double)v) : f2b((float)v); }
  uint64_t v = a & maskw(w); return t == Ty::F64 ? d2b((double)v) : f2b((float)v);
}
static double cd(const Expr *e) { return e->ty == Ty::F64 ? b2d(e->cval) : (double)b2f(e->cval); }
const Expr *mkFBin(Op op, const Expr *a, const Expr *b) {
  bool ac = a->op == Op::CONST, bc = b->op == Op::CONST;
  if (ac && bc) return mkFConst(foldFBin(op, a->cval, b->cval, a->ty), a->ty);
  bool finA = !a->mayNaN && std::isfinite(a->flo) && std::isfinite(a->fhi);
  if (op == Op::FSUB && a == b && finA) return mkFConst(0, a->ty);
  if (op == Op::FSUB && bc && b->cval == 0) return a;                 // x - (+0) == x exactly
  if (op == Op::FADD && bc && cd(b) == 0 && (a->flo > 0 || a->fhi < 0)) return a;
  if (op == Op::FADD && ac && cd(a) == 0 && (b->flo > 0 || b->fhi < 0)) return b;
  if (op == Op::FADD && bc && cd(b) == 0 && (a->op == Op::SITOFP || a->op == Op::UITOFP)) return a; // never -0
  if (op == Op::FADD && ac && cd(a) == 0 && (b->op == Op::SITOFP || b->op == Op::UITOFP)) return b;
  if (op == Op::FMUL && bc && cd(b) == 1) return a;
  if (op == Op::FMUL && ac && cd(a) == 1) return b;
  if (op == Op::FDIV && bc && cd(b) == 1) return a;
  if ((op == Op::FADD || op == Op::FMUL) && a->id > b->id) std::swap(a, b);
  return intern(op, a->ty, a->width, 0, 0, a, b, 0);
}
const Expr *mkFUn(Op op, const Expr *a) {
  if (a->op == Op::CONST) return mkFConst(foldFUn(op, a->cval, a->ty), a->ty);
  if (op == Op::FNEG && a->op == Op::FNEG) return a->k[0];
  if (op == Op::FABS && (a->op == Op::FABS)) return a;
  if (op == Op::FABS && !a->mayNaN && a->flo > 0) return a;
  if (op == Op::FABS && a->op == Op::FSUB && a->k[0]->id > a->k[1]->id) return mkFUn(Op::FABS, intern(Op::FSUB, a->ty, a->width, 0, 0, a->k[1], a->k[0], 0)); // |a-b| == |b-a| exactly
  if ((op == Op::FFLOOR || op == Op::FCEIL || op == Op::FTRUNC || op == Op::FROUND || op == Op::FRINT) && a->exactInt) return a;
  return intern(op, a->ty, a->width, 0, 0, a, 0, 0);
}
const Expr *mkFCmp(unsigned p, const Expr *a, const Expr *b) {
  p &= 15;
  if (p == 0) return mkConst(0, 1); if (p == 15) return mkConst(1, 1);
  if (a->op == Op::CONST && b->op == Op::CONST) return mkConst(foldFCmp(p, a->cval, b->cval, a->ty), 1);
  bool nan = a->mayNaN || b->mayNaN;
  if (!nan) {
    unsigned poss = 0; // possible outcomes
    if (a->flo <= b->fhi && b->flo <= a->fhi) poss |= 1;
    if (a->fhi > b->flo) poss |= 2;
    if (a->flo < b->fhi) poss |= 4;
    if (a == b) poss = 1;
    unsigned q = p & poss;
    if (q == 0) return mkConst(0, 1);
    if (q == poss) return mkConst(1, 1);
    p = p & 7;
  } else if (a == b) { // NaN or equal
    unsigned q = p & 9; if (q == 9) return mkConst(1, 1); if (q == 0) return mkConst(0, 1); }
  // canonical: swap so that constant on the right
  if (a->op == Op::CONST || (b->op != Op::CONST && a->id > b->id)) { std::swap(a, b); unsigned q = p & 9; if (p & 2) q |= 4; if (p & 4) q |= 2; p = q; }
  return intern(Op::FCMP, Ty::BV, 1, p, 0, a, b, 0);
}
const Expr *mkItoF(Op op, const Expr *a, Ty t) {
  if (a->op == Op::CONST) return mkFConst(foldItoF(op, a->cval, a->width, t), t);
  if (op == Op::SITOFP && a->op == Op::ZEXT) return mkItoF(Op::UITOFP, a->k[0], t);
  if (op == Op::SITOFP && a->op == Op::SEXT) return mkItoF(Op::SITOFP, a->k[0], t);
  if (op == Op::UITOFP && a->op == Op::ZEXT) return mkItoF(Op::UITOFP, a->k[0], t);
  return intern(op, t, t == Ty::F64 ? 64 : 32, 0, 0, a, 0, 0);
}
const Expr *mkFtoI(Op op, const Expr *a, unsigned w) {
  if (a->op == Op::CONST) return mkConst(foldFtoI(op, a->cval, a->ty, w), w);
  return intern(op, Ty::BV, w, 0, 0, a, 0, 0);
}
const Expr *mkFConv(const Expr *a, Ty t) {
  if (a->ty == t) return a;
  if (a->op == Op::CONST) return t == Ty::F64 ? mkFConst(d2b((double)b2f(a->cval)), t) : mkFConst(f2b((float)b2d(a->cval)), t);
  return intern(t == Ty::F64 ? Op::FPEXT : Op::FPTRUNC, t, t == Ty::F64 ? 64 : 32, 0, 0, a, 0, 0);
}
const Expr *mkFCall(const std::string &fn, Ty t, const Expr *a, const Expr *b) {
  if (a->op == Op::CONST && (!b || b->op == Op::CONST)) return mkFConst(foldFCall(fn, t, a->cval, b ? b->cval : 0), t);
  uint32_t id = 0; for (; id < gFuncs.size(); id++) if (gFuncs[id] == fn) break; if (id == gFuncs.size()) gFuncs.push_back(fn);
  return intern(Op::FCALL, t, t == Ty::F64 ? 64 : 32, id, 0, a, b, 0);
}
const Expr *mkF2I(const Expr *a) {
  if (a->ty == Ty::BV) return a;
  if (a->op == Op::CONST) return mkConst(a->cval, a->width);
  if (a->op == Op::BC_I2F) return a->k[0];
  if (a->op == Op::ITE) return mkIte(a->k[0], mkF2I(a->k[1]), mkF2I(a->k[2]));
  return intern(Op::BC_F2I, Ty::BV, a->width, 0, 0, a, 0, 0);
}
const Expr *mkI2F(const Expr *a, Ty t) {
  if (a->ty != Ty::BV) return a;
  if (a->op == Op::CONST) return mkFConst(a->cval, t);
  if (a->op == Op::BC_F2I && a->k[0]->ty == t) return a->k[0];
  if (a->op == Op::ITE) return mkIte(a->k[0], mkI2F(a->k[1], t), mkI2F(a->k[2], t));
  return intern(Op::BC_I2F, t, a->width, 0, 0, a, 0, 0);
}

static uint64_t evRec(const Expr *e, const Model &m) {
  if (e->op == Op::CONST) return e->cval;
  if (e->evGen == gEvalGen) return e->evVal;
  uint64_t r = 0;
  auto E = [&](int i) { return evRec(e->k[i], m); };
  switch (e->op) {
  case Op::VAR: { auto it = m.find((uint32_t)e->cval); if (it != m.end()) r = it->second; else { const VarInfo &v = gVars[e->cval]; r = v.ty == Ty::BV ? v.lo : d2b(v.flo <= 0 && v.fhi >= 0 ? 0.0 : v.flo); } break; }
  case Op::ITE: r = evRec(e->k[0], m) ? E(1) : E(2); break;
  case Op::CONCAT: r = (E(0) << e->k[1]->width) | E(1); break;
  case Op::EXTRACT: r = (E(0) >> e->aux) & maskw(e->width); break;
  case Op::ZEXT: r = E(0); break;
  case Op::SEXT: r = (uint64_t)sx(E(0), e->k[0]->width) & maskw(e->width); break;
  case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: case Op::FREM: r = foldFBin(e->op, E(0), E(1), e->ty); break;
  case Op::FNEG: case Op::FSQRT: case Op::FABS: case Op::FFLOOR: case Op::FCEIL: case Op::FTRUNC: case Op::FROUND: case Op::FRINT: r = foldFUn(e->op, E(0), e->ty); break;
  case Op::FCMP: r = foldFCmp(e->aux, E(0), E(1), e->k[0]->ty); break;
  case Op::SITOFP: case Op::UITOFP: r = foldItoF(e->op, E(0), e->k[0]->width, e->ty); break;
  case Op::FPTOSI: case Op::FPTOUI: r = foldFtoI(e->op, E(0), e->k[0]->ty, e->width); break;
  case Op::FPEXT: r = d2b((double)b2f(E(0))); break;
  case Op::FPTRUNC: r = f2b((float)b2d(E(0))); break;
  case Op::FCALL: r = foldFCall(gFuncs[e->aux], e->ty, E(0), e->k[1] ? E(1) : 0); break;
  case Op::BC_F2I: case Op::BC_I2F: r = E(0); break;
  default: r = foldBin(e->op, E(0), E(1), e->k[0]->width); break;
  }
  e->evGen = gEvalGen; e->evVal = r; return r;
}
uint64_t evalExpr(const Expr *e, const Model &m) { return evRec(e, m); }

std::string exprStr(const Expr *e, int d) {
  static const char *N[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","fneg","fcmp","sitofp","uitofp","fptosi","fptoui","fpext","fptrunc","sqrt","fabs","floor","ceil","trunc","round","rint","fcall","f2i","i2f"};
  char b[64];
  if (e->op == Op::CONST) { if (e->ty == Ty::BV) snprintf(b, 64, "%llu", (unsigned long long)e->cval); else snprintf(b, 64, "%.17g", cd(e)); return b; }
  if (e->op == Op::VAR) return gVars[e->cval].name;
  if (d <= 0) return "..";
  std::string s = "("; s += N[(int)e->op]; if (e->op == Op::FCMP || e->op == Op::EXTRACT) { snprintf(b, 64, ":%u", e->aux); s += b; } if (e->op == Op::FCALL) s += ":" + gFuncs[e->aux];
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
