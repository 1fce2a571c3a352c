// symir expression layer: hash-consed terms over bit-vectors (1..64 bit) and IEEE floats.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>
#include <limits>
#include <algorithm>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class Op : uint8_t {
  CONST, VAR,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE,
  ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  FADD, FSUB, FMUL, FDIV, FREM, FNEG,
  FCMP,            // aux = predicate mask: bit0 eq, bit1 gt, bit2 lt, bit3 unordered (LLVM encoding)
  SITOFP, UITOFP, FPTOSI, FPTOUI, FPEXT, FPTRUNC,
  FSQRT, FABS, FFLOOR, FCEIL, FTRUNC, FROUND, FRINT,
  FCALL,           // aux = function id
  BC_F2I, BC_I2F
};

enum class Ty : uint8_t { BV, F64, F32 };

struct Expr {
  Op op; Ty ty; uint16_t width;     // width in bits (64 / 32 for floats)
  uint32_t id; uint32_t aux;
  uint64_t cval;                     // CONST bits / VAR index
  const Expr *k[3];
  // unsigned interval for BV
  uint64_t lo, hi;
  // float interval (only floats)
  double flo, fhi; bool mayNaN; bool exactInt; bool hasFP; bool hasUndef;
  const std::vector<uint32_t> *vars;  // sorted set of variable indices (interned)
  mutable uint64_t evGen; mutable uint64_t evVal;
};

struct VarInfo { std::string name; Ty ty; uint16_t width; uint64_t lo, hi; double flo, fhi; bool undef; };

typedef std::unordered_map<uint32_t, uint64_t> Model;   // var index -> bits

extern std::vector<VarInfo> gVars;
extern std::vector<std::string> gFuncs;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }
static inline double b2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static inline uint64_t d2b(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static inline float b2f(uint64_t b) { uint32_t x = (uint32_t)b; float d; memcpy(&d, &x, 4); return d; }
static inline uint64_t f2b(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }

const Expr *mkConst(uint64_t v, unsigned w);
const Expr *mkFConst(uint64_t bits, Ty t);
const Expr *mkVarBV(const std::string &name, unsigned w, uint64_t lo, uint64_t hi, bool undef = false);
const Expr *mkVarF(const std::string &name, double lo, double hi);
const Expr *mkBin(Op op, const Expr *a, const Expr *b);
const Expr *mkIte(const Expr *c, const Expr *a, const Expr *b);
const Expr *mkExtract(const Expr *a, unsigned off, unsigned len);
const Expr *mkConcat(const Expr *hi, const Expr *lo);
const Expr *mkZext(const Expr *a, unsigned w);
const Expr *mkSext(const Expr *a, unsigned w);
const Expr *mkNot(const Expr *a);
const Expr *mkFBin(Op op, const Expr *a, const Expr *b);
const Expr *mkFUn(Op op, const Expr *a);           // FNEG FSQRT FABS FFLOOR ...
const Expr *mkFCmp(unsigned pred, const Expr *a, const Expr *b);
const Expr *mkItoF(Op op, const Expr *a, Ty t);
const Expr *mkFtoI(Op op, const Expr *a, unsigned w);
const Expr *mkFConv(const Expr *a, Ty t);          // FPEXT / FPTRUNC
const Expr *mkFCall(const std::string &fn, Ty t, const Expr *a, const Expr *b);
const Expr *mkF2I(const Expr *a);
const Expr *mkI2F(const Expr *a, Ty t);

uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w);
uint64_t foldFBin(Op op, uint64_t a, uint64_t b, Ty t);
uint64_t foldFUn(Op op, uint64_t a, Ty t);
bool foldFCmp(unsigned pred, uint64_t a, uint64_t b, Ty t);
uint64_t foldFCall(const std::string &fn, Ty t, uint64_t a, uint64_t b);
uint64_t foldFtoI(Op op, uint64_t a, Ty t, unsigned w);
uint64_t foldItoF(Op op, uint64_t a, unsigned w, Ty t);
uint64_t evalExpr(const Expr *e, const Model &m);
std::string exprStr(const Expr *e, int depth = 4);
extern uint64_t gEvalGen;
void newEvalGen();
