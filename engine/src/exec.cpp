// symir: symbolic executor for LLVM IR (C++ programs), path-forking, SMT-backed.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <deque>
#include <chrono>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <functional>
using namespace llvm;

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Agg;
struct Val { uint64_t c = 0; const Expr *e = nullptr; const Agg *a = nullptr; };
struct Agg { std::vector<Val> v; };

// ------------------------------------------------------------------ memory
struct SymB { const Expr *e; uint8_t idx; };
struct Obj {
  uint64_t base, size; bool ro = false; uint8_t kind = 0; // 0 global 1 stack 2 heap 3 heap[] 
  std::string name;
  std::vector<uint8_t> b; std::vector<uint8_t> st; // st: 0 concrete 1 symbolic 2 undef (empty => all concrete)
  std::map<uint32_t, SymB> sym;
};
typedef std::shared_ptr<Obj> ObjP;

// persistent-ish two level map: address>>12 buckets are too coarse; use std::map with COW at state level
struct MemMap { std::map<uint64_t, ObjP> m; };

struct DOp { bool isConst; Val v; uint32_t slot; };
struct DInst { Instruction *I; unsigned opc; int32_t dst; std::vector<DOp> ops; Type *ty; unsigned w; Ty fty; 
  // gep
  int64_t gepOff = 0; std::vector<std::pair<uint32_t, uint64_t>> gepIdx; // operand index, scale
  // br/switch targets
  std::vector<uint32_t> succ; std::vector<uint64_t> cases; Function *callee = nullptr; int special = 0; uint64_t aux = 0; };
struct DBlock { std::vector<DInst> ins; unsigned firstNonPhi = 0; BasicBlock *bb; };
struct DFunc { Function *F; std::vector<DBlock> blocks; uint32_t nslots; std::vector<uint32_t> argSlots; std::string dem; bool fromRepo = false; uint64_t hits = 0; uint64_t insts = 0; };

struct Frame { DFunc *f; std::vector<Val> regs; uint32_t bb, ip, prevbb; int32_t retDst; std::vector<uint64_t> allocas; uint32_t normSucc; bool isInvoke; uint32_t unwSucc = 0; uint32_t callerBB; uint64_t va = 0; };

struct Input { std::string name; const Expr *e; uint64_t c; char kind; };  // recorded inputs in creation order

struct State {
  std::vector<Frame> st; std::shared_ptr<MemMap> mem; std::vector<const Expr *> pc; std::vector<Input> inputs;
  std::shared_ptr<ModelBox> model; uint64_t nextHeap, nextStack; uint64_t steps = 0; bool unconfirmed = false; unsigned depth = 0;
  std::vector<std::pair<uint64_t, uint64_t>> caught; uint64_t excPtr = 0, excTI = 0, excSel = 0; // C++ exceptions: handlers entered, exception in flight (object, type info, selector)
  std::map<std::string, unsigned> forkCount; int id = 0; bool undefBranch = false;
  std::vector<std::pair<std::string, Val>> obs; // observed values (compared with a native replay)
};
typedef std::unique_ptr<State> StateP;

struct PathEnd { std::string kind, msg; };   // thrown to end path

// ------------------------------------------------------------------ options / stats
struct Options { std::string bc, entry = "vf_main"; uint64_t maxSteps = 400000000, maxPathSteps = 60000000; double maxTime = 600; unsigned qTimeout = 3000, aTimeout = 20000; long caseIdx = 0; std::string out = ""; bool exactFP = false; std::string replayDir; unsigned maxViol = 5; bool safety = true; unsigned maxEnum = 300; bool verbose = false; double eps = 1e-9; long maxPaths = 2000000; std::vector<std::pair<std::string,std::string>> replace; std::string srcPrefix; bool undefCheck=false; bool throwOk=false; unsigned witnesses=0; } opt;

struct Stats { uint64_t paths = 0, done = 0, pruned = 0, forks = 0, asserts = 0, assertsConcrete = 0, assertsProved = 0, assertsUnknown = 0, inconclusive = 0, killed = 0, steps = 0; std::map<std::string, uint64_t> reach; std::map<std::string, uint64_t> ends; uint64_t undefBranches = 0; std::map<std::string,uint64_t> unmodelled; std::map<std::string,uint64_t> assertLabels; uint64_t unknownBranches = 0; uint64_t unconfirmedPaths = 0; } stats;

struct Violation { std::string kind, label, msg, where; std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<char> kinds; bool confirmed; };
static std::vector<Violation> viols; static std::vector<Violation> unconf;
struct Witness { std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<char> kinds; std::vector<std::pair<std::string, uint64_t>> obs; };
static std::vector<Witness> wits; static uint64_t witSeen = 0, witNext = 1;

static LLVMContext ctx; static std::unique_ptr<Module> M; static const DataLayout *DL;
static Solver *solver; static bool solver0NoIcp = false;
static std::unordered_map<Function *, std::unique_ptr<DFunc>> dfuncs;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function *> faddr;
static std::deque<StateP> work; static State *cur;
static double tStart; static bool timedOut = false; static int nextStateId = 1;

// ------------------------------------------------------------------ value helpers
static inline const Expr *E(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline const Expr *EF(const Val &v, Ty t) { if (v.e) return v.e->ty == Ty::BV ? mkI2F(v.e, t) : v.e; return mkFConst(v.c, t); }
static inline Val V(uint64_t c) { Val v; v.c = c; return v; }
static inline Val V(const Expr *e) { Val v; if (e->op == Op::CONST) v.c = e->cval; else v.e = e; return v; }
static Ty ftyOf(Type *t) { return t->isFloatTy() ? Ty::F32 : Ty::F64; }
static unsigned bitsOf(Type *t) { if (t->isPointerTy()) return 64; return (unsigned)DL->getTypeSizeInBits(t); }

// ------------------------------------------------------------------ memory ops
static ObjP newObj(State &s, uint64_t base, uint64_t size, const std::string &name, uint8_t kind) { auto o = std::make_shared<Obj>(); o->base = base; o->size = size; o->name = name; o->kind = kind; o->b.assign(size, 0); if (kind) o->st.assign(size, 2); return o; }
static MemMap &wmem(State &s) { if (s.mem.use_count() > 1) s.mem = std::make_shared<MemMap>(*s.mem); return *s.mem; }
static Obj *findObj(State &s, uint64_t a) { auto &m = s.mem->m; auto it = m.upper_bound(a); if (it == m.begin()) return nullptr; --it; Obj *o = it->second.get(); if (a >= o->base && a <= o->base + o->size) return o; return nullptr; }
static Obj *wObj(State &s, Obj *o) { MemMap &mm = wmem(s); auto &p = mm.m[o->base]; if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p.get(); }
static uint64_t allocHeap(State &s, uint64_t size, const std::string &nm, uint8_t kind) { uint64_t a = s.nextHeap; s.nextHeap += ((size + 15) & ~15ull) + 32; auto o = newObj(s, a, size, nm, kind); wmem(s).m[a] = o; return a; }

static std::string curWhere() {
  std::string r; int n = 0; for (int i = (int)cur->st.size() - 1; i >= 0 && n < 8; i--, n++) { Frame &f = cur->st[i]; r += f.f->dem; auto &blk = f.f->blocks[f.bb]; uint32_t ip = f.ip; if (i != (int)cur->st.size() - 1 && ip > 0) ip--; if (ip < blk.ins.size()) { if (auto dl = blk.ins[ip].I->getDebugLoc()) { r += ":" + std::to_string(dl.getLine()); } } r += " <- "; } return r; }

static void memErr(const std::string &m) { throw PathEnd{"memory-error", m}; }

static Obj *access(State &s, uint64_t a, uint64_t n, bool write) {
  Obj *o = findObj(s, a);
  if (!o) { char b[64]; snprintf(b, 64, "access to unmapped address 0x%llx", (unsigned long long)a); memErr(b); }
  if (a + n > o->base + o->size) memErr("out of bounds " + std::string(write ? "write" : "read") + " of " + std::to_string(n) + " at offset " + std::to_string(a - o->base) + " in object '" + o->name + "' of size " + std::to_string(o->size));
  if (write) { if (o->ro) memErr("write to constant " + o->name); return wObj(s, o); }
  return o;
}
static const Expr *byteExpr(Obj *o, uint32_t off) {
  if (o->st.empty() || o->st[off] == 0) return mkConst(o->b[off], 8);
  if (o->st[off] == 2) { const Expr *v = mkVarBV("undef." + o->name + "+" + std::to_string(off), 8, 0, 255, true); o->st[off] = 1; o->sym[off] = {v, 0}; return v; }
  SymB &sb = o->sym[off]; return mkExtract(sb.e, sb.idx * 8, 8);
}
static Val loadBytes(State &s, uint64_t a, unsigned n, bool isF, Ty fty) {
  Obj *o = access(s, a, n, false); uint32_t off = (uint32_t)(a - o->base);
  bool anySym = false, anyUndef = false; if (!o->st.empty()) for (unsigned i = 0; i < n; i++) { if (o->st[off + i] == 1) anySym = true; else if (o->st[off + i] == 2) anyUndef = true; }
  if (!anySym && !anyUndef) { uint64_t v = 0; memcpy(&v, &o->b[off], n); return V(v); }
  if (anyUndef) { bool all = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i] != 2) all = false;
    o = wObj(s, o);
    if (all) { const Expr *v = mkVarBV("undef." + o->name + "+" + std::to_string(off), n * 8, 0, maskw(n * 8), true); for (unsigned i = 0; i < n; i++) { o->st[off + i] = 1; o->sym[off + i] = {v, (uint8_t)i}; } return V(isF ? mkI2F(v, fty) : v); }
    for (unsigned i = 0; i < n; i++) if (o->st[off + i] == 2) byteExpr(o, off + i); }
  // whole-value fast path
  if (o->st[off] == 1) { SymB &sb = o->sym[off]; if (sb.idx == 0 && sb.e->width == n * 8) { bool ok = true; for (unsigned i = 1; i < n && ok; i++) { if (o->st[off + i] != 1) ok = false; else { SymB &t = o->sym[off + i]; ok = t.e == sb.e && t.idx == i; } } if (ok) { if (isF) return V(mkI2F(sb.e, fty)); return V(mkF2I(sb.e)); } } }
  const Expr *r = byteExpr(o, off + n - 1); for (int i = (int)n - 2; i >= 0; i--) r = mkConcat(r, byteExpr(o, off + i));
  if (isF) r = mkI2F(r, fty); return V(r);
}
static void storeBytes(State &s, uint64_t a, unsigned n, const Val &v) {
  Obj *o = access(s, a, n, true); uint32_t off = (uint32_t)(a - o->base);
  if (!v.e) { memcpy(&o->b[off], &v.c, n); if (!o->st.empty()) for (unsigned i = 0; i < n; i++) { if (o->st[off + i] == 1) o->sym.erase(off + i); o->st[off + i] = 0; } return; }
  if (o->st.empty()) o->st.assign(o->size, 0);
  const Expr *e = v.e; if (e->width < n * 8) e = mkZext(e->ty == Ty::BV ? e : mkF2I(e), n * 8);
  for (unsigned i = 0; i < n; i++) { o->st[off + i] = 1; o->sym[off + i] = {e, (uint8_t)i}; }
}
static void copyBytes(State &s, uint64_t d, uint64_t src, uint64_t n) {
  if (!n) return; Obj *so = access(s, src, n, false); uint32_t sof = (uint32_t)(src - so->base);
  std::vector<uint8_t> tb(so->b.begin() + sof, so->b.begin() + sof + n), ts; std::vector<std::pair<uint32_t, SymB>> sy;
  if (!so->st.empty()) { ts.assign(so->st.begin() + sof, so->st.begin() + sof + n); for (auto it = so->sym.lower_bound(sof); it != so->sym.end() && it->first < sof + n; ++it) sy.push_back({it->first - sof, it->second}); }
  Obj *o = access(s, d, n, true); uint32_t dof = (uint32_t)(d - o->base);
  memcpy(&o->b[dof], tb.data(), n);
  if (ts.empty()) { if (!o->st.empty()) { for (auto it = o->sym.lower_bound(dof); it != o->sym.end() && it->first < dof + n;) it = o->sym.erase(it); memset(&o->st[dof], 0, n); } }
  else { if (o->st.empty()) o->st.assign(o->size, 0); for (auto it = o->sym.lower_bound(dof); it != o->sym.end() && it->first < dof + n;) it = o->sym.erase(it); memcpy(&o->st[dof], ts.data(), n); for (auto &p : sy) o->sym[dof + p.first] = p.second; }
}

// ------------------------------------------------------------------ solver glue
static void slice(const std::vector<const Expr *> &pc, const Expr *q, std::vector<const Expr *> &out) {
  std::set<uint32_t> vs(q->vars->begin(), q->vars->end()); std::vector<char> used(pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { bool hit = false; for (auto v : *pc[i]->vars) if (vs.count(v)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; vs.insert(pc[i]->vars->begin(), pc[i]->vars->end()); } } }
  for (size_t i = 0; i < pc.size(); i++) if (used[i]) out.push_back(pc[i]);
}
static uint64_t genCtr = 1;
static std::shared_ptr<ModelBox> mkBox(const Model &m) { auto b = std::make_shared<ModelBox>(); b->m = m; b->gen = ++genCtr; return b; }
static bool modelOK(State &s, const Expr *extra, const ModelBox &mb) { for (auto e : s.pc) if (!solver->holds(e, mb)) return false; if (extra && !solver->holds(extra, mb)) return false; return true; }

// is pc && q satisfiable? on SAT may return verified model
static Res feasible(State &s, const Expr *q, std::shared_ptr<ModelBox> *mout, unsigned timeout) {
  if (q->op == Op::CONST) { if (mout) *mout = s.model; return q->cval ? Res::SAT : Res::UNSAT; }
  if (s.model && solver->holds(q, *s.model)) { solver->st.evalHits++; if (mout) *mout = s.model; return Res::SAT; }
  std::vector<const Expr *> cj; slice(s.pc, q, cj); cj.push_back(q);
  Model m; Res r = solver->check(cj, &m, 1, timeout);
  if (r == Res::SAT && mout) {
    *mout = nullptr; Model full; if (s.model) full = s.model->m; for (auto &p : m) full[p.first] = p.second;
    auto mb = mkBox(full); if (modelOK(s, q, *mb)) *mout = mb;
    else if (q->hasFP) { Model m2; Res r2 = solver->check(cj, &m2, -1, timeout); if (r2 == Res::SAT) { Model f2; if (s.model) f2 = s.model->m; for (auto &p : m2) f2[p.first] = p.second; auto mb2 = mkBox(f2); if (modelOK(s, q, *mb2)) *mout = mb2; } }
    if (!*mout && !s.model) { // no base model: solve the whole path condition
      std::vector<const Expr *> all = s.pc; all.push_back(q); Model m3; if (solver->check(all, &m3, -1, timeout) == Res::SAT) { auto mb3 = mkBox(m3); if (modelOK(s, q, *mb3)) *mout = mb3; } }
  } else if (mout) *mout = nullptr;
  return r;
}

static StateP cloneState(State &s) { auto n = std::make_unique<State>(s); n->id = nextStateId++; return n; }

static void addPC(State &s, const Expr *c) { if (c->op == Op::CONST) return; if (c->op == Op::AND && c->width == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; } for (auto e : s.pc) if (e == c) return; s.pc.push_back(c); }

// Decide a symbolic condition for current state: forks; returns the branch taken by current state. The other is queued.
static bool branchOn(const Expr *c, std::function<void(State &)> onFork) {
  State &s = *cur;
  if (c->op == Op::CONST) return c->cval;
  for (auto e : s.pc) { if (e == c) return true; }
  const Expr *nc = mkNot(c); for (auto e : s.pc) if (e == nc) return false;
  if (c->hasUndef) { stats.undefBranches++; s.undefBranch = true; if (opt.undefCheck) throw PathEnd{"uninitialised", "branch depends on uninitialised memory: " + exprStr(c)}; }
  std::shared_ptr<ModelBox> mt, mf;
  Res rt = feasible(s, c, &mt, opt.qTimeout); 
  if (rt == Res::UNSAT) { return false; }
  Res rf = feasible(s, nc, &mf, opt.qTimeout);
  if (rf == Res::UNSAT) { if (rt == Res::UNKNOWN) {} s.model = mt ? mt : s.model; return true; }
  if (rt == Res::UNKNOWN || rf == Res::UNKNOWN) stats.unknownBranches++;
  stats.forks++;
  StateP o = cloneState(s); o->depth++; addPC(*o, nc); o->model = mf; onFork(*o); work.push_back(std::move(o));
  s.depth++; addPC(s, c); s.model = mt; return true;
}

// concretise: enumerate feasible values of e, forking
static uint64_t concretise(const Expr *e, const char *why) {
  if (e->ty != Ty::BV) e = mkF2I(e);
  if (e->op == Op::CONST) return e->cval;
  unsigned n = 0;
  for (;;) {
    if (++n > opt.maxEnum) { stats.killed++; throw PathEnd{"limit", std::string("too many values for ") + why}; }
    State &s = *cur; uint64_t v;
    std::shared_ptr<ModelBox> mb = s.model;
    if (!mb) { Model m; std::vector<const Expr *> cj; slice(s.pc, e, cj); if (cj.empty()) { Model mm; mb = mkBox(mm); } else { Res r = solver->check(cj, &m, 1, opt.qTimeout); if (r == Res::UNSAT) throw PathEnd{"infeasible", ""}; if (r != Res::SAT) throw PathEnd{"limit", std::string("unknown while concretising ") + why}; mb = mkBox(m); } }
    gEvalGen = mb->gen; v = evalExpr(e, mb->m);
    const Expr *eq = mkBin(Op::EQ, e, mkConst(v, e->width));
    // the forked copy re-executes this instruction with e != v
    bool t = branchOn(eq, [&](State &) {});
    if (t) return v;
  }
}

// ------------------------------------------------------------------ decode
static Val constVal(const Constant *C);
static const Agg *mkAgg(const std::vector<Val> &v) { auto a = new Agg; a->v = v; return a; }
static uint64_t fnAddr(Function *F) { auto it = gaddr.find(F); if (it != gaddr.end()) return it->second; static uint64_t n = 0x10000; uint64_t a = n; n += 16; gaddr[F] = a; faddr[a] = F; return a; }
static int64_t gepConst(const GEPOperator *G) { APInt off(64, 0); if (!G->accumulateConstantOffset(*DL, off)) { errs() << "non-constant gep constant\n"; abort(); } return off.getSExtValue(); }
static Val constVal(const Constant *C) {
  if (auto ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) return V(ci->getValue().trunc(64).getZExtValue()); return V(ci->getZExtValue()); }
  if (auto cf = dyn_cast<ConstantFP>(C)) return V(cf->getValueAPF().bitcastToAPInt().getZExtValue());
  if (isa<ConstantPointerNull>(C)) return V((uint64_t)0);
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
    Type *t = C->getType(); if (auto st = dyn_cast<StructType>(t)) { std::vector<Val> v; for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(constVal(isa<UndefValue>(C) ? UndefValue::get(st->getElementType(i)) : Constant::getNullValue(st->getElementType(i)))); Val r; r.a = mkAgg(v); return r; }
    if (auto at = dyn_cast<ArrayType>(t)) { std::vector<Val> v; for (unsigned i = 0; i < at->getNumElements(); i++) v.push_back(constVal(Constant::getNullValue(at->getElementType()))); Val r; r.a = mkAgg(v); return r; }
    if (auto vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> v(vt->getNumElements()); Val r; r.a = mkAgg(v); return r; }
    return V((uint64_t)0); }
  if (auto f = dyn_cast<Function>(C)) return V(fnAddr(const_cast<Function *>(f)));
  if (auto g = dyn_cast<GlobalVariable>(C)) { auto it = gaddr.find(g); if (it == gaddr.end()) { errs() << "global without address " << g->getName() << "\n"; abort(); } return V(it->second); }
  if (auto ga = dyn_cast<GlobalAlias>(C)) return constVal(ga->getAliasee());
  if (auto ca = dyn_cast<ConstantAggregate>(C)) { std::vector<Val> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(constVal(ca->getOperand(i))); Val r; r.a = mkAgg(v); return r; }
  if (auto cd = dyn_cast<ConstantDataSequential>(C)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i))); Val r; r.a = mkAgg(v); return r; }
  if (auto ce = dyn_cast<ConstantExpr>(C)) {
    if (auto G = dyn_cast<GEPOperator>(ce)) { Val b = constVal(cast<Constant>(G->getPointerOperand())); return V(b.c + (uint64_t)gepConst(G)); }
    switch (ce->getOpcode()) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
    case Instruction::Add: return V(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c);
    case Instruction::Sub: return V(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
    case Instruction::Trunc: return V(constVal(ce->getOperand(0)).c & maskw(bitsOf(ce->getType())));
    case Instruction::ICmp: { uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return V((uint64_t)(a == b)); case CmpInst::ICMP_NE: return V((uint64_t)(a != b)); case CmpInst::ICMP_UGT: return V((uint64_t)(a > b)); case CmpInst::ICMP_ULT: return V((uint64_t)(a < b)); default: break; } break; }
    default: break; }
  }
  errs() << "symir: unsupported constant " << *C << "\n"; abort();
}

static DFunc *decode(Function *F) {
  auto it = dfuncs.find(F); if (it != dfuncs.end()) return it->second.get();
  auto d = std::make_unique<DFunc>(); d->F = F; d->dem = demangle(F->getName().str()); { size_t p = d->dem.find('('); if (p != std::string::npos && d->dem.compare(0, 9, "operator(") != 0) d->dem = d->dem.substr(0, p); }
  if (auto sp = F->getSubprogram()) { std::string fn = (sp->getDirectory() + "/" + sp->getFilename()).str(); if (!sp->getFilename().empty() && sp->getFilename()[0] == '/') fn = sp->getFilename().str(); d->fromRepo = !opt.srcPrefix.empty() && fn.compare(0, opt.srcPrefix.size(), opt.srcPrefix) == 0; }
  std::unordered_map<const Value *, uint32_t> slot; uint32_t n = 0; for (auto &a : F->args()) { slot[&a] = n; d->argSlots.push_back(n++); }
  std::unordered_map<const BasicBlock *, uint32_t> bidx; uint32_t bi = 0; for (auto &B : *F) bidx[&B] = bi++;
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++;
  d->nslots = n;
  auto mkop = [&](Value *v) { DOp o; o.isConst = false; o.slot = 0; if (auto C = dyn_cast<Constant>(v)) { o.isConst = true; o.v = constVal(C); } else if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) { o.isConst = true; } else o.slot = slot[v]; return o; };
  for (auto &B : *F) { DBlock db; db.bb = &B;
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      DInst x; x.I = &I; x.opc = I.getOpcode(); x.dst = I.getType()->isVoidTy() ? -1 : (int32_t)slot[&I]; x.ty = I.getType(); x.w = I.getType()->isSized() && !I.getType()->isVoidTy() ? bitsOf(I.getType()) : 0; x.fty = ftyOf(I.getType());
      if (auto cb = dyn_cast<CallBase>(&I)) { for (auto &a : cb->args()) x.ops.push_back(mkop(a)); x.callee = cb->getCalledFunction(); if (!x.callee) { if (auto ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) x.callee = dyn_cast<Function>(ga->getAliaseeObject()); } if (!x.callee) { x.ops.push_back(mkop(cb->getCalledOperand())); } if (auto iv = dyn_cast<InvokeInst>(&I)) { x.succ.push_back(bidx[iv->getNormalDest()]); x.succ.push_back(bidx[iv->getUnwindDest()]); } }
      else if (auto br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) x.ops.push_back(mkop(br->getCondition())); for (unsigned i = 0; i < br->getNumSuccessors(); i++) x.succ.push_back(bidx[br->getSuccessor(i)]); }
      else if (auto sw = dyn_cast<SwitchInst>(&I)) { x.ops.push_back(mkop(sw->getCondition())); x.w = bitsOf(sw->getCondition()->getType()); x.succ.push_back(bidx[sw->getDefaultDest()]); for (auto &cs : sw->cases()) { x.cases.push_back(cs.getCaseValue()->getZExtValue()); x.succ.push_back(bidx[cs.getCaseSuccessor()]); } }
      else if (auto ph = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { x.ops.push_back(mkop(ph->getIncomingValue(i))); x.succ.push_back(bidx[ph->getIncomingBlock(i)]); } }
      else if (auto gp = dyn_cast<GetElementPtrInst>(&I)) {
        x.ops.push_back(mkop(gp->getPointerOperand())); 
        for (gep_type_iterator gi = gep_type_begin(gp), ge = gep_type_end(gp); gi != ge; ++gi) {
          Value *idx = gi.getOperand();
          if (StructType *st = gi.getStructTypeOrNull()) x.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          else { uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto ci = dyn_cast<ConstantInt>(idx)) x.gepOff += ci->getSExtValue() * (int64_t)sz; else { x.gepIdx.push_back({(uint32_t)x.ops.size(), sz}); x.ops.push_back(mkop(idx)); x.cases.push_back(bitsOf(idx->getType())); } }
        } }
      else { for (auto &o : I.operands()) x.ops.push_back(mkop(o)); if (auto ai = dyn_cast<AllocaInst>(&I)) { x.aux = DL->getTypeAllocSize(ai->getAllocatedType()); } if (auto si = dyn_cast<StoreInst>(&I)) x.w = bitsOf(si->getValueOperand()->getType()); if (isa<ICmpInst>(I) ) x.w = bitsOf(I.getOperand(0)->getType()->getScalarType()); if (isa<FCmpInst>(I)) x.fty = ftyOf(I.getOperand(0)->getType()->getScalarType()); }
      db.ins.push_back(std::move(x)); }
    db.firstNonPhi = 0; while (db.firstNonPhi < db.ins.size() && db.ins[db.firstNonPhi].opc == Instruction::PHI) db.firstNonPhi++;
    d->blocks.push_back(std::move(db)); }
  DFunc *r = d.get(); dfuncs[F] = std::move(d); return r;
}

// ------------------------------------------------------------------ typed load/store
static Val loadTy(State &s, uint64_t a, Type *t);
static void storeTy(State &s, uint64_t a, Type *t, const Val &v);
static Val loadTy(State &s, uint64_t a, Type *t) {
  if (auto st = dyn_cast<StructType>(t)) { std::vector<Val> v; auto L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadTy(s, a + L->getElementOffset(i), st->getElementType(i))); Val r; r.a = mkAgg(v); return r; }
  if (auto at = dyn_cast<ArrayType>(t)) { std::vector<Val> v; uint64_t sz = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) v.push_back(loadTy(s, a + i * sz, at->getElementType())); Val r; r.a = mkAgg(v); return r; }
  if (auto vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> v; uint64_t sz = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(loadTy(s, a + i * sz, vt->getElementType())); Val r; r.a = mkAgg(v); return r; }
  unsigned bits = bitsOf(t); unsigned n = (bits + 7) / 8; if (bits > 64) throw PathEnd{"unsupported", "load of " + std::to_string(bits) + " bits"};
  bool isF = t->isFloatTy() || t->isDoubleTy(); Val v = loadBytes(s, a, n, isF, ftyOf(t)); 
  if (!isF && bits < n * 8) { if (v.e) v = V(mkExtract(v.e, 0, bits)); else v.c &= maskw(bits); } return v;
}
static void storeTy(State &s, uint64_t a, Type *t, const Val &v) {
  if (auto st = dyn_cast<StructType>(t)) { auto L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(s, a + L->getElementOffset(i), st->getElementType(i), v.a->v[i]); return; }
  if (auto at = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeTy(s, a + i * sz, at->getElementType(), v.a->v[i]); return; }
  if (auto vt = dyn_cast<FixedVectorType>(t)) { uint64_t sz = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) storeTy(s, a + i * sz, vt->getElementType(), v.a->v[i]); return; }
  unsigned bits = bitsOf(t); if (bits > 64) throw PathEnd{"unsupported", "store of wide int"}; storeBytes(s, a, (bits + 7) / 8, v);
}

static void initGlobal(State &s, uint64_t a, const Constant *C) {
  Type *t = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
  if (auto cd = dyn_cast<ConstantDataSequential>(C)) { StringRef r = cd->getRawDataValues(); Obj *o = findObj(s, a); memcpy(&o->b[a - o->base], r.data(), r.size()); return; }
  if (auto st = dyn_cast<StructType>(t)) { auto L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(s, a + L->getElementOffset(i), C->getAggregateElement(i)); return; }
  if (auto at = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initGlobal(s, a + i * sz, C->getAggregateElement(i)); return; }
  storeTy(s, a, t, constVal(C));
}

static std::string readStr(State &s, uint64_t a) { std::string r; for (unsigned i = 0; i < 4096; i++) { Val v = loadBytes(s, a + i, 1, false, Ty::F64); uint64_t c = v.e ? concretise(v.e, "string") : v.c; if (!c) break; r += (char)c; } return r; }

// ------------------------------------------------------------------ violation recording
static void fillInputs(Violation &v, State &s, const Model &m) { Model mm = m; newEvalGen(); static uint64_t g = 1ull << 62; gEvalGen = ++g; for (auto &i : s.inputs) { v.inputs.push_back({i.name, i.e ? evalExpr(i.e, mm) : i.c}); v.kinds.push_back(i.kind); } }
static void report(State &s, const std::string &kind, const std::string &label, const std::string &msg, const Expr *neg) {
  // find concrete witness
  Violation v; v.kind = kind; v.label = label; v.msg = msg; v.where = curWhere(); v.confirmed = false;
  for (auto &x : viols) if (x.label == label && x.kind == kind && viols.size() >= opt.maxViol) return;
  Model m; bool have = false;
  const Expr *q = neg ? neg : mkConst(1, 1);
  if (s.model && solver->holds(q, *s.model)) { m = s.model->m; have = true; }
  if (!have) {
    std::vector<const Expr *> all = s.pc; all.push_back(q);
    int modes[2] = {-1, 1}; int nm = 2; if (!q->hasFP) { bool f = false; for (auto e : s.pc) f |= e->hasFP; if (!f) nm = 1; }
    for (int k = 0; k < nm && !have; k++) {
      std::vector<const Expr *> cj; slice(s.pc, q, cj); cj.push_back(q); Model m1;
      if (solver->check(cj, &m1, modes[k], opt.aTimeout) == Res::SAT) { Model f; if (s.model) f = s.model->m; for (auto &p : m1) f[p.first] = p.second; auto mb = mkBox(f); if (modelOK(s, q, *mb)) { m = f; have = true; } else { if (gVerbose) fprintf(stderr, "candidate not exact (mode %d)\n", modes[k]); Model m2; if (solver->check(all, &m2, modes[k], opt.aTimeout) == Res::SAT) { auto mb2 = mkBox(m2); if (modelOK(s, q, *mb2)) { m = m2; have = true; } } } }
    }
  }
  v.confirmed = have; fillInputs(v, s, m);
  if (have || unconf.size() < 40) (have ? viols : unconf).push_back(v);
  if (!have) stats.inconclusive++;
  fprintf(stderr, "[symir] %s %s label=%s %s\n    at %s\n", have ? "CANDIDATE" : "UNCONFIRMED", kind.c_str(), label.c_str(), msg.c_str(), v.where.c_str());
  if (gVerbose) for (auto &i : v.inputs) fprintf(stderr, "    %s = %llu (%.17g)\n", i.first.c_str(), (unsigned long long)i.second, b2d(i.second));
}

// ------------------------------------------------------------------ calls
static void pushFrame(DFunc *f, std::vector<Val> &args, int32_t dst, bool isInvoke, uint32_t normSucc, uint32_t unwSucc = 0) {
  State &s = *cur; Frame fr; fr.f = f; fr.regs.resize(f->nslots); for (size_t i = 0; i < f->argSlots.size() && i < args.size(); i++) fr.regs[f->argSlots[i]] = args[i];
  fr.bb = 0; fr.prevbb = 0; fr.ip = 0; fr.retDst = dst; fr.isInvoke = isInvoke; fr.normSucc = normSucc; fr.unwSucc = unwSucc; f->hits++; s.st.push_back(std::move(fr));
  if (s.st.size() > 400) throw PathEnd{"limit", "call depth"};
}
static void jump(Frame &fr, uint32_t to) {
  uint32_t from = fr.bb; DBlock &b = fr.f->blocks[to];
  if (b.firstNonPhi) { static thread_local std::vector<Val> tmp; tmp.clear();
    for (unsigned i = 0; i < b.firstNonPhi; i++) { DInst &x = b.ins[i]; bool f = false; for (size_t k = 0; k < x.succ.size(); k++) if (x.succ[k] == from) { const DOp &o = x.ops[k]; tmp.push_back(o.isConst ? o.v : fr.regs[o.slot]); f = true; break; } if (!f) { errs() << "phi?\n"; abort(); } }
    for (unsigned i = 0; i < b.firstNonPhi; i++) fr.regs[b.ins[i].dst] = tmp[i]; }
  fr.prevbb = from; fr.bb = to; fr.ip = b.firstNonPhi;
}
// ---- C++ exceptions (Itanium ABI): two-phase unwinding over the interpreter's frames
struct Unwound {};   // thrown after the frames were unwound to a landing pad: the interrupted call is abandoned
static bool tiBase(const Constant *t, const Constant *want, int depth = 0) {
  if (t == want) return true; auto g = dyn_cast<GlobalVariable>(t); if (!g || !g->hasInitializer() || depth > 20) return false; auto cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return false;
  for (unsigned i = 2; i < cs->getNumOperands(); i++) if (auto b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) if (tiBase(b, want, depth + 1)) return true; return false; }
static const Constant *tiOf(uint64_t a) { for (auto &g : gaddr) if (g.second == a) return dyn_cast<Constant>(g.first); return nullptr; }
static uint64_t tiSel(const Constant *c) { auto it = gaddr.find(cast<GlobalValue>(c)); return it == gaddr.end() ? 0x7fffffff : (it->second & 0x7fffffff); }
// 0 no, 1 cleanup only, 2 handler
static int padMatch(DFunc *f, uint32_t bb, const Constant *ti, uint64_t &sel) {
  DBlock &b = f->blocks[bb]; auto lp = dyn_cast<LandingPadInst>(b.ins[b.firstNonPhi].I); if (!lp) return 0;
  for (unsigned i = 0; i < lp->getNumClauses(); i++) { const Constant *c = cast<Constant>(lp->getClause(i)->stripPointerCasts());
    if (lp->isFilter(i)) { sel = 0xffffffff; if (isa<ConstantAggregateZero>(c) || c->getType()->getArrayNumElements() == 0) return 2; continue; }
    if (c->isNullValue()) { sel = 0x7ffffffe; return 2; } if (ti && tiBase(ti, c)) { sel = tiSel(c); return 2; } }
  sel = 0; return lp->isCleanup() ? 1 : 0; }
static void jump(Frame &fr, uint32_t to);
[[noreturn]] static void unwind(State &s, bool topInvoke, uint32_t topPad) {
  const Constant *ti = tiOf(s.excTI); uint64_t sel; bool handler = false; bool inv = topInvoke; uint32_t pad = topPad;
  for (size_t i = s.st.size(); i-- > 0 && !handler;) { if (inv && padMatch(s.st[i].f, pad, ti, sel) == 2) handler = true; inv = s.st[i].isInvoke; pad = s.st[i].unwSucc; }
  if (!handler) throw PathEnd{"exception", "uncaught C++ exception " + (ti ? demangle(ti->getName().str()) : std::string())};
  inv = topInvoke; pad = topPad;
  while (!s.st.empty()) { Frame &fr = s.st.back(); if (inv && padMatch(fr.f, pad, ti, sel)) { s.excSel = sel; jump(fr, pad); throw Unwound(); }
    inv = fr.isInvoke; pad = fr.unwSucc; for (auto a : fr.allocas) wmem(s).m.erase(a); s.st.pop_back(); }
  throw PathEnd{"exception", "uncaught C++ exception"}; }
static uint64_t conc(const Val &v, const char *why) { if (!v.e) return v.c; return concretise(v.e, why); }

static int addInput(State &s, const std::string &n, const Expr *e, uint64_t c, char kind) { s.inputs.push_back({n, e && e->op != Op::CONST ? e : nullptr, e && e->op == Op::CONST ? e->cval : c, kind}); return 0; }

typedef std::function<Val(DInst &, std::vector<Val> &)> Ext;
static std::unordered_map<std::string, Ext> exts;
static std::unordered_map<std::string, std::string> replaceMap;

static void doAssert(State &s, const Expr *c, const std::string &label) {
  stats.asserts++; stats.assertLabels[label]++;
  if (c->op == Op::CONST && c->cval) { stats.assertsConcrete++; return; }
  const Expr *n = mkNot(c);
  if (c->op == Op::CONST) { report(s, "assert", label, "assertion false on this path", nullptr); throw PathEnd{"assert-failed", label}; }
  if (s.model && solver->holds(n, *s.model)) { report(s, "assert", label, "assertion violated", n); }
  else {
    std::vector<const Expr *> cj; slice(s.pc, n, cj); cj.push_back(n); Model m; Res r = solver->check(cj, &m, 1, opt.aTimeout);
    if (r == Res::UNSAT) { stats.assertsProved++; }
    else if (r == Res::SAT) report(s, "assert", label, "assertion violated", n);
    else { stats.assertsUnknown++; if (gVerbose) fprintf(stderr, "[symir] assert unknown: %s\n", label.c_str()); }
  }
  // continue with the assertion assumed
  std::shared_ptr<ModelBox> mb; Res r2 = feasible(s, c, &mb, opt.qTimeout); if (r2 == Res::UNSAT) throw PathEnd{"assert-failed", label}; addPC(s, c); s.model = mb;
}

static std::string fmtArgs(State &s, const std::string &f, std::vector<Val> &a, size_t ai) {
  std::string out; for (size_t i = 0; i < f.size(); i++) { if (f[i] != '%') { out += f[i]; continue; } if (f[i + 1] == '%') { out += '%'; i++; continue; }
    std::string sp = "%"; i++; while (i < f.size() && !strchr("diuxXcsfgeEGlzp", f[i])) { if (f[i] == '*') { sp += std::to_string((int)conc(a[ai++], "fmt")); i++; } else sp += f[i++]; } 
    std::string len; while (i < f.size() && strchr("lz", f[i])) len += f[i++]; char k = f[i]; char buf[512];
    if (strchr("di", k)) { int64_t v = (int64_t)conc(a[ai++], "fmt"); if (len.empty()) v = (int32_t)v; snprintf(buf, 512, (sp + "lld").c_str(), (long long)v); out += buf; }
    else if (strchr("uxX", k)) { uint64_t v = conc(a[ai++], "fmt"); if (len.empty()) v = (uint32_t)v; snprintf(buf, 512, (sp + "ll" + k).c_str(), (unsigned long long)v); out += buf; }
    else if (k == 'c') { out += (char)conc(a[ai++], "fmt"); }
    else if (k == 's') { std::string q = readStr(s, conc(a[ai++], "fmt")); snprintf(buf, 512, (sp + "s").c_str(), q.c_str()); out += buf; }
    else if (k == 'p') { out += "0x" + std::to_string(conc(a[ai++], "fmt")); }
    else { double d = b2d(conc(a[ai++], "fmt")); snprintf(buf, 512, (sp + k).c_str(), d); out += buf; } }
  return out; }
static void writeStr(State &s, uint64_t a, const std::string &t) { for (size_t i = 0; i <= t.size(); i++) storeBytes(s, a + i, 1, V((uint64_t)(uint8_t)(i < t.size() ? t[i] : 0))); }

static Val f1(const char *fn, std::vector<Val> &a, Ty t) { if (!a[0].e) return V(foldFCall(fn, t, a[0].c, 0)); return V(mkFCall(fn, t, EF(a[0], t), nullptr)); }
static Val f2(const char *fn, std::vector<Val> &a, Ty t) { if (!a[0].e && !a[1].e) return V(foldFCall(fn, t, a[0].c, a[1].c)); return V(mkFCall(fn, t, EF(a[0], t), EF(a[1], t))); }
static Val fu(Op op, std::vector<Val> &a, Ty t) { if (!a[0].e) return V(foldFUn(op, a[0].c, t)); return V(mkFUn(op, EF(a[0], t))); }

static Val memcmpImpl(std::vector<Val> &a, bool eqOnly) {
  State &s = *cur; uint64_t p = conc(a[0], "memcmp"), q = conc(a[1], "memcmp"), n = conc(a[2], "memcmp"); const Expr *r = nullptr;
  std::vector<std::pair<const Expr *, const Expr *>> prs;
  for (uint64_t i = 0; i < n; i++) { Val x = loadBytes(s, p + i, 1, false, Ty::F64), y = loadBytes(s, q + i, 1, false, Ty::F64); if (!x.e && !y.e) { if (x.c == y.c) continue; prs.push_back({mkConst(x.c, 8), mkConst(y.c, 8)}); break; } prs.push_back({E(x, 8), E(y, 8)}); }
  r = mkConst(0, 32);
  for (int i = (int)prs.size() - 1; i >= 0; i--) { const Expr *eq = mkBin(Op::EQ, prs[i].first, prs[i].second); const Expr *d = eqOnly ? mkConst(1, 32) : mkIte(mkBin(Op::ULT, prs[i].first, prs[i].second), mkConst(0xffffffffu, 32), mkConst(1, 32)); r = mkIte(eq, r, d); }
  return V(r);
}

static void setupExts() {
  auto &X = exts;
  auto alloc = [](uint8_t kind) { return [kind](DInst &x, std::vector<Val> &a) { uint64_t n = conc(a[0], "malloc size"); if (n > (1ull << 28)) throw PathEnd{"exception", "huge allocation (bad_alloc)"}; return V(allocHeap(*cur, n, "heap@" + (cur->st.empty() ? std::string("?") : cur->st.back().f->dem), kind)); }; };
  X["malloc"] = alloc(2); X["_Znwm"] = alloc(3); X["_Znam"] = alloc(4); X["_ZnwmRKSt9nothrow_t"] = alloc(3);
  X["calloc"] = [](DInst &, std::vector<Val> &a) { uint64_t n = conc(a[0], "calloc") * conc(a[1], "calloc"); uint64_t p = allocHeap(*cur, n, "heap", 2); Obj *o = wObj(*cur, findObj(*cur, p)); o->st.clear(); return V(p); };
  auto fre = [](uint8_t kind) { return [kind](DInst &, std::vector<Val> &a) { uint64_t p = conc(a[0], "free"); if (!p) return V((uint64_t)0); Obj *o = findObj(*cur, p); if (!o || o->base != p || o->kind < 2) memErr("invalid or double free"); if (o->kind != kind && opt.undefCheck) memErr("mismatched allocation/deallocation"); wmem(*cur).m.erase(p); return V((uint64_t)0); }; };
  X["free"] = fre(2); X["_ZdlPv"] = fre(3); X["_ZdlPvm"] = fre(3); X["_ZdaPv"] = fre(4); X["_ZdaPvm"] = fre(4);
  X["realloc"] = [](DInst &, std::vector<Val> &a) { uint64_t p = conc(a[0], "realloc"), n = conc(a[1], "realloc"); uint64_t q = allocHeap(*cur, n, "heap", 2); if (p) { Obj *o = findObj(*cur, p); copyBytes(*cur, q, p, std::min(n, o->size)); wmem(*cur).m.erase(p); } return V(q); };
  auto mcpy = [](DInst &, std::vector<Val> &a) { copyBytes(*cur, conc(a[0], "memcpy"), conc(a[1], "memcpy"), conc(a[2], "memcpy size")); return a[0]; };
  X["memcpy"] = mcpy; X["memmove"] = mcpy;
  X["memset"] = [](DInst &, std::vector<Val> &a) { uint64_t p = conc(a[0], "memset"), n = conc(a[2], "memset size"); Val b; if (a[1].e) b = V(mkExtract(a[1].e, 0, 8)); else b = V(a[1].c & 255); if (n) access(*cur, p, n, true); for (uint64_t i = 0; i < n; i++) storeBytes(*cur, p + i, 1, b); return a[0]; };
  X["memcmp"] = [](DInst &, std::vector<Val> &a) { return memcmpImpl(a, false); };
  X["bcmp"] = [](DInst &, std::vector<Val> &a) { return memcmpImpl(a, true); };
  X["__cxa_atexit"] = X["__cxa_thread_atexit"] = [](DInst &, std::vector<Val> &) { return V((uint64_t)0); };
  X["__cxa_guard_acquire"] = [](DInst &, std::vector<Val> &a) { Val g = loadBytes(*cur, a[0].c, 1, false, Ty::F64); return V((uint64_t)(g.c ? 0 : 1)); };
  X["__cxa_guard_release"] = [](DInst &, std::vector<Val> &a) { storeBytes(*cur, a[0].c, 1, V((uint64_t)1)); return V((uint64_t)0); };
  X["__cxa_guard_abort"] = [](DInst &, std::vector<Val> &) { return V((uint64_t)0); };
  X["__cxa_allocate_exception"] = [](DInst &, std::vector<Val> &a) { return V(allocHeap(*cur, conc(a[0], "exc"), "exception", 2)); };
  X["__cxa_free_exception"] = [](DInst &, std::vector<Val> &) { return V((uint64_t)0); };
  X["__cxa_throw"] = [](DInst &x, std::vector<Val> &a) -> Val { cur->excPtr = a[0].c; cur->excTI = a[1].c; bool iv = x.opc == Instruction::Invoke; unwind(*cur, iv, iv ? x.succ[1] : 0); };
  X["__cxa_rethrow"] = [](DInst &x, std::vector<Val> &a) -> Val { if (cur->caught.empty()) throw PathEnd{"exception", "rethrow without exception"}; cur->excPtr = cur->caught.back().first; cur->excTI = cur->caught.back().second; bool iv = x.opc == Instruction::Invoke; unwind(*cur, iv, iv ? x.succ[1] : 0); };
  X["__cxa_begin_catch"] = [](DInst &, std::vector<Val> &a) { cur->caught.push_back({a[0].c, cur->excTI}); auto t = tiOf(cur->excTI); if (t && t->getName().starts_with("_ZTIP")) return loadBytes(*cur, a[0].c, 8, false, Ty::F64); return a[0]; };
  X["__cxa_get_exception_ptr"] = [](DInst &, std::vector<Val> &a) { return a[0]; };
  X["__cxa_end_catch"] = [](DInst &, std::vector<Val> &) { if (!cur->caught.empty()) cur->caught.pop_back(); return V((uint64_t)0); };
  X["_ZSt18uncaught_exceptionv"] = [](DInst &, std::vector<Val> &) { return V((uint64_t)0); };
  X["__cxa_pure_virtual"] = [](DInst &, std::vector<Val> &) -> Val { memErr("pure virtual call"); return V((uint64_t)0); };
  X["abort"] = [](DInst &, std::vector<Val> &) -> Val { throw PathEnd{"abort", "abort()"}; };
  X["exit"] = [](DInst &, std::vector<Val> &a) -> Val { throw PathEnd{"exit", "exit"}; };
  X["_ZSt9terminatev"] = X["abort"];
  X["__assert_fail"] = X["abort"];
  for (auto n : {"sin", "cos", "tan", "atan", "acos", "asin", "exp", "log", "log10"}) { std::string nm = n; X[nm] = [nm](DInst &, std::vector<Val> &a) { return f1(nm.c_str(), a, Ty::F64); }; X[nm + "f"] = [nm](DInst &, std::vector<Val> &a) { return f1(nm.c_str(), a, Ty::F32); }; }
  for (auto n : {"atan2", "pow", "hypot", "fmod", "fmin", "fmax", "copysign"}) { std::string nm = n; X[nm] = [nm](DInst &, std::vector<Val> &a) { return f2(nm.c_str(), a, Ty::F64); }; X[nm + "f"] = [nm](DInst &, std::vector<Val> &a) { return f2(nm.c_str(), a, Ty::F32); }; }
  struct U { const char *n; Op o; }; U us[] = {{"sqrt", Op::FSQRT}, {"fabs", Op::FABS}, {"floor", Op::FFLOOR}, {"ceil", Op::FCEIL}, {"trunc", Op::FTRUNC}, {"round", Op::FROUND}, {"rint", Op::FRINT}, {"nearbyint", Op::FRINT}};
  for (auto &u : us) { Op o = u.o; X[u.n] = [o](DInst &, std::vector<Val> &a) { return fu(o, a, Ty::F64); }; X[std::string(u.n) + "f"] = [o](DInst &, std::vector<Val> &a) { return fu(o, a, Ty::F32); }; }
  X["lround"] = X["llround"] = [](DInst &, std::vector<Val> &a) { Val r = fu(Op::FROUND, a, Ty::F64); if (!r.e) return V(foldFtoI(Op::FPTOSI, r.c, Ty::F64, 64)); return V(mkFtoI(Op::FPTOSI, r.e, 64)); };
  X["sprintf"] = [](DInst &, std::vector<Val> &a) { std::string t = fmtArgs(*cur, readStr(*cur, a[1].c), a, 2); writeStr(*cur, a[0].c, t); return V((uint64_t)t.size()); };
  X["snprintf"] = [](DInst &, std::vector<Val> &a) { std::string t = fmtArgs(*cur, readStr(*cur, a[2].c), a, 3); uint64_t n = conc(a[1], "snprintf"); if (n) writeStr(*cur, a[0].c, t.substr(0, n - 1)); return V((uint64_t)t.size()); };
  X["printf"] = [](DInst &, std::vector<Val> &a) { std::string t = fmtArgs(*cur, readStr(*cur, a[0].c), a, 1); fputs(t.c_str(), stderr); return V((uint64_t)t.size()); };
  X["puts"] = [](DInst &, std::vector<Val> &a) { fprintf(stderr, "%s\n", readStr(*cur, a[0].c).c_str()); return V((uint64_t)0); };
  X["time"] = [](DInst &, std::vector<Val> &a) { return V((uint64_t)1000000); };
  X["localtime"] = [](DInst &, std::vector<Val> &a) { uint64_t p = allocHeap(*cur, 64, "tm", 2); Obj *o = wObj(*cur, findObj(*cur, p)); o->st.clear(); return V(p); };
  X["strftime"] = [](DInst &, std::vector<Val> &a) { writeStr(*cur, a[0].c, "T"); return V((uint64_t)1); };
  // --- harness intrinsics
  X["vf_case"] = [](DInst &, std::vector<Val> &) { return V((uint64_t)opt.caseIdx); };
  X["vf_int"] = [](DInst &, std::vector<Val> &a) { std::string n = readStr(*cur, a[2].c); int64_t lo = (int64_t)a[0].c, hi = (int64_t)a[1].c; // signed range -> offset variable
      const Expr *e; if (lo >= 0) e = mkVarBV(n, 64, (uint64_t)lo, (uint64_t)hi); else e = mkBin(Op::ADD, mkVarBV(n, 64, 0, (uint64_t)(hi - lo)), mkConst((uint64_t)lo, 64)); addInput(*cur, n, e, 0, 'i'); return V(e); };
  X["vf_byte"] = [](DInst &, std::vector<Val> &a) { std::string n = readStr(*cur, a[2].c); uint64_t lo = a[0].c & 255, hi = a[1].c & 255; const Expr *e = mkVarBV(n, 8, lo, hi); addInput(*cur, n, e, 0, 'i'); return V(mkZext(e, 32)); };
  X["vf_double"] = [](DInst &, std::vector<Val> &a) { std::string n = readStr(*cur, a[2].c); const Expr *e = mkVarF(n, b2d(a[0].c), b2d(a[1].c)); addInput(*cur, n, e, 0, 'd'); return V(e); };
  X["vf_aux_double"] = [](DInst &, std::vector<Val> &a) { const Expr *e = mkVarF("aux", b2d(a[0].c), b2d(a[1].c)); return V(e); };
  X["vf_choose"] = [](DInst &x, std::vector<Val> &a) { // n-way concrete fork
      State &s = *cur; std::string nm = readStr(s, a[1].c); int64_t n = (int64_t)a[0].c; 
      for (int64_t i = n - 1; i >= 1; i--) { StateP o = cloneState(s); o->depth++; addInput(*o, nm, nullptr, (uint64_t)i, 'c'); o->st.back().regs[x.dst] = V((uint64_t)i); work.push_back(std::move(o)); stats.forks++; }
      addInput(s, nm, nullptr, 0, 'c'); return V((uint64_t)0); };
  X["vf_assume"] = [](DInst &, std::vector<Val> &a) { State &s = *cur; if (!a[0].e) { if (!(a[0].c & 1)) throw PathEnd{"assume", ""}; return V((uint64_t)0); } const Expr *c = a[0].e; if (c->width > 1) c = mkNot(mkBin(Op::EQ, c, mkConst(0, c->width))); std::shared_ptr<ModelBox> mb; Res r = feasible(s, c, &mb, opt.qTimeout); if (r == Res::UNSAT) throw PathEnd{"assume", ""}; addPC(s, c); s.model = mb; return V((uint64_t)0); };
  X["vf_assert"] = [](DInst &, std::vector<Val> &a) { std::string l = readStr(*cur, a[1].c); const Expr *c = a[0].e ? a[0].e : mkConst(a[0].c & 1, 1); if (c->width > 1) c = mkNot(mkBin(Op::EQ, c, mkConst(0, c->width))); doAssert(*cur, c, l); return V((uint64_t)0); };
  X["vf_obs_i"] = [](DInst &, std::vector<Val> &a) { State &s = *cur; s.obs.push_back({"i:" + readStr(s, a[0].c), a[1]}); return V((uint64_t)0); };
  X["vf_obs_d"] = [](DInst &, std::vector<Val> &a) { State &s = *cur; s.obs.push_back({"d:" + readStr(s, a[0].c), a[1]}); return V((uint64_t)0); };
  X["vf_reach"] = [](DInst &, std::vector<Val> &a) { stats.reach[readStr(*cur, a[0].c)]++; return V((uint64_t)0); };
  X["vf_end"] = [](DInst &, std::vector<Val> &a) -> Val { throw PathEnd{"ok", ""}; };
  X["vf_is_sym_d"] = [](DInst &, std::vector<Val> &a) { if (a[0].e && a[0].e->hasUndef && opt.undefCheck) throw PathEnd{"uninitialised", "text formed from uninitialised memory: " + exprStr(a[0].e)}; return V((uint64_t)(a[0].e ? 1 : 0)); };
  X["vf_is_sym_i"] = X["vf_is_sym_d"];
  X["vf_print_d"] = [](DInst &, std::vector<Val> &a) { fprintf(stderr, "D: %s\n", a[0].e ? exprStr(a[0].e, 12).c_str() : std::to_string(b2d(a[0].c)).c_str()); return V((uint64_t)0); };
  X["vf_print_i"] = [](DInst &, std::vector<Val> &a) { fprintf(stderr, "I: %s\n", a[0].e ? exprStr(a[0].e, 12).c_str() : std::to_string((int64_t)a[0].c).c_str()); return V((uint64_t)0); };
  X["vf_print_s"] = [](DInst &, std::vector<Val> &a) { fprintf(stderr, "S: %s\n", readStr(*cur, a[0].c).c_str()); return V((uint64_t)0); };
  X["vf_concretise"] = [](DInst &, std::vector<Val> &a) { return V(conc(a[0], "vf_concretise")); };
  // branch-free select helpers
  X["vf_must"] = [](DInst &, std::vector<Val> &a) { // 1 if condition holds on every model of the path, else 0 (no fork)
      if (!a[0].e) return V(a[0].c & 1); const Expr *c = a[0].e; if (c->width > 1) c = mkNot(mkBin(Op::EQ, c, mkConst(0, c->width))); if (c->op == Op::CONST) return V(c->cval); std::shared_ptr<ModelBox> mb; Res r = feasible(*cur, mkNot(c), &mb, opt.qTimeout); return V((uint64_t)(r == Res::UNSAT)); };
  X["vf_may"] = [](DInst &, std::vector<Val> &a) { if (!a[0].e) return V(a[0].c & 1); const Expr *c = a[0].e; if (c->width > 1) c = mkNot(mkBin(Op::EQ, c, mkConst(0, c->width))); if (c->op == Op::CONST) return V(c->cval); std::shared_ptr<ModelBox> mb; Res r = feasible(*cur, c, &mb, opt.qTimeout); return V((uint64_t)(r != Res::UNSAT)); };
  X["vf_symbolic"] = [](DInst &, std::vector<Val> &) { return V((uint64_t)1); };
  X["vf_ite_d"] = [](DInst &, std::vector<Val> &a) { if (!a[0].e) return (a[0].c & 1) ? a[1] : a[2]; const Expr *c = a[0].e; if (c->width > 1) c = mkNot(mkBin(Op::EQ, c, mkConst(0, c->width))); return V(mkIte(c, EF(a[1], Ty::F64), EF(a[2], Ty::F64))); };
  X["vf_ite_i"] = [](DInst &, std::vector<Val> &a) { if (!a[0].e) return (a[0].c & 1) ? a[1] : a[2]; const Expr *c = a[0].e; if (c->width > 1) c = mkNot(mkBin(Op::EQ, c, mkConst(0, c->width))); return V(mkIte(c, E(a[1], 64), E(a[2], 64))); };
}

static bool intrinsic(DInst &x, Function *F, std::vector<Val> &a, Val &r) {
  if (!F->isIntrinsic()) return false; unsigned w = x.w; Ty ft = x.fty;
  switch (F->getIntrinsicID()) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: return true;
  case Intrinsic::eh_typeid_for: { auto c = dyn_cast<Constant>(cast<CallBase>(x.I)->getArgOperand(0)->stripPointerCasts()); r = V(c && isa<GlobalValue>(c) ? tiSel(c) : (uint64_t)0x7ffffffe); return true; }
  case Intrinsic::vastart: { State &s = *cur; uint64_t l = conc(a[0], "va_list"); storeBytes(s, l, 4, V((uint64_t)48)); storeBytes(s, l + 4, 4, V((uint64_t)176)); storeBytes(s, l + 8, 8, V(s.st.back().va)); storeBytes(s, l + 16, 8, V((uint64_t)0)); return true; }
  case Intrinsic::vacopy: copyBytes(*cur, conc(a[0], "va_list"), conc(a[1], "va_list"), 24); return true;
  case Intrinsic::vaend: return true;
  case Intrinsic::stacksave: r = V((uint64_t)0); return true;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyBytes(*cur, conc(a[0], "memcpy"), conc(a[1], "memcpy"), conc(a[2], "memcpy size")); return true;
  case Intrinsic::memset: exts["memset"](x, a); return true;
  case Intrinsic::fabs: r = fu(Op::FABS, a, ft); return true; case Intrinsic::sqrt: r = fu(Op::FSQRT, a, ft); return true; case Intrinsic::floor: r = fu(Op::FFLOOR, a, ft); return true; case Intrinsic::ceil: r = fu(Op::FCEIL, a, ft); return true; case Intrinsic::trunc: r = fu(Op::FTRUNC, a, ft); return true; case Intrinsic::round: r = fu(Op::FROUND, a, ft); return true; case Intrinsic::rint: case Intrinsic::nearbyint: r = fu(Op::FRINT, a, ft); return true;
  case Intrinsic::sin: r = f1("sin", a, ft); return true; case Intrinsic::cos: r = f1("cos", a, ft); return true; case Intrinsic::pow: r = f2("pow", a, ft); return true; case Intrinsic::exp: r = f1("exp", a, ft); return true; case Intrinsic::log: r = f1("log", a, ft); return true; case Intrinsic::copysign: r = f2("copysign", a, ft); return true; case Intrinsic::minnum: r = f2("fmin", a, ft); return true; case Intrinsic::maxnum: r = f2("fmax", a, ft); return true;
  case Intrinsic::powi: { std::vector<Val> b{a[0], V(ft == Ty::F64 ? d2b((double)(int32_t)a[1].c) : f2b((float)(int32_t)a[1].c))}; r = f2("pow", b, ft); return true; }
  case Intrinsic::fmuladd: case Intrinsic::fma: { const Expr *m = mkFBin(Op::FMUL, EF(a[0], ft), EF(a[1], ft)); r = V(mkFBin(Op::FADD, m, EF(a[2], ft))); return true; }
  case Intrinsic::is_fpclass: { uint64_t mask = a[1].c; const Expr *e = EF(a[0], ftyOf(F->getArg(0)->getType())); const Expr *c = mkConst(0, 1); if ((mask & 3) == 3) c = mkFCmp(8, e, e); else if (mask & 3) {} if (mask & ~3ull) { if ((mask & 0x204) == 0x204) { double inf = INFINITY; c = mkBin(Op::OR, c, mkFCmp(1, mkFUn(Op::FABS, e), mkFConst(d2b(inf), e->ty))); } else throw PathEnd{"unsupported", "is.fpclass"}; } r = V(c); return true; }
  case Intrinsic::umax: { auto p = E(a[0], w), q = E(a[1], w); r = V(mkIte(mkBin(Op::ULT, p, q), q, p)); return true; }
  case Intrinsic::umin: { auto p = E(a[0], w), q = E(a[1], w); r = V(mkIte(mkBin(Op::ULT, p, q), p, q)); return true; }
  case Intrinsic::smax: { auto p = E(a[0], w), q = E(a[1], w); r = V(mkIte(mkBin(Op::SLT, p, q), q, p)); return true; }
  case Intrinsic::smin: { auto p = E(a[0], w), q = E(a[1], w); r = V(mkIte(mkBin(Op::SLT, p, q), p, q)); return true; }
  case Intrinsic::abs: { auto p = E(a[0], w); r = V(mkIte(mkBin(Op::SLT, p, mkConst(0, w)), mkBin(Op::SUB, mkConst(0, w), p), p)); return true; }
  case Intrinsic::usub_sat: { auto p = E(a[0], w), q = E(a[1], w); r = V(mkIte(mkBin(Op::ULT, p, q), mkConst(0, w), mkBin(Op::SUB, p, q))); return true; }
  case Intrinsic::uadd_sat: { auto p = E(a[0], w), q = E(a[1], w); auto t = mkBin(Op::ADD, p, q); r = V(mkIte(mkBin(Op::ULT, t, p), mkConst(maskw(w), w), t)); return true; }
  case Intrinsic::expect: r = a[0]; return true;
  case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: r = a[0]; return true;
  case Intrinsic::objectsize: r = V((uint64_t)-1); return true;
  case Intrinsic::is_constant: r = V((uint64_t)0); return true;
  case Intrinsic::trap: throw PathEnd{"abort", "llvm.trap"};
  case Intrinsic::ctlz: if (!a[0].e) { unsigned ww = bitsOf(F->getArg(0)->getType()); r = V((uint64_t)(a[0].c ? __builtin_clzll(a[0].c) - (64 - ww) : ww)); return true; } { uint64_t v = concretise(a[0].e, "ctlz"); unsigned ww = a[0].e->width; r = V((uint64_t)(v ? __builtin_clzll(v) - (64 - ww) : ww)); return true; }
  case Intrinsic::cttz: { unsigned ww = bitsOf(F->getArg(0)->getType()); uint64_t v = conc(a[0], "cttz"); r = V((uint64_t)(v ? __builtin_ctzll(v) : ww)); return true; }
  case Intrinsic::ctpop: r = V((uint64_t)__builtin_popcountll(conc(a[0], "ctpop"))); return true;
  case Intrinsic::bswap: { unsigned ww = bitsOf(F->getArg(0)->getType()); uint64_t v = conc(a[0], "bswap"); r = V(__builtin_bswap64(v) >> (64 - ww)); return true; }
  case Intrinsic::fshl: { unsigned ww = w; auto p = E(a[0], ww), q = E(a[1], ww); uint64_t sh = conc(a[2], "fshl") % ww; if (sh == 0) r = V(p); else r = V(mkBin(Op::OR, mkBin(Op::SHL, p, mkConst(sh, ww)), mkBin(Op::LSHR, q, mkConst(ww - sh, ww)))); return true; }
  case Intrinsic::fshr: { unsigned ww = w; auto p = E(a[0], ww), q = E(a[1], ww); uint64_t sh = conc(a[2], "fshr") % ww; if (sh == 0) r = V(q); else r = V(mkBin(Op::OR, mkBin(Op::SHL, p, mkConst(ww - sh, ww)), mkBin(Op::LSHR, q, mkConst(sh, ww)))); return true; }
  case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: { Op o = F->getIntrinsicID() == Intrinsic::fptosi_sat ? Op::FPTOSI : Op::FPTOUI; r = V(mkFtoI(o, EF(a[0], ftyOf(F->getArg(0)->getType())), w)); return true; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    unsigned ww = bitsOf(F->getArg(0)->getType()); auto id = F->getIntrinsicID(); auto p = E(a[0], ww), q = E(a[1], ww); const Expr *res, *ov;
    if (id == Intrinsic::uadd_with_overflow) { res = mkBin(Op::ADD, p, q); ov = mkBin(Op::ULT, res, p); }
    else if (id == Intrinsic::usub_with_overflow) { res = mkBin(Op::SUB, p, q); ov = mkBin(Op::ULT, p, q); }
    else if (ww <= 32) { bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; auto P = sg ? mkSext(p, 64) : mkZext(p, 64), Q = sg ? mkSext(q, 64) : mkZext(q, 64); Op o = id == Intrinsic::sadd_with_overflow ? Op::ADD : id == Intrinsic::ssub_with_overflow ? Op::SUB : Op::MUL; auto T = mkBin(o, P, Q); res = mkExtract(T, 0, ww); ov = mkNot(mkBin(Op::EQ, T, sg ? mkSext(res, 64) : mkZext(res, 64))); }
    else { uint64_t pv = conc(a[0], "ovf"), qv = conc(a[1], "ovf"); if (id == Intrinsic::umul_with_overflow) { u128 t = (u128)pv * qv; res = mkConst((uint64_t)t, 64); ov = mkConst((t >> 64) != 0, 1); } else { i128 t = id == Intrinsic::smul_with_overflow ? (i128)(int64_t)pv * (int64_t)qv : id == Intrinsic::sadd_with_overflow ? (i128)(int64_t)pv + (int64_t)qv : (i128)(int64_t)pv - (int64_t)qv; res = mkConst((uint64_t)t, 64); ov = mkConst(t != (i128)(int64_t)t, 1); } }
    Val v; v.a = mkAgg({V(res), V(ov)}); r = v; return true; }
  default: throw PathEnd{"unsupported", "intrinsic " + F->getName().str()};
  }
}

static Op binOp(unsigned opc) { switch (opc) { case Instruction::Add: return Op::ADD; case Instruction::Sub: return Op::SUB; case Instruction::Mul: return Op::MUL; case Instruction::UDiv: return Op::UDIV; case Instruction::SDiv: return Op::SDIV; case Instruction::URem: return Op::UREM; case Instruction::SRem: return Op::SREM; case Instruction::And: return Op::AND; case Instruction::Or: return Op::OR; case Instruction::Xor: return Op::XOR; case Instruction::Shl: return Op::SHL; case Instruction::LShr: return Op::LSHR; case Instruction::AShr: return Op::ASHR; case Instruction::FAdd: return Op::FADD; case Instruction::FSub: return Op::FSUB; case Instruction::FMul: return Op::FMUL; case Instruction::FDiv: return Op::FDIV; case Instruction::FRem: return Op::FREM; } abort(); }

static Val icmp(unsigned pred, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e) { uint64_t x = a.c & maskw(w), y = b.c & maskw(w); int64_t sa = sx(x, w), sb = sx(y, w); bool r = false; switch (pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = sa < sb; break; case CmpInst::ICMP_SLE: r = sa <= sb; break; case CmpInst::ICMP_SGT: r = sa > sb; break; case CmpInst::ICMP_SGE: r = sa >= sb; break; } return V((uint64_t)r); }
  auto x = E(a, w), y = E(b, w); if (x->ty != Ty::BV) x = mkF2I(x); if (y->ty != Ty::BV) y = mkF2I(y);
  switch (pred) { case CmpInst::ICMP_EQ: return V(mkBin(Op::EQ, x, y)); case CmpInst::ICMP_NE: return V(mkNot(mkBin(Op::EQ, x, y))); case CmpInst::ICMP_ULT: return V(mkBin(Op::ULT, x, y)); case CmpInst::ICMP_ULE: return V(mkBin(Op::ULE, x, y)); case CmpInst::ICMP_UGT: return V(mkBin(Op::ULT, y, x)); case CmpInst::ICMP_UGE: return V(mkBin(Op::ULE, y, x)); case CmpInst::ICMP_SLT: return V(mkBin(Op::SLT, x, y)); case CmpInst::ICMP_SLE: return V(mkBin(Op::SLE, x, y)); case CmpInst::ICMP_SGT: return V(mkBin(Op::SLT, y, x)); case CmpInst::ICMP_SGE: return V(mkBin(Op::SLE, y, x)); } abort(); }

static Val scalarOp(unsigned opc, Type *ty, const Val &a, const Val &b) {
  if (ty->isFloatTy() || ty->isDoubleTy()) { Ty t = ftyOf(ty); Op o = binOp(opc); if (!a.e && !b.e) return V(foldFBin(o, a.c, b.c, t)); return V(mkFBin(o, EF(a, t), EF(b, t))); }
  unsigned w = bitsOf(ty); if (w > 64) throw PathEnd{"unsupported", "wide int arithmetic"}; Op o = binOp(opc);
  if (!a.e && !b.e) return V(foldBin(o, a.c, b.c, w));
  auto x = E(a, w), y = E(b, w); if (x->ty != Ty::BV) x = mkF2I(x); if (y->ty != Ty::BV) y = mkF2I(y); return V(mkBin(o, x, y));
}

static void doRet(const Val *rv) {
  State &s = *cur; Frame &fr = s.st.back(); for (auto a : fr.allocas) wmem(s).m.erase(a);
  int32_t dst = fr.retDst; bool inv = fr.isInvoke; uint32_t ns = fr.normSucc; s.st.pop_back(); if (s.st.empty()) throw PathEnd{"ok", ""};
  Frame &c = s.st.back(); if (dst >= 0 && rv) c.regs[dst] = *rv; if (inv) jump(c, ns);
}

static void step() {
  State &s = *cur; Frame &fr = s.st.back(); DInst &x = fr.f->blocks[fr.bb].ins[fr.ip]; s.steps++; stats.steps++; fr.f->insts++;
  auto OP = [&](unsigned i) -> const Val & { const DOp &o = x.ops[i]; return o.isConst ? o.v : fr.regs[o.slot]; };
  switch (x.opc) {
  case Instruction::Ret: if (x.ops.empty()) doRet(nullptr); else { Val v = OP(0); doRet(&v); } return;
  case Instruction::Br:
    if (x.ops.empty()) { jump(fr, x.succ[0]); return; }
    { const Val &c = OP(0); bool t; uint32_t fs = x.succ[1]; if (c.e) t = branchOn(c.e, [&](State &o) { jump(o.st.back(), fs); }); else t = c.c & 1; jump(s.st.back(), t ? x.succ[0] : fs); return; }
  case Instruction::Switch: { const Val &c = OP(0);
    if (!c.e) { uint32_t to = x.succ[0]; for (size_t i = 0; i < x.cases.size(); i++) if (x.cases[i] == (c.c & maskw(x.w))) { to = x.succ[i + 1]; break; } jump(fr, to); return; }
    const Expr *ce = c.e; std::map<uint32_t, const Expr *> byT; std::vector<uint32_t> order;
    const Expr *def = mkConst(1, 1); for (size_t i = 0; i < x.cases.size(); i++) { const Expr *q = mkBin(Op::EQ, ce, mkConst(x.cases[i], x.w)); def = mkBin(Op::AND, def, mkNot(q)); auto it = byT.find(x.succ[i + 1]); if (it == byT.end()) { byT[x.succ[i + 1]] = q; order.push_back(x.succ[i + 1]); } else it->second = mkBin(Op::OR, it->second, q); }
    for (auto t : order) { const Expr *q = byT[t]; if (q->op == Op::CONST && !q->cval) continue; bool tk = branchOn(q, [&](State &) {}); if (tk) { jump(s.st.back(), t); return; } /* not taken: other state queued would re-execute switch with q false */ }
    jump(s.st.back(), x.succ[0]); return; }
  case Instruction::Unreachable: throw PathEnd{"unreachable", "reached unreachable"};
  case Instruction::Resume: { const Val &v = OP(0); if (v.a) s.excPtr = v.a->v[0].c; unwind(s, false, 0); }
  case Instruction::Alloca: { uint64_t n = x.aux; if (!x.ops.empty()) n *= conc(OP(0), "alloca"); uint64_t a = s.nextStack; s.nextStack += ((n + 15) & ~15ull) + 32; std::string nm = "stack@" + fr.f->dem + ":" + x.I->getName().str(); wmem(s).m[a] = newObj(s, a, n, nm, 1); fr.allocas.push_back(a); fr.regs[x.dst] = V(a); break; }
  case Instruction::Load: { uint64_t a = conc(OP(0), "load address"); s.st.back().regs[x.dst] = loadTy(s, a, x.ty); break; }
  case Instruction::Store: { uint64_t a = conc(OP(1), "store address"); storeTy(s, a, x.I->getOperand(0)->getType(), OP(0)); break; }
  case Instruction::GetElementPtr: { const Val &b = OP(0); bool sym = b.e; for (auto &g : x.gepIdx) sym |= OP(g.first).e != nullptr;
    if (!sym) { uint64_t r = b.c + (uint64_t)x.gepOff; for (size_t i = 0; i < x.gepIdx.size(); i++) r += (uint64_t)sx(OP(x.gepIdx[i].first).c, (unsigned)x.cases[i]) * x.gepIdx[i].second; fr.regs[x.dst] = V(r); }
    else { const Expr *r = mkBin(Op::ADD, E(b, 64), mkConst((uint64_t)x.gepOff, 64)); for (size_t i = 0; i < x.gepIdx.size(); i++) { const Expr *ix = mkSext(E(OP(x.gepIdx[i].first), (unsigned)x.cases[i]), 64); r = mkBin(Op::ADD, r, mkBin(Op::MUL, ix, mkConst(x.gepIdx[i].second, 64))); } fr.regs[x.dst] = V(r); } break; }
  case Instruction::PHI: abort();
  case Instruction::ICmp: { unsigned p = cast<ICmpInst>(x.I)->getPredicate(); if (x.ty->isVectorTy()) { std::vector<Val> v; for (size_t i = 0; i < OP(0).a->v.size(); i++) v.push_back(icmp(p, OP(0).a->v[i], OP(1).a->v[i], x.w)); Val r; r.a = mkAgg(v); fr.regs[x.dst] = r; } else fr.regs[x.dst] = icmp(p, OP(0), OP(1), x.w); break; }
  case Instruction::FCmp: { unsigned p = cast<FCmpInst>(x.I)->getPredicate(); const Val &a = OP(0), &b = OP(1); if (a.a) throw PathEnd{"unsupported", "vector fcmp"}; if (!a.e && !b.e) fr.regs[x.dst] = V((uint64_t)foldFCmp(p, a.c, b.c, x.fty)); else fr.regs[x.dst] = V(mkFCmp(p, EF(a, x.fty), EF(b, x.fty))); break; }
  case Instruction::Select: { const Val &c = OP(0); if (!c.e) { Val v = (c.c & 1) ? OP(1) : OP(2); fr.regs[x.dst] = v; } else { const Val &a = OP(1), &b = OP(2); if (a.a || b.a) { bool t = branchOn(c.e, [&](State &) {}); fr.regs[x.dst] = t ? a : b; break; } bool isF = x.ty->isFloatTy() || x.ty->isDoubleTy();
      const Expr *p = isF ? EF(a, x.fty) : E(a, x.w), *q = isF ? EF(b, x.fty) : E(b, x.w); if (!isF) { p = mkF2I(p); q = mkF2I(q); }
      if (x.ty->isPointerTy()) { bool t = branchOn(c.e, [&](State &) {}); s.st.back().regs[x.dst] = t ? V(p) : V(q); } else fr.regs[x.dst] = V(mkIte(c.e, p, q)); } break; }
  case Instruction::Trunc: { const Val &a = OP(0); if (a.e) fr.regs[x.dst] = V(mkExtract(a.e->ty == Ty::BV ? a.e : mkF2I(a.e), 0, x.w)); else fr.regs[x.dst] = V(a.c & maskw(x.w)); break; }
  case Instruction::ZExt: { const Val &a = OP(0); if (x.w > 64) throw PathEnd{"unsupported", "i128"}; if (a.e) fr.regs[x.dst] = V(mkZext(a.e, x.w)); else fr.regs[x.dst] = V(a.c & maskw(bitsOf(x.I->getOperand(0)->getType()))); break; }
  case Instruction::SExt: { const Val &a = OP(0); if (a.e) fr.regs[x.dst] = V(mkSext(a.e, x.w)); else fr.regs[x.dst] = V((uint64_t)sx(a.c, bitsOf(x.I->getOperand(0)->getType())) & maskw(x.w)); break; }
  case Instruction::BitCast: { const Val &a = OP(0); Type *st = x.I->getOperand(0)->getType(); if (a.a || x.ty->isVectorTy()) throw PathEnd{"unsupported", "vector bitcast"}; if (!a.e || st == x.ty) fr.regs[x.dst] = a; else if (x.ty->isFloatTy() || x.ty->isDoubleTy()) fr.regs[x.dst] = V(mkI2F(a.e, x.fty)); else fr.regs[x.dst] = V(mkF2I(a.e)); break; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: { const Val &a = OP(0); unsigned sw = bitsOf(x.I->getOperand(0)->getType()); if (!a.e) fr.regs[x.dst] = V(a.c & maskw(std::min(sw, x.w))); else if (x.w < sw) fr.regs[x.dst] = V(mkExtract(a.e, 0, x.w)); else fr.regs[x.dst] = V(mkZext(a.e, x.w)); break; }
  case Instruction::SIToFP: case Instruction::UIToFP: { const Val &a = OP(0); unsigned sw = bitsOf(x.I->getOperand(0)->getType()); Op o = x.opc == Instruction::SIToFP ? Op::SITOFP : Op::UITOFP; if (!a.e) fr.regs[x.dst] = V(foldItoF(o, a.c, sw, x.fty)); else fr.regs[x.dst] = V(mkItoF(o, a.e, x.fty)); break; }
  case Instruction::FPToSI: case Instruction::FPToUI: { const Val &a = OP(0); Ty st = ftyOf(x.I->getOperand(0)->getType()); Op o = x.opc == Instruction::FPToSI ? Op::FPTOSI : Op::FPTOUI; 
      if (!a.e) fr.regs[x.dst] = V(foldFtoI(o, a.c, st, x.w)); else fr.regs[x.dst] = V(mkFtoI(o, EF(a, st), x.w)); break; }
  case Instruction::FPExt: case Instruction::FPTrunc: { const Val &a = OP(0); Ty st = ftyOf(x.I->getOperand(0)->getType()); if (x.ty->isX86_FP80Ty() || x.I->getOperand(0)->getType()->isX86_FP80Ty()) throw PathEnd{"unsupported", "long double"}; fr.regs[x.dst] = V(mkFConv(EF(a, st), x.fty)); break; }
  case Instruction::FNeg: { const Val &a = OP(0); if (!a.e) fr.regs[x.dst] = V(foldFUn(Op::FNEG, a.c, x.fty)); else fr.regs[x.dst] = V(mkFUn(Op::FNEG, EF(a, x.fty))); break; }
  case Instruction::Freeze: fr.regs[x.dst] = OP(0); break;
  case Instruction::ExtractValue: { Val v = OP(0); for (auto i : cast<ExtractValueInst>(x.I)->indices()) v = v.a->v[i]; fr.regs[x.dst] = v; break; }
  case Instruction::InsertValue: { auto iv = cast<InsertValueInst>(x.I); std::function<Val(const Val &, unsigned)> ins = [&](const Val &v, unsigned d) -> Val { if (d == iv->getNumIndices()) return OP(1); std::vector<Val> n = v.a->v; n[iv->getIndices()[d]] = ins(n[iv->getIndices()[d]], d + 1); Val r; r.a = mkAgg(n); return r; }; fr.regs[x.dst] = ins(OP(0), 0); break; }
  case Instruction::ExtractElement: { uint64_t i = conc(OP(1), "vec index"); fr.regs[x.dst] = OP(0).a->v[i]; break; }
  case Instruction::InsertElement: { std::vector<Val> n = OP(0).a->v; n[conc(OP(2), "vec index")] = OP(1); Val r; r.a = mkAgg(n); fr.regs[x.dst] = r; break; }
  case Instruction::ShuffleVector: { auto sv = cast<ShuffleVectorInst>(x.I); std::vector<Val> n; size_t k = OP(0).a->v.size(); for (int m : sv->getShuffleMask()) { if (m < 0) n.push_back(V((uint64_t)0)); else n.push_back((size_t)m < k ? OP(0).a->v[m] : OP(1).a->v[m - k]); } Val r; r.a = mkAgg(n); fr.regs[x.dst] = r; break; }
  case Instruction::LandingPad: { Val r; r.a = mkAgg({V(s.excPtr), V(s.excSel)}); fr.regs[x.dst] = r; break; }
  case Instruction::AtomicRMW: { uint64_t a = conc(OP(0), "atomic"); Val old = loadTy(s, a, x.ty); fr.regs[x.dst] = old; auto rm = cast<AtomicRMWInst>(x.I); if (rm->getOperation() == AtomicRMWInst::Add) storeTy(s, a, x.ty, scalarOp(Instruction::Add, x.ty, old, OP(1))); else if (rm->getOperation() == AtomicRMWInst::Sub) storeTy(s, a, x.ty, scalarOp(Instruction::Sub, x.ty, old, OP(1))); else throw PathEnd{"unsupported", "atomicrmw"}; break; }
  case Instruction::Fence: break;
  case Instruction::Call: case Instruction::Invoke: {
    std::vector<Val> args; size_t n = cast<CallBase>(x.I)->arg_size(); args.reserve(n); for (size_t i = 0; i < n; i++) args.push_back(OP((unsigned)i));
    Function *F = x.callee;
    if (!F) { if (cast<CallBase>(x.I)->isInlineAsm()) { break; } uint64_t a = conc(OP((unsigned)n), "indirect call"); auto it = faddr.find(a); if (it == faddr.end()) memErr("indirect call to invalid address"); F = it->second; }
    bool inv = x.opc == Instruction::Invoke; Val r;
    if (F->isIntrinsic()) { if (intrinsic(x, F, args, r)) { Frame &f2 = s.st.back(); if (x.dst >= 0) f2.regs[x.dst] = r; f2.ip++; if (inv) { f2.ip--; jump(f2, x.succ[0]); } return; } }
    if (!replaceMap.empty()) { auto ri = replaceMap.find(F->getName().str()); if (ri != replaceMap.end()) { Function *G = M->getFunction(ri->second); if (G) { bool inside = false; for (auto &f : s.st) if (f.f->F == G) inside = true; if (!inside) F = G; } } }
    auto ei = exts.find(F->getName().str());
    if (ei != exts.end() && (F->isDeclaration() || F->getName().starts_with("vf_"))) {
      // a forked copy created inside an external re-executes from ip; vf_choose copies must skip the call
      bool choose = F->getName() == "vf_choose"; size_t wb = work.size();
      r = ei->second(x, args);
      Frame &f2 = s.st.back(); if (x.dst >= 0) f2.regs[x.dst] = r; if (inv) jump(f2, x.succ[0]); else f2.ip++;
      if (choose) for (size_t i = wb; i < work.size(); i++) { Frame &g = work[i]->st.back(); if (inv) jump(g, x.succ[0]); else g.ip++; }
      return; }
    if (F->isDeclaration()) { std::string nm = F->getName().str(); 
      if (nm.find("__throw_") != std::string::npos) throw PathEnd{"exception", demangle(nm)};
      stats.unmodelled[demangle(nm)]++; throw PathEnd{"unmodelled", demangle(nm)}; }
    fr.ip++; if (inv) fr.ip--; // for invoke stay; jump on return
    pushFrame(decode(F), args, x.dst, inv, inv ? x.succ[0] : 0, inv ? x.succ[1] : 0);
    if (F->isVarArg() && n > F->arg_size()) { // variadic arguments: one 8 byte slot each, read through va_list's overflow area
      uint64_t cnt = n - F->arg_size(), a = s.nextStack; s.nextStack += ((8 * cnt + 15) & ~15ull) + 32; wmem(s).m[a] = newObj(s, a, 8 * cnt, "variadic arguments", 1);
      for (uint64_t i = 0; i < cnt; i++) storeTy(s, a + 8 * i, cast<CallBase>(x.I)->getArgOperand((unsigned)(F->arg_size() + i))->getType(), args[F->arg_size() + i]);
      Frame &nf = s.st.back(); nf.allocas.push_back(a); nf.va = a; }
    return; }
  default:
    if (x.I->isBinaryOp()) {
      if (x.ty->isVectorTy()) { std::vector<Val> v; Type *et = x.ty->getScalarType(); for (size_t i = 0; i < OP(0).a->v.size(); i++) v.push_back(scalarOp(x.opc, et, OP(0).a->v[i], OP(1).a->v[i])); Val r; r.a = mkAgg(v); fr.regs[x.dst] = r; break; }
      if ((x.opc == Instruction::UDiv || x.opc == Instruction::SDiv || x.opc == Instruction::URem || x.opc == Instruction::SRem)) { const Val &b = OP(1); if (!b.e) { if (b.c == 0) memErr("integer division by zero"); } else { bool z = branchOn(mkBin(Op::EQ, b.e, mkConst(0, x.w)), [&](State &) {}); if (z) memErr("integer division by zero"); } }
      fr.regs[x.dst] = scalarOp(x.opc, x.ty, OP(0), OP(1)); break; }
    { std::string t; raw_string_ostream o(t); o << *x.I; throw PathEnd{"unsupported", o.str()}; }
  }
  s.st.back().ip++;
}

// sample completed paths (1st, 2nd, 4th, 8th, ... completed) with a concrete model and the observed values under it
static void witness(State &s) {
  if (!opt.witnesses || wits.size() >= opt.witnesses) return; if (++witSeen < witNext) return;
  Model m; if (s.model) m = s.model->m; else { Model m1; if (solver->check(s.pc, &m1, -1, opt.qTimeout) != Res::SAT) return; auto mb = mkBox(m1); if (!modelOK(s, nullptr, *mb)) return; m = m1; }
  witNext = witSeen * 2; Witness w; static uint64_t g = 1ull << 61; gEvalGen = ++g;
  for (auto &i : s.inputs) { w.inputs.push_back({i.name, i.e ? evalExpr(i.e, m) : i.c}); w.kinds.push_back(i.kind); }
  for (auto &o : s.obs) { gEvalGen = ++g; w.obs.push_back({o.first, o.second.e ? evalExpr(o.second.e, m) : o.second.c}); }
  wits.push_back(w);
}
static std::string jesc(const std::string &s) { std::string r; for (char ch : s) { unsigned char c = (unsigned char)ch; if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; } return r; }

static void writeReport(bool complete) {
  std::ostringstream o; double el = nowS() - tStart;
  o << "{\n \"entry\":\"" << opt.entry << "\",\"case\":" << opt.caseIdx << ",\"complete\":" << (complete ? "true" : "false") << ",\"wall_s\":" << el << ",\n";
  o << " \"paths\":" << stats.done << ",\"forks\":" << stats.forks << ",\"steps\":" << stats.steps << ",\"pruned\":" << stats.pruned << ",\"killed\":" << stats.killed << ",\"unknown_branches\":" << stats.unknownBranches << ",\"undef_branches\":" << stats.undefBranches << ",\n";
  o << " \"asserts\":" << stats.asserts << ",\"asserts_concrete\":" << stats.assertsConcrete << ",\"asserts_proved\":" << stats.assertsProved << ",\"asserts_unknown\":" << stats.assertsUnknown << ",\"inconclusive\":" << stats.inconclusive << ",\n";
  auto &q = solver->st; o << " \"queries\":" << q.queries << ",\"cache_hits\":" << q.cacheHits << ",\"eval_hits\":" << q.evalHits << ",\"bv_queries\":" << q.bvQueries << ",\"real_queries\":" << q.realQueries << ",\"fpa_queries\":" << q.fpaQueries << ",\"icp_queries\":" << q.icpQueries << ",\"icp_decided\":" << q.icpDecided << ",\"icp_boxes\":" << q.icpBoxes << ",\"query_unknown\":" << q.unknown << ",\"solver_s\":" << q.time << ",\"max_query_ms\":" << q.maxMs << ",\n";
  auto dump = [&](const char *n, std::map<std::string, uint64_t> &m) { o << " \"" << n << "\":{"; bool f = true; for (auto &p : m) { if (!f) o << ","; f = false; o << "\"" << jesc(p.first) << "\":" << p.second; } o << "},\n"; };
  dump("reach", stats.reach); dump("ends", stats.ends); dump("unmodelled", stats.unmodelled); dump("assert_labels", stats.assertLabels);
  o << " \"functions\":{"; bool f = true; for (auto &p : dfuncs) if (p.second->fromRepo && p.second->hits) { if (!f) o << ","; f = false; o << "\"" << jesc(p.second->dem) << "\":" << p.second->hits; } o << "},\n";
  auto dv = [&](const char *n, std::vector<Violation> &vs) { o << " \"" << n << "\":["; bool f = true; for (auto &v : vs) { if (!f) o << ","; f = false; o << "{\"kind\":\"" << v.kind << "\",\"label\":\"" << jesc(v.label) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"inputs\":["; bool g = true; for (size_t i = 0; i < v.inputs.size(); i++) { if (!g) o << ","; g = false; o << "[\"" << jesc(v.inputs[i].first) << "\",\"" << v.kinds[i] << "\",\"" << v.inputs[i].second << "\"]"; } o << "]}"; } o << "]"; };
  dv("violations", viols); o << ",\n"; o << " \"witnesses\":["; for (size_t k = 0; k < wits.size(); k++) { auto &w = wits[k]; o << (k ? "," : "") << "{\"inputs\":["; for (size_t i = 0; i < w.inputs.size(); i++) o << (i ? "," : "") << "[\"" << jesc(w.inputs[i].first) << "\",\"" << w.kinds[i] << "\",\"" << w.inputs[i].second << "\"]"; o << "],\"obs\":["; for (size_t i = 0; i < w.obs.size(); i++) o << (i ? "," : "") << "[\"" << jesc(w.obs[i].first) << "\",\"" << w.obs[i].second << "\"]"; o << "]}"; } o << "],\n"; dv("unconfirmed", unconf); o << "\n}\n";
  if (opt.out.empty()) fputs(o.str().c_str(), stdout); else { std::ofstream t(opt.out); t << o.str(); }
}

int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") opt.entry = nx(); else if (a == "--case") opt.caseIdx = std::stol(nx()); else if (a == "--out") opt.out = nx(); else if (a == "--time") opt.maxTime = std::stod(nx()); else if (a == "--qtimeout") opt.qTimeout = (unsigned)std::stoul(nx()); else if (a == "--atimeout") opt.aTimeout = (unsigned)std::stoul(nx()); else if (a == "--exact-fp") opt.exactFP = true; else if (a == "--eps") opt.eps = std::stod(nx()); else if (a == "--max-enum") opt.maxEnum = (unsigned)std::stoul(nx()); else if (a == "-v") opt.verbose = gVerbose = true; else if (a == "--replace") { std::string p = nx(); size_t k = p.find('='); replaceMap[p.substr(0, k)] = p.substr(k + 1); } else if (a == "--src") opt.srcPrefix = nx(); else if (a == "--undef-check") opt.undefCheck = true; else if (a == "--throw-ok") opt.throwOk = true; else if (a == "--max-viol") opt.maxViol = (unsigned)std::stoul(nx()); else if (a == "--no-safety") opt.safety = false; else if (a == "--no-icp") solver0NoIcp = true; else if (a == "--witness") opt.witnesses = (unsigned)std::stoul(nx()); else if (a == "--max-path-steps") opt.maxPathSteps = std::stoull(nx()); else opt.bc = a; }
  tStart = nowS(); SMDiagnostic err; M = parseIRFile(opt.bc, err, ctx); if (!M) { err.print("symir", errs()); return 2; }
  DL = &M->getDataLayout(); solver = new Solver; solver->exactFP = opt.exactFP; solver->eps = opt.eps; solver->useIcp = !solver0NoIcp; setupExts();
  auto s0 = std::make_unique<State>(); s0->mem = std::make_shared<MemMap>(); s0->nextHeap = 0x100000000ull; s0->nextStack = 0x7f0000000000ull; s0->model = mkBox(Model());
  uint64_t ga = 0x1000000; for (auto &g : M->globals()) { if (g.getName().starts_with("llvm.")) continue; uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64; if (g.isDeclaration() && sz < 256) sz = 256; gaddr[&g] = ga; auto o = newObj(*s0, ga, sz, demangle(g.getName().str()), 0); s0->mem->m[ga] = o; ga += ((sz + 63) & ~63ull) + 64; }
  for (auto &g : M->globals()) if (gaddr.count(&g) && g.hasInitializer()) initGlobal(*s0, gaddr[&g], g.getInitializer());
  for (auto &g : M->globals()) if (gaddr.count(&g) && g.isConstant() && g.hasInitializer()) s0->mem->m[gaddr[&g]]->ro = true;
  // static constructors
  std::vector<std::pair<uint64_t, Function *>> ctors;
  if (auto gc = M->getGlobalVariable("llvm.global_ctors")) if (auto ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto &op : ca->operands()) { auto cs = cast<ConstantStruct>(op); if (auto F = dyn_cast<Function>(cs->getOperand(1))) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  cur = s0.get(); std::vector<Val> noargs;
  for (auto &c : ctors) { try { pushFrame(decode(c.second), noargs, -1, false, 0); while (true) { try { step(); } catch (Unwound &) {} } } catch (PathEnd &p) { if (p.kind != "ok") { fprintf(stderr, "symir: static initialiser failed: %s %s at %s\n", p.kind.c_str(), p.msg.c_str(), curWhere().c_str()); return 2; } } s0->st.clear(); }
  Function *entry = M->getFunction(opt.entry); if (!entry) { fprintf(stderr, "symir: no entry %s\n", opt.entry.c_str()); return 2; }
  pushFrame(decode(entry), noargs, -1, false, 0);
  work.push_back(std::move(s0)); bool complete = true;
  uint64_t tick = 0;
  while (!work.empty()) {
    StateP sp = std::move(work.back()); work.pop_back(); cur = sp.get();
    if (nowS() - tStart > opt.maxTime) { complete = false; break; }
    try { while (true) { try { step(); } catch (Unwound &) {} if ((++tick & 0xffff) == 0 && nowS() - tStart > opt.maxTime) { complete = false; throw PathEnd{"timeout", ""}; } if (cur->steps > opt.maxPathSteps) { complete = false; throw PathEnd{"limit", "path steps"}; } } }
    catch (PathEnd &p) {
      stats.done++; stats.ends[p.kind]++; if (p.kind == "ok" && !cur->undefBranch) witness(*cur); if (!cur->model) stats.unconfirmedPaths++;
      if (p.kind == "unsupported" || p.kind == "unmodelled" || p.kind == "limit") { fprintf(stderr, "[symir] path ended: %s %s at %s\n", p.kind.c_str(), p.msg.c_str(), curWhere().c_str()); complete = false; }
      bool bad = (p.kind == "memory-error" && opt.safety) || (p.kind == "exception" && !opt.throwOk) || p.kind == "abort" || p.kind == "uninitialised" || (p.kind == "unreachable" && opt.safety);
      if (bad) report(*cur, p.kind, p.kind, p.msg, nullptr);
      if (viols.size() >= opt.maxViol) { complete = false; fprintf(stderr, "[symir] too many violations, stopping\n"); break; }
    }
    if (!complete && timedOut) break; if (nowS() - tStart > opt.maxTime) break;
  }
  writeReport(complete); return viols.empty() ? (complete ? 0 : 3) : 1;
}
