#pragma once
#include "expr.h"
#include <z3++.h>
#include <map>
#include <set>

enum class Res { SAT, UNSAT, UNKNOWN };

struct ModelBox { Model m; uint64_t gen; };

struct SolverStats { uint64_t queries = 0, cacheHits = 0, bvQueries = 0, realQueries = 0, fpaQueries = 0, unknown = 0; double time = 0; uint64_t maxMs = 0; uint64_t evalHits = 0; uint64_t icpQueries = 0, icpDecided = 0, icpBoxes = 0; };

class Solver {
public:
  Solver();
  // Satisfiability of the conjunction. eps>0: relaxed (over-approximation of IEEE behaviour), eps<0: tightened.
  Res check(const std::vector<const Expr *> &conj, Model *out, int epsMode, unsigned timeoutMs);
  bool holds(const Expr *c, const ModelBox &m);
  SolverStats st;
  bool exactFP = false; bool useIcp = true;
  double eps = 1e-9;
private:
  z3::context c;
  struct Tr { std::unordered_map<const Expr *, z3::expr> I, R; std::unordered_map<const Expr *, z3::expr> Bpos, Bneg; std::unordered_map<const Expr *, std::vector<z3::expr>> side; };
  Tr tr[3];
  std::unordered_map<const Expr *, z3::expr> bvMemo;
  std::map<std::pair<int, std::vector<uint32_t>>, std::pair<Res, Model>> cache;
  int mode = 0; // index into tr
  double curEps = 0;
  z3::expr BV(const Expr *e);
  z3::expr I(const Expr *e);
  z3::expr S(const Expr *e);
  z3::expr R(const Expr *e);
  z3::expr B(const Expr *e, bool neg);
  void addSide(const Expr *e, const z3::expr &x) { tr[mode].side[e].push_back(x); }
  void collectSides(const Expr *e, std::set<const Expr *> &seen, std::vector<z3::expr> &out, std::set<uint32_t> &vars);
  z3::expr ratOf(double d);
  std::vector<const Expr *> trigs;
};
extern bool gVerbose;
