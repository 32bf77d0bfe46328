#pragma once
#include "expr.hpp"
#include <chrono>
#include <functional>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <z3++.h>

namespace vp {
struct Model {
  std::unordered_map<uint32_t, u128> sym;
  std::unordered_map<uint32_t, std::unordered_map<std::string, std::string>> fn;  // bytes LSB-first
  std::unordered_map<uint32_t, std::string> fnElse;
  std::unordered_map<Expr, u128> memo;
  std::unordered_map<Expr, std::string> appMemo;
  u128 eval(Expr e);
  std::string evalApp(Expr e);
  // real: applications are computed by the real primitives instead of the solver's interpretation
  const std::function<bool(const std::string&, const std::string&, std::string&)>* real = nullptr;
  bool realFail = false;
};
typedef std::shared_ptr<Model> ModelP;

enum Res { R_UNSAT, R_SAT, R_UNKNOWN };

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, fallback = 0, cvc5 = 0;
  double secs = 0, maxq = 0;
};

struct Solver {
  z3::context ctx;
  z3::solver inc;
  std::vector<Expr> stack;  // asserted path constraints, one push level each
  std::unordered_map<uint32_t, z3::expr> memo;
  std::unordered_map<uint32_t, z3::func_decl> fdecls;
  SolverStats st;
  unsigned tIncMs = 3000, tFullMs = 120000;
  std::string dumpDir;
  bool qfbv = false;  // bit-blast to a SAT solver in the fallback
  std::string scratch = "/tmp";
  bool debug = false;
  std::chrono::steady_clock::time_point deadline = std::chrono::steady_clock::time_point::max();
  unsigned left(unsigned ms);
  Solver();
  z3::expr tr(Expr e);
  Res check(const std::vector<Expr>& pc, Expr extra, ModelP* m);
  ModelP extractModel(z3::model m, const std::vector<Expr>& pc, Expr extra);
};
}  // namespace vp
