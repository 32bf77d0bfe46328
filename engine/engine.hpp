// Symbolic executor for LLVM bitcode (single-threaded programs, concrete object addresses,
// symbolic bytes, path forking with merging at function returns, C++ exceptions).
#pragma once
#include "expr.hpp"
#include "solver.hpp"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <regex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vp {
Expr normTerm(Expr e);
struct Val {
  Expr e = nullptr;
  std::shared_ptr<std::vector<Val>> agg;
  Val() {}
  Val(Expr x) : e(x) {}
};
inline Val mkAgg(std::vector<Val> v) {
  Val r;
  r.agg = std::make_shared<std::vector<Val>>(std::move(v));
  return r;
}

enum ObjKind : uint8_t { K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_SODIUM, K_EXC };
enum Prot : uint8_t { PR_NONE = 0, PR_RO = 1, PR_RW = 2 };

struct Obj {
  uint64_t base = 0, size = 0;
  ObjKind kind = K_GLOBAL;
  Prot prot = PR_RW;
  bool freed = false;
  bool constant = false;
  std::string name;
  std::vector<Expr> bytes;  // nullptr: uninitialised
};
typedef std::shared_ptr<Obj> ObjP;

struct PInst {
  llvm::Instruction* I = nullptr;
  unsigned opc = 0;
  int dst = -1;
  std::vector<int> ops;    // >=0: register slot; <0: ~index into the constant pool
  std::vector<int> succ;   // successor block indices
};
struct PBlock {
  llvm::BasicBlock* B = nullptr;
  std::vector<PInst> insts;
  unsigned nphi = 0;
};
struct FnRT {
  llvm::Function* F = nullptr;
  std::string name, pretty;
  std::vector<PBlock> blocks;
  unsigned nslots = 0;
  bool fromRepo = false;

  bool mergeable = true;
  uint64_t calls = 0;
};
struct Frame {
  FnRT* fn = nullptr;
  int bb = 0, prev = -1;
  unsigned ip = 0;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  uint64_t uid = 0;
};
struct ExcInfo {
  uint64_t addr = 0;
  const llvm::Value* tinfo = nullptr;
  int handlers = 0;
  bool rethrown = false;
};
struct InputRec {
  std::string name;
  std::vector<Expr> bytes;
  bool operator==(const InputRec& o) const { return name == o.name && bytes == o.bytes; }
};
struct HashCtx {
  std::string kind;
  uint64_t outlen = 0;
  std::vector<Expr> key, data;
  bool operator==(const HashCtx& o) const { return kind == o.kind && outlen == o.outlen && key == o.key && data == o.data; }
};
struct State {
  uint64_t id = 0;
  std::vector<Frame> stack;
  std::map<uint64_t, ObjP> mem;
  std::vector<Expr> pc;
  std::unordered_set<Expr> known;
  ModelP model;
  uint64_t heapNext = 0x500000000000ULL, stackNext = 0x700000000000ULL, sodNext = 0x600000000000ULL;
  std::vector<ExcInfo> caught, inflight;
  std::vector<InputRec> inputs;
  std::map<uint64_t, HashCtx> hctx;
  uint64_t rndCount = 0, uninitCount = 0;
  std::map<std::string, unsigned> symCount;
  Val retVal;
};
typedef std::unique_ptr<State> StateP;

struct Violation {
  std::string kind, msg, where, trace;
  std::vector<std::pair<std::string, std::string>> inputs;
};
struct Config {
  bool merge = true;
  std::string noMerge;                 // regex of functions at whose return no merging is attempted
  bool norm = false;                   // canonical form for stored terms over a single input byte
  bool concrete = false;
  double maxSecs = 600;
  size_t maxViolations = 12;
  size_t perKey = 4;
  std::map<std::string, uint64_t> params;
  std::vector<std::pair<std::string, std::string>> replay;
  bool verbose = false;
  bool trace = false;
  std::string repoPrefix = "/repo/";
};
struct PathEnd {};
struct Fatal { std::string msg; };

typedef std::vector<Expr> Bytes;

struct Engine {
  llvm::LLVMContext C;
  std::unique_ptr<llvm::Module> M;
  const llvm::DataLayout* DL = nullptr;
  Solver S;
  Config cfg;
  std::unordered_map<const llvm::Function*, std::unique_ptr<FnRT>> rts;
  std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
  std::unordered_map<uint64_t, llvm::Function*> faddr;
  std::map<uint64_t, ObjP> constMem;
  typedef std::function<bool(llvm::CallBase*, std::vector<Val>&, Val&)> ExtFn;
  std::unordered_map<std::string, ExtFn> ext;
  std::unordered_map<const llvm::Value*, int> constIdx;
  std::vector<Val> constPool;
  std::vector<StateP> work;
  StateP cur;
  State* st = nullptr;
  uint64_t nextUid = 1, nextState = 1;
  std::unordered_map<uint64_t, int> live;
  std::unordered_map<uint64_t, std::vector<StateP>> parked;
  std::deque<ModelP> recent;
  std::unordered_map<std::string, Expr> namedSyms;
  // results
  std::vector<Violation> violations;
  std::map<std::string, size_t> violKeys;
  std::map<std::string, uint64_t> covers;
  std::map<std::string, uint64_t> notes;
  uint64_t paths = 0, forks = 0, merges = 0, mergeFails = 0, totalSteps = 0, modelHits = 0, badModels = 0;
  uint64_t assertsTotal = 0, assertsTrivial = 0, assertsSolved = 0, assertsUnknown = 0, assertsFailed = 0;
  uint64_t memChecks = 0;
  std::set<std::string> inconclusive;
  std::map<std::string, uint64_t> forkSites;
  std::chrono::steady_clock::time_point t0;
  std::map<std::string, int> typeIds;
  size_t replayPos = 0;
  std::map<Bytes, Expr> wordOf;
  std::regex noMergeRe;

  // --- setup
  void load(const std::string& path);
  void initGlobals(State& s);
  void writeConst(Obj& o, uint64_t off, const llvm::Constant* c);
  FnRT* rt(llvm::Function* F);
  void registerExternals();
  void registerSodium();
  int constSlot(const llvm::Value* v);
  // --- memory
  ObjP allocObj(State& s, uint64_t size, ObjKind k, const std::string& name, uint64_t align = 16);
  Obj* findObj(State& s, uint64_t addr);
  Obj* writable(State& s, uint64_t base);
  Expr byteAt(Obj* o, uint64_t off);   // materialises uninitialised bytes
  struct Target { Expr cond; uint64_t addr; };
  // resolves an address to a list of concrete targets with conditions (condition nullptr: always) or a symbolic
  // offset into one object
  struct Resolved { bool single = true; std::vector<Target> targets; Obj* obj = nullptr; Expr off = nullptr; uint64_t lo = 0, hi = 0; };
  Resolved resolve(Expr addr, uint64_t n, bool write);
  Obj* checkAccess(uint64_t addr, uint64_t n, bool write, Expr cond);
  Bytes loadBytes(Expr addr, uint64_t n, bool keepUninit = false);
  void storeBytes(Expr addr, const Bytes& b);
  Val loadVal(Expr addr, llvm::Type* t);
  void storeVal(Expr addr, const Val& v, llvm::Type* t);
  void valToBytes(const Val& v, llvm::Type* t, Bytes& out);
  Val bytesToVal(const Bytes& b, size_t off, llvm::Type* t);
  void freeObj(Expr p, std::initializer_list<ObjKind> kinds, const char* what);
  // --- values
  const Val& ev(Frame& f, int op) { return op >= 0 ? f.regs[op] : constPool[~op]; }
  Expr evE(Frame& f, int op);
  Val evalConst(const llvm::Constant* c);
  Val zeroOf(llvm::Type* t);
  uint32_t bitWidth(llvm::Type* t);
  uint64_t concretize(Expr e, const char* why);
  Bytes exprBytes(Expr e);
  Expr bytesExpr(const Bytes& b);
  // --- control
  void run(const std::string& entry);
  void runState();
  void step();
  void pushFrame(llvm::Function* F, const std::vector<Val>& args);
  void doCall(PInst& pi);
  void dispatch(llvm::Function* F, PInst& pi, std::vector<Val>& args);
  void finishCall(State& s, const Val& rv);
  void doRet(const Val& rv);
  void popFrame(State& s);
  void dropAllocas(State& s, Frame& f);
  void jump(Frame& f, int to);
  bool branch(Expr c);
  StateP cloneState(State& s);
  void addPC(State& s, Expr c);
  void assume(Expr c);
  void kill(State& s);
  void flush(uint64_t uid);
  bool mergeInto(State& a, State& b);
  void unwind();
  void throwExc(uint64_t addr, const llvm::Value* ti);
  void throwStd(const std::string& tiName);
  bool catches(const llvm::Value* clause, const llvm::Value* thrown);
  int typeId(const llvm::Value* v);
  bool intrinsic(llvm::CallBase* cb, llvm::Function* F, std::vector<Val>& a, Val& r);
  bool inlineAsm(llvm::CallBase* cb, std::vector<Val>& a, Val& r);
  Expr binop(unsigned opc, Expr a, Expr b, llvm::Type* t, llvm::Instruction* I);
  Expr icmp(llvm::CmpInst::Predicate p, Expr a, Expr b);
  Val castVal(unsigned opc, const Val& v, llvm::Type* from, llvm::Type* to);
  Res query(State& s, Expr extra, ModelP* m);
  // --- reporting
  std::string where();
  std::string trace();
  [[noreturn]] void violateStop(const std::string& kind, const std::string& msg);
  void record(const std::string& kind, const std::string& msg, ModelP m);
  void checkNever(const std::string& kind, const std::string& msg, Expr bad);
  ModelP ground(Expr bad, ModelP m, unsigned tries);
  Expr named(const std::string& nm, uint32_t w);
  std::string cstr(Expr p);
  Bytes appBytes(const std::string& fn, const Bytes& args, uint32_t outBytes);
  Bytes inputBytes(const std::string& name, uint64_t n);
  void writeResult(const std::string& path);
  std::function<bool(const std::string&, const std::string&, std::string&)> concreteApp;
};
std::string demangle(const std::string& n);
}  // namespace vp
