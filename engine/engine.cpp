#include "engine.hpp"
#include <functional>
#include <cxxabi.h>
#include <fstream>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <sstream>

using namespace llvm;
namespace vp {
std::string demangle(const std::string& n) {
  int s = 0;
  char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &s);
  if (s == 0 && d) { std::string r = d; free(d); return r; }
  return n;
}

// ---------------------------------------------------------------- setup
void Engine::load(const std::string& path) {
  SMDiagnostic err;
  M = parseIRFile(path, err, C);
  if (!M) { err.print("vpsym", errs()); exit(3); }
  DL = &M->getDataLayout();
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  // keep only what is reachable from vp_main and the global constructors
  for (Function& F : *M)
    if (!F.isDeclaration() && F.getName() != "vp_main") F.setLinkage(GlobalValue::InternalLinkage), F.setComdat(nullptr);
  for (GlobalVariable& G : M->globals())
    if (!G.isDeclaration() && !G.getName().starts_with("llvm.")) G.setLinkage(GlobalValue::InternalLinkage), G.setComdat(nullptr);
  ModulePassManager MPM2;
  cantFail(PB.parsePassPipeline(MPM2, "globaldce,function(sroa,early-cse,simplifycfg,dce)"));
  MPM2.run(*M, MAM);
}

uint32_t Engine::bitWidth(Type* t) {
  if (t->isPointerTy()) return 64;
  return (uint32_t)DL->getTypeSizeInBits(t).getFixedValue();
}
Val Engine::zeroOf(Type* t) {
  if (t->isVoidTy()) return Val();
  if (auto* s = dyn_cast<StructType>(t)) {
    std::vector<Val> v;
    for (unsigned i = 0; i < s->getNumElements(); i++) v.push_back(zeroOf(s->getElementType(i)));
    return mkAgg(v);
  }
  if (auto* a = dyn_cast<ArrayType>(t)) {
    std::vector<Val> v;
    for (unsigned i = 0; i < a->getNumElements(); i++) v.push_back(zeroOf(a->getElementType()));
    return mkAgg(v);
  }
  uint32_t w = bitWidth(t);
  if (w > 128) throw Fatal{"type wider than 128 bits"};
  return Val(mkConst(0, w));
}
Bytes Engine::exprBytes(Expr e) {
  Bytes b;
  uint32_t w = e->width;
  if (w % 8) { e = mkZExt(e, (w + 7) / 8 * 8); w = e->width; }
  for (uint32_t i = 0; i < w; i += 8) b.push_back(mkExtract(e, i, 8));
  // remember words that fall apart into narrowed operations, so that reading them back gives the same node
  if (w > 8 && (e->op == O_ADD || e->op == O_MUL)) wordOf[b] = e;
  return b;
}
Expr Engine::bytesExpr(const Bytes& b) {
  if (b.size() > 1 && b.size() <= 16 && !wordOf.empty()) {
    auto it = wordOf.find(b);
    if (it != wordOf.end()) return it->second;
  }
  Bytes r(b.rbegin(), b.rend());
  return mkConcat(r);
}
Val Engine::evalConst(const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    const APInt& v = ci->getValue();
    if (v.getBitWidth() > 128) throw Fatal{"constant wider than 128 bits"};
    u128 x = v.getRawData()[0];
    if (v.getNumWords() > 1) x |= (u128)v.getRawData()[1] << 64;
    return Val(mkConst(x, v.getBitWidth()));
  }
  if (isa<ConstantPointerNull>(c)) return Val(mkConst(0, 64));
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(t);
  if (auto* gv = dyn_cast<GlobalAlias>(c)) return evalConst(gv->getAliasee());
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) throw Fatal{"unknown global " + gv->getName().str()};
    return Val(mkConst(it->second, 64));
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APInt v = cf->getValueAPF().bitcastToAPInt();
    u128 x = v.getRawData()[0];
    if (v.getNumWords() > 1) x |= (u128)v.getRawData()[1] << 64;
    return Val(mkConst(x, v.getBitWidth()));
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    if (isa<VectorType>(t)) {
      std::vector<Expr> p;
      for (int i = (int)cd->getNumElements() - 1; i >= 0; --i) p.push_back(evalConst(cd->getElementAsConstant(i)).e);
      return Val(mkConcat(p));
    }
    std::vector<Val> v;
    for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(evalConst(cd->getElementAsConstant(i)));
    return mkAgg(v);
  }
  if (auto* cv = dyn_cast<ConstantVector>(c)) {
    std::vector<Expr> p;
    for (int i = (int)cv->getNumOperands() - 1; i >= 0; --i) p.push_back(evalConst(cv->getOperand(i)).e);
    return Val(mkConcat(p));
  }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
    std::vector<Val> v;
    for (unsigned i = 0; i < c->getNumOperands(); i++) v.push_back(evalConst(cast<Constant>(c->getOperand(i))));
    return mkAgg(v);
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* g = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (!g->accumulateConstantOffset(*DL, off)) throw Fatal{"constant gep"};
      return Val(mkAdd(evalConst(cast<Constant>(g->getPointerOperand())).e, mkConst((u128)(uint64_t)off.getSExtValue(), 64)));
    }
    if (ce->isCast()) return castVal(ce->getOpcode(), evalConst(ce->getOperand(0)), ce->getOperand(0)->getType(), t);
    if (ce->getOpcode() == Instruction::ICmp)
      return Val(icmp((CmpInst::Predicate)ce->getPredicate(), evalConst(ce->getOperand(0)).e, evalConst(ce->getOperand(1)).e));
    if (Instruction::isBinaryOp(ce->getOpcode()))
      return Val(binop(ce->getOpcode(), evalConst(ce->getOperand(0)).e, evalConst(ce->getOperand(1)).e, t, nullptr));
  }
  std::string s;
  raw_string_ostream os(s);
  c->print(os);
  throw Fatal{"unsupported constant " + s};
}
int Engine::constSlot(const Value* v) {
  auto it = constIdx.find(v);
  if (it != constIdx.end()) return ~it->second;
  Val x;
  if (auto* c = dyn_cast<Constant>(v)) x = evalConst(c);
  constPool.push_back(x);
  int i = (int)constPool.size() - 1;
  constIdx[v] = i;
  return ~i;
}
void Engine::writeConst(Obj& o, uint64_t off, const Constant* c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  Type* t = c->getType();
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    auto* sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(o, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto* ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(o, off + i * es, ca->getOperand(i));
    return;
  }
  if (auto* cd = dyn_cast<ConstantDataArray>(c)) {
    StringRef raw = cd->getRawDataValues();
    for (size_t i = 0; i < raw.size(); i++) o.bytes[off + i] = mkConst((uint8_t)raw[i], 8);
    return;
  }
  Bytes b;
  valToBytes(evalConst(c), t, b);
  for (size_t i = 0; i < b.size(); i++) o.bytes[off + i] = b[i];
}
void Engine::initGlobals(State& s) {
  uint64_t fa = 0x10000;
  for (Function& F : *M) {
    gaddr[&F] = fa;
    faddr[fa] = &F;
    fa += 16;
  }
  uint64_t ga = 0x10000000;
  for (GlobalVariable& G : M->globals()) {
    if (G.getName().starts_with("llvm.")) { gaddr[&G] = 0x8; continue; }
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 256;
    if (G.isDeclaration() && sz < 256) sz = 256;
    ga = (ga + 63) / 64 * 64;
    if (uint64_t al = G.getAlign() ? G.getAlign()->value() : 0) ga = (ga + al - 1) / al * al;
    gaddr[&G] = ga;
    ga += sz + 64;
  }
  for (GlobalVariable& G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    auto o = std::make_shared<Obj>();
    o->base = gaddr[&G];
    o->size = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 256;
    if (G.isDeclaration() && o->size < 256) o->size = 256;
    o->kind = K_GLOBAL;
    o->constant = G.isConstant();
    o->name = G.getName().str();
    o->bytes.assign(o->size, mkConst(0, 8));
    if (G.hasInitializer()) writeConst(*o, 0, G.getInitializer());
    if (o->constant) constMem[o->base] = o;
    else s.mem[o->base] = o;
  }
}
FnRT* Engine::rt(Function* F) {
  auto& p = rts[F];
  if (p) return p.get();
  p.reset(new FnRT());
  FnRT* r = p.get();
  r->F = F;
  r->name = F->getName().str();
  r->pretty = demangle(r->name);
  bool harnessFn = false;   // case splits made by a harness are kept apart
  if (auto* sp = F->getSubprogram()) {
    std::string dir = sp->getDirectory().str(), fn = sp->getFilename().str();
    std::string full = fn.size() && fn[0] == '/' ? fn : dir + "/" + fn;
    if (full.find("/harness/") != std::string::npos && full.find("/verif") != std::string::npos) harnessFn = true;
    r->fromRepo = full.compare(0, cfg.repoPrefix.size(), cfg.repoPrefix) == 0;
  }
  r->mergeable = cfg.merge && !harnessFn && (cfg.noMerge.empty() || !std::regex_search(r->pretty, noMergeRe));
  std::unordered_map<const Value*, int> slot;
  std::unordered_map<const BasicBlock*, int> bidx;
  for (Argument& A : F->args()) slot[&A] = r->nslots++;
  for (BasicBlock& B : *F) {
    bidx[&B] = (int)r->blocks.size();
    r->blocks.emplace_back();
    r->blocks.back().B = &B;
    for (Instruction& I : B)
      if (!I.getType()->isVoidTy()) slot[&I] = r->nslots++;
  }
  auto opnd = [&](Value* v) -> int {
    auto it = slot.find(v);
    if (it != slot.end()) return it->second;
    if (isa<Constant>(v)) return constSlot(v);
    return ~constSlot(v) >= 0 ? constSlot(v) : constSlot(v);
  };
  size_t bi = 0;
  for (BasicBlock& B : *F) {
    PBlock& pb = r->blocks[bi++];
    for (Instruction& I : B) {
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      PInst pi;
      pi.I = &I;
      pi.opc = I.getOpcode();
      pi.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
      if (auto* phi = dyn_cast<PHINode>(&I)) {
        pb.nphi++;
        for (unsigned i = 0; i < phi->getNumIncomingValues(); i++) {
          pi.ops.push_back(opnd(phi->getIncomingValue(i)));
          pi.succ.push_back(bidx[phi->getIncomingBlock(i)]);
        }
      } else if (auto* cb = dyn_cast<CallBase>(&I)) {
        for (Value* a : cb->args()) pi.ops.push_back(a->getType()->isMetadataTy() ? constSlot(ConstantInt::getFalse(C)) : opnd(a));
        Value* callee = cb->getCalledOperand();
        pi.ops.push_back(isa<InlineAsm>(callee) ? constSlot(ConstantInt::getFalse(C)) : opnd(callee));
        if (auto* inv = dyn_cast<InvokeInst>(&I)) {
          pi.succ.push_back(bidx[inv->getNormalDest()]);
          pi.succ.push_back(bidx[inv->getUnwindDest()]);
        }
      } else if (auto* br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) pi.ops.push_back(opnd(br->getCondition()));
        for (unsigned i = 0; i < br->getNumSuccessors(); i++) pi.succ.push_back(bidx[br->getSuccessor(i)]);
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        pi.ops.push_back(opnd(sw->getCondition()));
        pi.succ.push_back(bidx[sw->getDefaultDest()]);
        for (auto& cs : sw->cases()) {
          pi.ops.push_back(opnd(cs.getCaseValue()));
          pi.succ.push_back(bidx[cs.getCaseSuccessor()]);
        }
      } else if (isa<LandingPadInst>(&I)) {
      } else {
        for (Value* v : I.operands()) {
          if (isa<BasicBlock>(v) || v->getType()->isMetadataTy()) { pi.ops.push_back(constSlot(ConstantInt::getFalse(C))); continue; }
          pi.ops.push_back(opnd(v));
        }
      }
      pb.insts.push_back(std::move(pi));
    }
  }
  return r;
}

// ---------------------------------------------------------------- reporting
std::string Engine::where() {
  if (!st) return "?";
  std::string first;
  for (int i = (int)st->stack.size() - 1; i >= 0; --i) {
    Frame& f = st->stack[i];
    if (f.ip >= f.fn->blocks[f.bb].insts.size()) continue;
    Instruction* I = f.fn->blocks[f.bb].insts[f.ip].I;
    std::string s = f.fn->pretty;
    if (s.size() > 90) s = s.substr(0, 90) + "..";
    if (auto dl = I->getDebugLoc()) {
      std::string fn = cast<DIScope>(dl.getScope())->getFilename().str();
      s += " (" + fn.substr(fn.rfind('/') + 1) + ":" + std::to_string(dl.getLine()) + ")";
    }
    if (first.empty()) first = s;
    if (f.fn->fromRepo) return first == s ? s : first + " <- " + s;
  }
  return first;
}
std::string Engine::trace() {
  std::string r;
  if (!st) return r;
  for (int i = (int)st->stack.size() - 1; i >= 0; --i) {
    Frame& f = st->stack[i];
    if (f.ip >= f.fn->blocks[f.bb].insts.size()) continue;
    Instruction* I = f.fn->blocks[f.bb].insts[f.ip].I;
    std::string s = f.fn->pretty;
    if (s.size() > 120) s = s.substr(0, 120) + "..";
    if (auto dl = I->getDebugLoc()) {
      std::string fn = cast<DIScope>(dl.getScope())->getFilename().str();
      s += " (" + fn.substr(fn.rfind('/') + 1) + ":" + std::to_string(dl.getLine()) + ")";
    }
    r += s + "\n";
  }
  return r;
}
// A concrete witness of pc && bad under the real primitives (the uninterpreted functions evaluated by libsodium/AES-NI):
// starts from a solver model (or an arbitrary assignment) and varies the inputs the path condition does not mention.
ModelP Engine::ground(Expr bad, ModelP m, unsigned tries) {
  if (cfg.concrete || !concreteApp) return nullptr;
  std::unordered_set<Expr> seen;
  std::set<uint32_t> inPc, all;
  bool apps = false;
  std::function<void(Expr, std::set<uint32_t>&)> walk = [&](Expr root, std::set<uint32_t>& out) {
    std::vector<Expr> w{root};
    while (!w.empty()) {
      Expr e = w.back();
      w.pop_back();
      if (e->isConst() || !seen.insert(e).second) continue;
      if (e->op == O_SYM) out.insert(e->aux);
      if (e->op == O_APP) apps = true;
      for (Expr k : e->kids) w.push_back(k);
    }
  };
  for (Expr c : st->pc) walk(c, inPc);
  walk(bad, all);
  for (auto& r : st->inputs) for (Expr b : r.bytes) walk(b, all);
  if (!apps && m) return nullptr;   // the solver's model is already exact
  static uint64_t seed = 0x9e3779b97f4a7c15ULL;
  auto rnd = [&]() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
  auto tEnd = std::chrono::steady_clock::now() + std::chrono::seconds(5);
  for (unsigned t = 0; t < tries; t++) {
    if (std::chrono::steady_clock::now() > tEnd) break;
    auto c = std::make_shared<Model>();
    c->real = &concreteApp;
    auto val = [&](uint32_t s) -> u128 {
      if (m) { auto it = m->sym.find(s); return it == m->sym.end() ? 0 : it->second; }
      return 0;
    };
    for (uint32_t s : all) c->sym[s] = t == 0 && m ? val(s) : (u128)rnd();
    for (uint32_t s : inPc) c->sym[s] = (t == 0 || rnd() % 8 || t % 4 != 3) ? val(s) : (u128)rnd();
    bool ok = c->eval(bad) && !c->realFail;
    for (Expr p : st->pc) if (ok && (!c->eval(p) || c->realFail)) ok = false;
    if (c->realFail) return nullptr;
    if (ok) return c;
  }
  return nullptr;
}
void Engine::record(const std::string& kind, const std::string& msg, ModelP m) {
  assertsFailed++;
  std::string w = where();
  std::string key = kind + "|" + msg + "|" + w;
  if (violKeys[key]++ >= cfg.perKey || violations.size() >= cfg.maxViolations) return;
  Violation v;
  v.kind = kind; v.msg = msg; v.where = w; v.trace = trace();
  for (auto& r : st->inputs) {
    std::string h;
    char b[4];
    for (Expr e : r.bytes) {
      unsigned x = e->isConst() ? (unsigned)e->cval : m ? (unsigned)m->eval(e) : 0;
      snprintf(b, 4, "%02x", x & 255);
      h += b;
    }
    v.inputs.push_back({r.name, h});
  }
  if (cfg.verbose) {
    fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), w.c_str());
    for (auto& i : v.inputs) fprintf(stderr, "   %s = %s\n", i.first.c_str(), i.second.substr(0, 200).c_str());
  }
  violations.push_back(v);
}
void Engine::violateStop(const std::string& kind, const std::string& msg) {
  ModelP m = st->model;
  if (!m) query(*st, mkTrue(), &m);
  if (ModelP g = ground(mkTrue(), m, 40)) m = g;
  record(kind, msg, m);
  throw PathEnd();
}
Res Engine::query(State& s, Expr extra, ModelP* m) {
  for (auto& r : recent) {
    if (!r) continue;
    if (!r->eval(extra)) continue;
    bool ok = true;
    for (Expr c : s.pc) if (!r->eval(c)) { ok = false; break; }
    if (ok) { modelHits++; if (m) *m = r; return R_SAT; }
  }
  ModelP mm;
  Res r = S.check(s.pc, extra, &mm);
  if (r == R_SAT) {
    bool ok = mm != nullptr;
    if (ok) {
      if (!mm->eval(extra)) ok = false;
      for (Expr c : s.pc) if (ok && !mm->eval(c)) ok = false;
    }
    if (!ok) { badModels++; mm = nullptr; }
    else {
      recent.push_front(mm);
      if (recent.size() > 8) recent.pop_back();
    }
    if (m) *m = mm;
  }
  return r;
}
void Engine::checkNever(const std::string& kind, const std::string& msg, Expr bad) {
  memChecks++;
  if (bad == mkFalse()) return;
  ModelP m;
  Res r;
  if (bad == mkTrue()) violateStop(kind, msg);
  if (st->known.count(mkNot(bad))) return;
  if (st->model && st->model->eval(bad)) { m = st->model; r = R_SAT; }
  else r = query(*st, bad, &m);
  if (r == R_UNSAT) { st->known.insert(mkNot(bad)); return; }
  if (ModelP g = ground(bad, r == R_SAT ? m : st->model, 40)) { m = g; r = R_SAT; }
  if (r == R_UNKNOWN) { inconclusive.insert("solver gave up on a built-in check (" + kind + ") at " + where()); return; }
  record(kind, msg, m);
  assume(mkNot(bad));
}
Expr Engine::named(const std::string& nm, uint32_t w) {
  auto it = namedSyms.find(nm);
  if (it != namedSyms.end()) return it->second;
  Expr e = mkSym(nm, w);
  namedSyms[nm] = e;
  return e;
}

// ---------------------------------------------------------------- memory
ObjP Engine::allocObj(State& s, uint64_t size, ObjKind k, const std::string& name, uint64_t align) {
  auto o = std::make_shared<Obj>();
  o->size = size;
  o->kind = k;
  o->name = name;
  if (align < 16) align = 16;
  if (k == K_SODIUM) {
    uint64_t end = (s.sodNext + size + 16 + 4095) / 4096 * 4096;
    o->base = end - size;
    s.sodNext = end + 4096;
    o->bytes.assign(size, mkConst(0xdb, 8));
  } else {
    uint64_t& nx = k == K_STACK ? s.stackNext : s.heapNext;
    nx = (nx + align - 1) / align * align;
    o->base = nx;
    nx += size + 48;
    o->bytes.assign(size, nullptr);
  }
  s.mem[o->base] = o;
  return o;
}
Obj* Engine::findObj(State& s, uint64_t addr) {
  auto it = s.mem.upper_bound(addr);
  if (it != s.mem.begin()) {
    --it;
    Obj* o = it->second.get();
    if (addr >= o->base && addr <= o->base + o->size && (addr < o->base + o->size || o->size == 0)) return o;
  }
  auto ic = constMem.upper_bound(addr);
  if (ic != constMem.begin()) {
    --ic;
    Obj* o = ic->second.get();
    if (addr >= o->base && addr < o->base + o->size) return o;
  }
  return nullptr;
}
Obj* Engine::writable(State& s, uint64_t base) {
  auto it = s.mem.find(base);
  if (it == s.mem.end()) return nullptr;
  if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
  return it->second.get();
}
Expr Engine::byteAt(Obj* o, uint64_t off) {
  Expr e = o->bytes[off];
  if (e) return e;
  if (cfg.concrete) e = mkConst(0xAA, 8);
  else e = named("uninit" + std::to_string(st->uninitCount++), 8);
  Obj* w = writable(*st, o->base);
  if (w) w->bytes[off] = e;
  return e;
}
Obj* Engine::checkAccess(uint64_t addr, uint64_t n, bool write, Expr cond) {
  memChecks++;
  auto bad = [&](const std::string& kind, const std::string& msg) {
    if (!cond) violateStop(kind, msg);
    checkNever(kind, msg, cond);
  };
  Obj* o = findObj(*st, addr);
  if (!o) {
    char b[96];
    if (addr < 4096) { snprintf(b, 96, "%s through a null pointer", write ? "write" : "read"); bad("null", b); return nullptr; }
    // describe the nearest object
    auto it = st->mem.upper_bound(addr);
    std::string near;
    if (it != st->mem.begin()) { --it; near = it->second->name + "[" + std::to_string(it->second->size) + "]+" + std::to_string(addr - it->second->base); }
    bad("oob", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes outside any object (near " + near + ")");
    return nullptr;
  }
  if (o->freed) { bad("uaf", std::string(write ? "write" : "read") + " of freed memory " + o->name); return nullptr; }
  if (addr + n > o->base + o->size) {
    bad("oob", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string(addr - o->base) + " of " + o->name + "[" + std::to_string(o->size) + "]");
    return nullptr;
  }
  if (o->prot == PR_NONE) { bad("prot", std::string(write ? "write" : "read") + " of locked key memory"); return nullptr; }
  if (write && o->prot == PR_RO) { bad("prot", "write to read-only key memory"); return nullptr; }
  if (write && o->constant) { bad("constwrite", "write to constant " + o->name); return nullptr; }
  return o;
}
static void iteLeaves(Expr e, Expr cond, std::vector<std::pair<Expr, uint64_t>>& out) {
  if (e->isConst()) { out.push_back({cond, e->c64()}); return; }
  iteLeaves(e->kids[1], cond ? mkAnd(cond, e->kids[0]) : e->kids[0], out);
  iteLeaves(e->kids[2], cond ? mkAnd(cond, mkNot(e->kids[0])) : mkNot(e->kids[0]), out);
}
Engine::Resolved Engine::resolve(Expr addr, uint64_t n, bool write) {
  Resolved r;
  if (addr->isConst()) {
    r.targets.push_back({nullptr, addr->c64()});
    checkAccess(addr->c64(), n, write, nullptr);
    return r;
  }
  if (addr->iteleaves) {
    std::vector<std::pair<Expr, uint64_t>> lv;
    iteLeaves(addr, nullptr, lv);
    std::map<uint64_t, Expr> by;
    for (auto& p : lv) {
      if (p.first == mkFalse()) continue;
      auto& e = by[p.second];
      e = e ? mkOr(e, p.first) : p.first;
    }
    for (auto& p : by) {
      if (!checkAccess(p.first, n, write, p.second)) continue;
      r.targets.push_back({p.second, p.first});
    }
    if (r.targets.empty()) throw PathEnd();
    return r;
  }
  if (!st->model) { if (query(*st, mkTrue(), &st->model) != R_SAT || !st->model) throw Fatal{"no model"}; }
  uint64_t a0 = (uint64_t)st->model->eval(addr);
  Obj* o = findObj(*st, a0);
  if (!o || o->freed || a0 + n > o->base + o->size) {
    checkAccess(a0, n, write, nullptr);
  }
  Expr off = mkSub(addr, mkConst(o->base, 64));
  Expr inb = mkUle(off, mkConst(o->size - n, 64));
  if (inb != mkTrue() && !st->known.count(inb)) {
    ModelP m2;
    Res q = query(*st, mkNot(inb), &m2);
    if (q == R_UNKNOWN) { inconclusive.insert("solver gave up on a bounds check at " + where()); assume(inb); }
    else if (q == R_SAT) {
      uint64_t a2 = m2 ? (uint64_t)m2->eval(addr) : 0;
      Obj* o2 = findObj(*st, a2);
      if (o2 && !o2->freed && a2 + n <= o2->base + o2->size) {
        branch(inb);
      } else {
        // feasible out-of-bounds access
        std::string near = o->name + "[" + std::to_string(o->size) + "]";
        record(o2 && o2->freed ? "uaf" : "oob", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at a symbolic address outside " + near, m2);
        assume(inb);
      }
    } else st->known.insert(inb);
  }
  o = checkAccess(o->base, n, write, nullptr);
  r.single = false;
  r.obj = o;
  r.off = off;
  r.lo = 0;
  r.hi = o->size - n;
  if (r.hi - r.lo > 64) {
    // narrow the feasible window
    uint64_t v = (uint64_t)st->model->eval(off);
    uint64_t lo = v, hi = r.hi;
    while (lo < hi) {  // largest feasible
      uint64_t mid = lo + (hi - lo + 1) / 2;
      ModelP m;
      Res q = query(*st, mkUle(mkConst(mid, 64), off), &m);
      if (q == R_SAT) lo = m ? std::max<uint64_t>(mid, (uint64_t)m->eval(off)) : mid;
      else if (q == R_UNSAT) hi = mid - 1;
      else break;
    }
    r.hi = hi;
    uint64_t a = 0, b = v;
    while (a < b) {
      uint64_t mid = a + (b - a) / 2;
      ModelP m;
      Res q = query(*st, mkUle(off, mkConst(mid, 64)), &m);
      if (q == R_SAT) b = m ? std::min<uint64_t>(mid, (uint64_t)m->eval(off)) : mid;
      else if (q == R_UNSAT) a = mid + 1;
      else break;
    }
    r.lo = a;
  }
  if (r.hi - r.lo > 20000) throw Fatal{"symbolic access window too large"};
  return r;
}
Bytes Engine::loadBytes(Expr addr, uint64_t n, bool keep) {
  if (n == 0) return {};
  Resolved r = resolve(addr, n, false);
  if (r.single) {
    if (r.targets.size() == 1) {
      Obj* o = findObj(*st, r.targets[0].addr);
      uint64_t off = r.targets[0].addr - o->base;
      Bytes b(o->bytes.begin() + off, o->bytes.begin() + off + n);
      if (!keep)
        for (uint64_t i = 0; i < n; i++) if (!b[i]) b[i] = byteAt(findObj(*st, r.targets[0].addr), off + i);
      return b;
    }
    Bytes res;
    for (size_t k = 0; k < r.targets.size(); k++) {
      Bytes b(n);
      for (uint64_t i = 0; i < n; i++) {
        Obj* o = findObj(*st, r.targets[k].addr);
        b[i] = byteAt(o, r.targets[k].addr - o->base + i);
      }
      if (k == 0) res = b;
      else for (uint64_t i = 0; i < n; i++) res[i] = mkIte(r.targets[k].cond, b[i], res[i]);
    }
    return res;
  }
  int nb = 0;
  while (nb < 64 && (r.hi >> nb)) nb++;
  std::vector<Expr> bits(nb);
  for (int i = 0; i < nb; i++) bits[i] = mkExtract(r.off, i, 1);
  uint64_t base = r.obj->base;
  // materialise uninitialised bytes first
  Bytes out(n);
  std::function<Expr(int, uint64_t, uint64_t)> sel = [&](int bit, uint64_t pre, uint64_t j) -> Expr {
    uint64_t span = bit < 0 ? 1 : ((uint64_t)2 << bit);
    if (pre > r.hi || pre + span - 1 < r.lo) return nullptr;
    if (bit < 0) return byteAt(st->mem.count(base) ? st->mem[base].get() : r.obj, pre + j);
    Expr b = bits[bit];
    if (b->isConst()) return sel(bit - 1, pre | ((uint64_t)b->cval << bit), j);
    Expr l = sel(bit - 1, pre, j), h = sel(bit - 1, pre | ((uint64_t)1 << bit), j);
    if (!l) return h;
    if (!h) return l;
    return mkIte(b, h, l);
  };
  for (uint64_t j = 0; j < n; j++) {
    out[j] = sel(nb - 1, 0, j);
    if (!out[j]) throw Fatal{"empty symbolic load"};
  }
  return out;
}
void Engine::storeBytes(Expr addr, const Bytes& b) {
  uint64_t n = b.size();
  if (n == 0) return;
  Resolved r = resolve(addr, n, true);
  if (r.single) {
    for (auto& t : r.targets) {
      Obj* o = writable(*st, findObj(*st, t.addr)->base);
      uint64_t off = t.addr - o->base;
      for (uint64_t i = 0; i < n; i++) {
        if (!t.cond) o->bytes[off + i] = b[i];
        else {
          Expr nv = b[i] ? b[i] : named("uninit" + std::to_string(st->uninitCount++), 8);
          o->bytes[off + i] = mkIte(t.cond, nv, byteAt(o, off + i));
        }
      }
    }
    return;
  }
  uint64_t base = r.obj->base;
  Obj* o = writable(*st, base);
  int low = 0;  // stride from constant low bits
  while (low < 6 && mkExtract(r.off, low, 1)->isConst()) low++;
  uint64_t step = (uint64_t)1 << low, phase = 0;
  for (int i = 0; i < low; i++) phase |= (uint64_t)mkExtract(r.off, i, 1)->cval << i;
  for (uint64_t p = r.lo; p <= r.hi; p++) {
    if (p % step != phase) continue;
    Expr c = mkEq(r.off, mkConst(p, 64));
    if (c == mkFalse()) continue;
    for (uint64_t i = 0; i < n; i++) {
      Expr nv = b[i] ? b[i] : named("uninit" + std::to_string(st->uninitCount++), 8);
      o->bytes[p + i] = mkIte(c, nv, byteAt(o, p + i));
    }
  }
}
void Engine::valToBytes(const Val& v, Type* t, Bytes& out) {
  if (auto* s = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(s);
    size_t start = out.size();
    for (unsigned i = 0; i < s->getNumElements(); i++) {
      out.resize(start + sl->getElementOffset(i), nullptr);
      valToBytes((*v.agg)[i], s->getElementType(i), out);
    }
    out.resize(start + DL->getTypeStoreSize(t), nullptr);
    return;
  }
  if (auto* a = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(a->getElementType());
    size_t start = out.size();
    for (unsigned i = 0; i < a->getNumElements(); i++) {
      out.resize(start + i * es, nullptr);
      valToBytes((*v.agg)[i], a->getElementType(), out);
    }
    out.resize(start + DL->getTypeStoreSize(t), nullptr);
    return;
  }
  Bytes b = exprBytes(v.e);
  b.resize(DL->getTypeStoreSize(t), mkConst(0, 8));
  out.insert(out.end(), b.begin(), b.end());
}
Val Engine::bytesToVal(const Bytes& b, size_t off, Type* t) {
  if (auto* s = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(s);
    std::vector<Val> v;
    for (unsigned i = 0; i < s->getNumElements(); i++) v.push_back(bytesToVal(b, off + sl->getElementOffset(i), s->getElementType(i)));
    return mkAgg(v);
  }
  if (auto* a = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(a->getElementType());
    std::vector<Val> v;
    for (unsigned i = 0; i < a->getNumElements(); i++) v.push_back(bytesToVal(b, off + i * es, a->getElementType()));
    return mkAgg(v);
  }
  uint64_t n = DL->getTypeStoreSize(t);
  if (n > 16) throw Fatal{"load wider than 128 bits"};
  Bytes r(b.begin() + off, b.begin() + off + n);
  Expr e = bytesExpr(r);
  uint32_t w = bitWidth(t);
  if (e->width != w) e = mkExtract(e, 0, w);
  return Val(e);
}
Val Engine::loadVal(Expr addr, Type* t) { return bytesToVal(loadBytes(addr, DL->getTypeStoreSize(t)), 0, t); }
void Engine::storeVal(Expr addr, const Val& v, Type* t) {
  Bytes b;
  valToBytes(v, t, b);
  storeBytes(addr, b);
}
void Engine::freeObj(Expr p, std::initializer_list<ObjKind> kinds, const char* what) {
  uint64_t a = concretize(p, "free");
  if (a == 0) return;
  Obj* o = findObj(*st, a);
  if (!o || (o->base != a)) violateStop("badfree", std::string(what) + " of a pointer that is not the start of an allocation");
  if (o->freed) violateStop("doublefree", std::string(what) + " of already freed memory " + o->name);
  bool ok = false;
  for (auto k : kinds) if (k == o->kind) ok = true;
  if (!ok) violateStop("badfree", std::string(what) + " of memory obtained from another allocator (" + o->name + ")");
  Obj* w = writable(*st, a);
  w->freed = true;
  w->bytes.clear();
  w->bytes.shrink_to_fit();
}

// ---------------------------------------------------------------- values
Expr Engine::evE(Frame& f, int op) {
  const Val& v = ev(f, op);
  if (!v.e) throw Fatal{"aggregate or undefined value used as scalar at " + where()};
  return v.e;
}
uint64_t Engine::concretize(Expr e, const char* why) {
  if (e->isConst()) return e->c64();
  if (!st->model) { if (query(*st, mkTrue(), &st->model) != R_SAT || !st->model) throw Fatal{"no model"}; }
  uint64_t v = (uint64_t)st->model->eval(e);
  (void)why;
  branch(mkEq(e, mkConst(v, e->width)));
  return v;
}
Expr Engine::icmp(CmpInst::Predicate p, Expr a, Expr b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkUlt(a, b);
    case CmpInst::ICMP_ULE: return mkUle(a, b);
    case CmpInst::ICMP_UGT: return mkUlt(b, a);
    case CmpInst::ICMP_UGE: return mkUle(b, a);
    case CmpInst::ICMP_SLT: return mkSlt(a, b);
    case CmpInst::ICMP_SLE: return mkSle(a, b);
    case CmpInst::ICMP_SGT: return mkSlt(b, a);
    case CmpInst::ICMP_SGE: return mkSle(b, a);
    default: throw Fatal{"icmp predicate"};
  }
}
Expr Engine::binop(unsigned opc, Expr a, Expr b, Type* t, Instruction* I) {
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    if (opc == Instruction::And) return mkAnd(a, b);
    if (opc == Instruction::Or) return mkOr(a, b);
    if (opc == Instruction::Xor) return mkXor(a, b);
    uint32_t ew = bitWidth(vt->getElementType()), n = vt->getNumElements();
    std::vector<Expr> p;
    for (int i = (int)n - 1; i >= 0; --i)
      p.push_back(binop(opc, mkExtract(a, i * ew, ew), mkExtract(b, i * ew, ew), vt->getElementType(), I));
    return mkConcat(p);
  }
  uint32_t w = a->width;
  auto divChk = [&]() { if (I) checkNever("divzero", "division by zero", mkEq(b, mkConst(0, w))); };
  // a shift speculated by if-conversion only feeds selects (or masks feeding them): its poison is then not used
  std::function<bool(const Instruction*, int)> speculated = [&](const Instruction* J, int depth) -> bool {
    if (depth > 4) return false;
    for (const User* U : J->users()) {
      if (isa<SelectInst>(U)) continue;
      if (isa<CastInst>(U) || isa<BinaryOperator>(U)) { if (speculated(cast<Instruction>(U), depth + 1)) continue; }
      return false;
    }
    return !J->use_empty();
  };
  auto shChk = [&]() { if (I && !speculated(I, 0)) checkNever("shift", "shift amount not smaller than the operand width", mkUle(mkConst(w, w < 8 ? w : w), b)); };
  switch (opc) {
    case Instruction::Add: return mkAdd(a, b);
    case Instruction::Sub: return mkSub(a, b);
    case Instruction::Mul: return mkMul(a, b);
    case Instruction::UDiv: divChk(); return mkUDiv(a, b);
    case Instruction::SDiv: divChk(); return mkSDiv(a, b);
    case Instruction::URem: divChk(); return mkURem(a, b);
    case Instruction::SRem: divChk(); return mkSRem(a, b);
    case Instruction::And: return mkAnd(a, b);
    case Instruction::Or: return mkOr(a, b);
    case Instruction::Xor: return mkXor(a, b);
    case Instruction::Shl: shChk(); return mkShl(a, b);
    case Instruction::LShr: shChk(); return mkLShr(a, b);
    case Instruction::AShr: shChk(); return mkAShr(a, b);
    default: throw Fatal{"binop " + std::to_string(opc)};
  }
}
Val Engine::castVal(unsigned opc, const Val& v, Type* from, Type* to) {
  if (auto* vt = dyn_cast<FixedVectorType>(to)) {
    if (opc != Instruction::BitCast) {
      auto* ft = cast<FixedVectorType>(from);
      uint32_t fw = bitWidth(ft->getElementType()), n = vt->getNumElements();
      std::vector<Expr> p;
      for (int i = (int)n - 1; i >= 0; --i)
        p.push_back(castVal(opc, Val(mkExtract(v.e, i * fw, fw)), ft->getElementType(), vt->getElementType()).e);
      return Val(mkConcat(p));
    }
  }
  switch (opc) {
    case Instruction::Trunc: return Val(mkExtract(v.e, 0, bitWidth(to)));
    case Instruction::ZExt: return Val(mkZExt(v.e, bitWidth(to)));
    case Instruction::SExt: return Val(mkSExt(v.e, bitWidth(to)));
    case Instruction::PtrToInt:
    case Instruction::IntToPtr: {
      uint32_t w = bitWidth(to);
      if (v.e->width == w) return v;
      return v.e->width > w ? Val(mkExtract(v.e, 0, w)) : Val(mkZExt(v.e, w));
    }
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast: return v;
    case Instruction::UIToFP: case Instruction::SIToFP: {
      if (!v.e->isConst()) throw Fatal{"symbolic floating point"};
      if (to->isDoubleTy()) { double d = opc == Instruction::UIToFP ? (double)v.e->c64() : (double)(int64_t)v.e->c64(); uint64_t u; memcpy(&u, &d, 8); return Val(mkConst(u, 64)); }
      if (to->isFloatTy()) { float d = opc == Instruction::UIToFP ? (float)v.e->c64() : (float)(int64_t)v.e->c64(); uint32_t u; memcpy(&u, &d, 4); return Val(mkConst(u, 32)); }
      break;
    }
    default: break;
  }
  throw Fatal{std::string("cast ") + Instruction::getOpcodeName(opc) + " at " + where()};
}

// ---------------------------------------------------------------- control
StateP Engine::cloneState(State& s) {
  StateP n(new State(s));
  n->id = nextState++;
  for (auto& f : n->stack) live[f.uid]++;
  return n;
}
void Engine::addPC(State& s, Expr c) {
  if (c == mkTrue()) return;
  if (c->op == O_AND && c->width == 1) { addPC(s, c->kids[0]); addPC(s, c->kids[1]); return; }
  if (s.known.count(c)) return;
  s.pc.push_back(c);
  s.known.insert(c);
}
bool Engine::branch(Expr c) {
  if (c->isConst()) return c->cval != 0;
  if (st->known.count(c)) return true;
  Expr nc = mkNot(c);
  if (st->known.count(nc)) return false;
  if (!st->model) {
    if (query(*st, mkTrue(), &st->model) != R_SAT || !st->model) throw Fatal{"no model for the path"};
  }
  bool side = st->model->eval(c) != 0;
  Expr mine = side ? c : nc, oth = side ? nc : c;
  ModelP m;
  Res r = query(*st, oth, &m);
  if (r == R_UNSAT) { st->known.insert(mine); return side; }
  if (r == R_UNKNOWN) {
    inconclusive.insert("solver gave up on a branch at " + where());
    addPC(*st, mine);
    return side;
  }
  forks++;
  forkSites[where()]++;
  StateP n = cloneState(*st);
  addPC(*n, oth);
  n->model = m;
  work.push_back(std::move(n));
  addPC(*st, mine);
  return side;
}
void Engine::assume(Expr c) {
  if (c == mkTrue()) return;
  if (c == mkFalse()) throw PathEnd();
  if (st->known.count(c)) return;
  if (st->model && st->model->eval(c)) { addPC(*st, c); return; }
  ModelP m;
  Res r = query(*st, c, &m);
  if (r == R_UNSAT) throw PathEnd();
  if (r == R_UNKNOWN) { inconclusive.insert("solver gave up on an assumption at " + where()); throw PathEnd(); }
  st->model = m;
  addPC(*st, c);
}
void Engine::dropAllocas(State& s, Frame& f) {
  for (uint64_t a : f.allocas) s.mem.erase(a);
  f.allocas.clear();
}
void Engine::popFrame(State& s) {
  Frame& f = s.stack.back();
  dropAllocas(s, f);
  uint64_t uid = f.uid;
  s.stack.pop_back();
  if (--live[uid] == 0) {
    live.erase(uid);
    if (parked.count(uid)) flush(uid);
  }
}
void Engine::kill(State& s) {
  while (!s.stack.empty()) {
    uint64_t uid = s.stack.back().uid;
    s.stack.pop_back();
    if (--live[uid] == 0) {
      live.erase(uid);
      if (parked.count(uid)) flush(uid);
    }
  }
}
static Val iteVal(Expr c, const Val& a, const Val& b, bool& ok) {
  if (a.agg || b.agg) {
    if (!a.agg || !b.agg || a.agg->size() != b.agg->size()) { ok = false; return a; }
    if (a.agg == b.agg) return a;
    std::vector<Val> v;
    for (size_t i = 0; i < a.agg->size(); i++) v.push_back(iteVal(c, (*a.agg)[i], (*b.agg)[i], ok));
    return mkAgg(v);
  }
  if (!a.e || !b.e) { if (a.e != b.e) ok = false; return a; }
  return Val(mkIte(c, a.e, b.e));
}
bool Engine::mergeInto(State& a, State& b) {
  if (a.inflight.size() != b.inflight.size() || a.caught.size() != b.caught.size()) return false;
  if (a.inflight.size() || a.caught.size()) {
    for (size_t i = 0; i < a.caught.size(); i++) if (a.caught[i].addr != b.caught[i].addr) return false;
    for (size_t i = 0; i < a.inflight.size(); i++) if (a.inflight[i].addr != b.inflight[i].addr) return false;
  }
  if (!(a.inputs == b.inputs) || !(a.hctx == b.hctx) || a.symCount != b.symCount) return false;
  // objects
  auto dead = [](const ObjP& o) { return o->freed; };
  std::vector<uint64_t> diff;
  auto ia = a.mem.begin(), ib = b.mem.begin();
  std::vector<ObjP> addToA;
  while (ia != a.mem.end() || ib != b.mem.end()) {
    if (ib == b.mem.end() || (ia != a.mem.end() && ia->first < ib->first)) {
      if (!dead(ia->second)) return false;
      ++ia;
    } else if (ia == a.mem.end() || ib->first < ia->first) {
      if (!dead(ib->second)) return false;
      addToA.push_back(ib->second);
      ++ib;
    } else {
      if (ia->second != ib->second) {
        Obj &x = *ia->second, &y = *ib->second;
        if (x.freed != y.freed) return false;
        if (!x.freed) {
          if (x.size != y.size || x.kind != y.kind || x.prot != y.prot) return false;
          if (x.bytes != y.bytes) diff.push_back(ia->first);
        }
      }
      ++ia;
      ++ib;
    }
  }
  // pointer-looking words must agree
  auto looksPtr = [&](State& s, uint64_t v) { return v >= 0x10000000ULL && findObj(s, v) != nullptr; };
  for (uint64_t d : diff) {
    Obj &x = *a.mem[d], &y = *b.mem[d];
    for (uint64_t i = 0; i + 8 <= x.size; i += 8) {
      bool same = true, cx = true, cy = true;
      for (int k = 0; k < 8; k++) {
        if (x.bytes[i + k] != y.bytes[i + k]) same = false;
        if (!x.bytes[i + k] || !x.bytes[i + k]->isConst()) cx = false;
        if (!y.bytes[i + k] || !y.bytes[i + k]->isConst()) cy = false;
      }
      if (same) continue;
      uint64_t vx = 0, vy = 0;
      for (int k = 7; k >= 0; k--) {
        if (cx) vx = vx << 8 | x.bytes[i + k]->c64();
        if (cy) vy = vy << 8 | y.bytes[i + k]->c64();
      }
      if ((cx && looksPtr(a, vx)) || (cy && looksPtr(b, vy))) return false;
    }
  }
  // path condition
  size_t common = 0;
  while (common < a.pc.size() && common < b.pc.size() && a.pc[common] == b.pc[common]) common++;
  Expr sa = mkTrue(), sb = mkTrue();
  for (size_t i = common; i < a.pc.size(); i++) sa = mkAnd(sa, a.pc[i]);
  for (size_t i = common; i < b.pc.size(); i++) sb = mkAnd(sb, b.pc[i]);
  Expr cond = sa;
  if (common < a.pc.size() && common < b.pc.size() && a.pc[common] == mkNot(b.pc[common])) cond = a.pc[common];
  bool ok = true;
  Val rv = iteVal(cond, a.retVal, b.retVal, ok);
  if (!ok) return false;
  for (uint64_t d : diff) {
    Obj* y = b.mem[d].get();
    if (a.mem[d].use_count() > 1) a.mem[d] = std::make_shared<Obj>(*a.mem[d]);
    Obj* x = a.mem[d].get();
    for (uint64_t i = 0; i < x->size; i++) {
      if (x->bytes[i] == y->bytes[i]) continue;
      Expr p = x->bytes[i], q = y->bytes[i];
      if (!p && !q) continue;
      if (!p) p = named("uninit" + std::to_string(a.uninitCount++), 8);
      if (!q) q = named("uninit" + std::to_string(a.uninitCount++), 8);
      x->bytes[i] = mkIte(cond, p, q);
    }
  }
  for (auto& o : addToA) a.mem[o->base] = o;
  a.retVal = rv;
  a.pc.resize(common);
  std::unordered_set<Expr> k;
  for (Expr e : a.known) if (b.known.count(e)) k.insert(e);
  a.known.swap(k);
  addPC(a, mkOr(sa, sb));
  a.heapNext = std::max(a.heapNext, b.heapNext);
  a.stackNext = std::max(a.stackNext, b.stackNext);
  a.sodNext = std::max(a.sodNext, b.sodNext);
  a.uninitCount = std::max(a.uninitCount, b.uninitCount);
  a.rndCount = std::max(a.rndCount, b.rndCount);
  if (!a.model) a.model = b.model;
  return true;
}
void Engine::flush(uint64_t uid) {
  auto it = parked.find(uid);
  if (it == parked.end()) return;
  std::vector<StateP> L = std::move(it->second), R;
  parked.erase(it);
  for (auto& s : L) {
    bool done = false;
    for (auto& r : R) {
      if (mergeInto(*r, *s)) {
        merges++;
        done = true;
        for (size_t i = 0; i + 1 < s->stack.size(); i++) live[s->stack[i].uid]--;
        break;
      }
    }
    if (!done) R.push_back(std::move(s));
  }
  if (R.size() > 1) mergeFails += R.size() - 1;
  for (auto& r : R) {
    r->stack.pop_back();
    Val rv = r->retVal;
    r->retVal = Val();
    finishCall(*r, rv);
    work.push_back(std::move(r));
  }
}
void Engine::jump(Frame& f, int to) {
  int from = f.bb;
  PBlock& b = f.fn->blocks[to];
  if (b.nphi) {
    std::vector<Val> nv(b.nphi);
    for (unsigned i = 0; i < b.nphi; i++) {
      PInst& p = b.insts[i];
      size_t k = 0;
      while (k < p.succ.size() && p.succ[k] != from) k++;
      if (k == p.succ.size()) throw Fatal{"phi without incoming edge"};
      nv[i] = ev(f, p.ops[k]);
    }
    for (unsigned i = 0; i < b.nphi; i++) f.regs[b.insts[i].dst] = nv[i];
  }
  f.prev = from;
  f.bb = to;
  f.ip = b.nphi;
}
void Engine::pushFrame(Function* F, const std::vector<Val>& args) {
  if (st->stack.size() > 2000) throw Fatal{"call stack too deep"};
  FnRT* r = rt(F);
  r->calls++;
  Frame f;
  f.fn = r;
  f.regs.resize(r->nslots);
  for (size_t i = 0; i < args.size() && i < F->arg_size(); i++) f.regs[i] = args[i];
  f.uid = nextUid++;
  live[f.uid] = 1;
  // byval arguments are copied by the callee side
  for (size_t i = 0; i < F->arg_size(); i++) {
    if (F->getArg(i)->hasByValAttr()) {
      Type* t = F->getParamByValType(i);
      uint64_t n = DL->getTypeAllocSize(t);
      Bytes b = loadBytes(args[i].e, n, true);
      ObjP o = allocObj(*st, n, K_STACK, "byval");
      o->bytes = b;
      f.allocas.push_back(o->base);
      f.regs[i] = Val(mkConst(o->base, 64));
    }
  }
  st->stack.push_back(std::move(f));
}
void Engine::finishCall(State& s, const Val& rv) {
  if (s.stack.empty()) return;
  Frame& f = s.stack.back();
  PInst& pi = f.fn->blocks[f.bb].insts[f.ip];
  if (pi.dst >= 0) {
    if (!rv.e && !rv.agg) f.regs[pi.dst] = zeroOf(pi.I->getType());
    else f.regs[pi.dst] = rv;
  }
  if (pi.opc == Instruction::Invoke) jump(f, pi.succ[0]);
  else f.ip++;
}
void Engine::doRet(const Val& rv) {
  Frame& f = st->stack.back();
  uint64_t uid = f.uid;
  bool m = f.fn->mergeable && st->stack.size() > 1 && (live[uid] > 1 || parked.count(uid));
  if (m) {
    dropAllocas(*st, f);
    st->retVal = rv;
    parked[uid].push_back(std::move(cur));
    st = nullptr;
    if (--live[uid] == 0) { live.erase(uid); flush(uid); }
    return;
  }
  Val v = rv;
  popFrame(*st);
  if (st->stack.empty()) throw PathEnd();
  finishCall(*st, v);
}
void Engine::doCall(PInst& pi) {
  auto* cb = cast<CallBase>(pi.I);
  Frame& f = st->stack.back();
  std::vector<Val> args;
  for (size_t i = 0; i + 1 < pi.ops.size(); i++) args.push_back(ev(f, pi.ops[i]));
  if (cb->isInlineAsm()) {
    Val r;
    if (!inlineAsm(cb, args, r)) throw Fatal{"inline asm"};
    finishCall(*st, r);
    return;
  }
  Function* F = cb->getCalledFunction();
  if (!F) {
    Expr fp = ev(f, pi.ops.back()).e;
    uint64_t a = concretize(fp, "call");
    auto it = faddr.find(a);
    if (it == faddr.end()) violateStop("badcall", "call through an invalid function pointer");
    F = it->second;
  }
  dispatch(F, pi, args);
}
void Engine::dispatch(Function* F, PInst& pi, std::vector<Val>& args) {
  auto* cb = cast<CallBase>(pi.I);
  if (F->isIntrinsic()) {
    Val r;
    if (!intrinsic(cb, F, args, r)) throw Fatal{"intrinsic " + F->getName().str()};
    if (st) finishCall(*st, r);
    return;
  }
  auto it = ext.find(F->getName().str());
  if (it != ext.end()) {
    Val r;
    if (it->second(cb, args, r) && st) finishCall(*st, r);
    return;
  }
  if (F->isDeclaration()) throw Fatal{"unmodelled external function " + demangle(F->getName().str())};
  pushFrame(F, args);
}

// ---------------------------------------------------------------- exceptions
static std::string tiName(const Value* v) {
  if (!v || isa<ConstantPointerNull>(v)) return "";
  return v->stripPointerCasts()->getName().str();
}
int Engine::typeId(const Value* v) {
  std::string n = tiName(v);
  auto it = typeIds.find(n);
  if (it != typeIds.end()) return it->second;
  int id = (int)typeIds.size() + 1;
  typeIds[n] = id;
  return id;
}
static const std::map<std::string, std::string>& stdBases() {
  static const std::map<std::string, std::string> b = {
      {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
      {"_ZTISt12length_error", "_ZTISt11logic_error"},     {"_ZTISt12domain_error", "_ZTISt11logic_error"},
      {"_ZTISt11logic_error", "_ZTISt9exception"},         {"_ZTISt13runtime_error", "_ZTISt9exception"},
      {"_ZTISt11range_error", "_ZTISt13runtime_error"},    {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
      {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},{"_ZTISt9bad_alloc", "_ZTISt9exception"},
      {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},{"_ZTISt8bad_cast", "_ZTISt9exception"},
      {"_ZTISt17bad_function_call", "_ZTISt9exception"},   {"_ZTISt12system_error", "_ZTISt13runtime_error"},
      {"_ZTISt15bad_exception", "_ZTISt9exception"}};
  return b;
}
bool Engine::catches(const Value* clause, const Value* thrown) {
  std::string c = tiName(clause);
  if (c.empty()) return true;  // catch (...)
  const Value* t = thrown ? thrown->stripPointerCasts() : nullptr;
  std::string n = tiName(t);
  while (true) {
    if (n == c) return true;
    auto it = stdBases().find(n);
    if (it != stdBases().end()) { n = it->second; t = M->getNamedValue(n); continue; }
    // single-inheritance type info defined in the module
    if (auto* g = dyn_cast_or_null<GlobalVariable>(t)) {
      if (g->hasInitializer())
        if (auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()))
          if (cs->getNumOperands() == 3) { t = cs->getOperand(2)->stripPointerCasts(); n = tiName(t); continue; }
    }
    return false;
  }
}
void Engine::throwExc(uint64_t addr, const Value* ti) {
  ExcInfo e;
  e.addr = addr;
  e.tinfo = ti;
  // phase 1: is there a handler?
  bool found = false;
  for (int i = (int)st->stack.size() - 1; i >= 0 && !found; --i) {
    Frame& f = st->stack[i];
    PInst& pi = f.fn->blocks[f.bb].insts[f.ip];
    if (pi.opc != Instruction::Invoke) continue;
    auto* lp = cast<InvokeInst>(pi.I)->getLandingPadInst();
    for (unsigned k = 0; k < lp->getNumClauses(); k++)
      if (lp->isCatch(k) && catches(lp->getClause(k), ti)) found = true;
  }
  if (!found) violateStop("uncaught", "exception " + tiName(ti) + " is not caught");
  st->inflight.push_back(e);
  unwind();
}
void Engine::throwStd(const std::string& tn) {
  ObjP o = allocObj(*st, 16, K_EXC, "exception");
  GlobalValue* g = M->getNamedValue(tn);
  if (!g) {
    g = new GlobalVariable(*M, PointerType::get(C, 0), true, GlobalValue::ExternalLinkage, nullptr, tn);
    gaddr[g] = 0x8;
  }
  throwExc(o->base, g);
}
// the instruction at the top frame's ip is a call/invoke/resume that raised
void Engine::unwind() {
  ExcInfo e = st->inflight.back();
  bool first = true;
  while (true) {
    Frame& f = st->stack.back();
    PInst& pi = f.fn->blocks[f.bb].insts[f.ip];
    if (pi.opc == Instruction::Invoke) {
      auto* inv = cast<InvokeInst>(pi.I);
      auto* lp = inv->getLandingPadInst();
      int sel = -1;
      for (unsigned k = 0; k < lp->getNumClauses() && sel < 0; k++) {
        if (lp->isCatch(k)) {
          if (catches(lp->getClause(k), e.tinfo)) sel = typeId(lp->getClause(k));
        } else {
          // filter (exception specification): not matching any type => violates
          auto* arr = lp->getClause(k);
          bool allowed = false;
          if (auto* ca = dyn_cast<ConstantArray>(arr))
            for (auto& op : ca->operands()) if (catches(cast<Constant>(op), e.tinfo)) allowed = true;
          if (!allowed) violateStop("uncaught", "exception violates an exception specification");
        }
      }
      if (sel < 0 && lp->isCleanup()) sel = 0;
      if (sel >= 0) {
        jump(f, pi.succ[1]);
        PInst& l = f.fn->blocks[f.bb].insts[f.ip];
        if (l.opc != Instruction::LandingPad) throw Fatal{"landing pad expected"};
        f.regs[l.dst] = mkAgg({Val(mkConst(e.addr, 64)), Val(mkConst(sel, 32))});
        f.ip++;
        return;
      }
    }
    (void)first;
    popFrame(*st);
    if (st->stack.empty()) throw Fatal{"unwound past the entry"};
  }
}

// ---------------------------------------------------------------- interpreter
void Engine::step() {
  Frame& f = st->stack.back();
  PInst& pi = f.fn->blocks[f.bb].insts[f.ip];
  totalSteps++;
  auto set = [&](const Val& v) { f.regs[pi.dst] = v; f.ip++; };
  switch (pi.opc) {
    case Instruction::Alloca: {
      auto* ai = cast<AllocaInst>(pi.I);
      uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType());
      Expr cnt = evE(f, pi.ops[0]);
      uint64_t c = concretize(cnt, "alloca");
      std::string nm = ai->hasName() ? ai->getName().str() : "stack";
      ObjP o = allocObj(*st, n * c, K_STACK, nm, ai->getAlign().value());
      f.allocas.push_back(o->base);
      set(Val(mkConst(o->base, 64)));
      return;
    }
    case Instruction::Load: {
      auto* li = cast<LoadInst>(pi.I);
      Expr a = evE(f, pi.ops[0]);
      if (li->getType()->isVectorTy() && li->getAlign().value() >= 16 && a->isConst() && a->c64() % 16)
        violateStop("misaligned", "16-byte vector load from a misaligned address");
      set(loadVal(a, li->getType()));
      return;
    }
    case Instruction::Store: {
      auto* si = cast<StoreInst>(pi.I);
      Expr a = evE(f, pi.ops[1]);
      if (si->getValueOperand()->getType()->isVectorTy() && si->getAlign().value() >= 16 && a->isConst() && a->c64() % 16)
        violateStop("misaligned", "16-byte vector store to a misaligned address");
      Val sv = ev(f, pi.ops[0]);
      if (cfg.norm && sv.e && si->getValueOperand()->getType()->isIntegerTy()) sv = Val(normTerm(sv.e));
      storeVal(a, sv, si->getValueOperand()->getType());
      f.ip++;
      return;
    }
    case Instruction::GetElementPtr: {
      auto* g = cast<GEPOperator>(pi.I);
      Expr p = evE(f, pi.ops[0]);
      unsigned k = 1;
      for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi, ++k) {
        Expr idx = evE(f, pi.ops[k]);
        if (StructType* s = gi.getStructTypeOrNull()) {
          p = mkAdd(p, mkConst(DL->getStructLayout(s)->getElementOffset((unsigned)idx->c64()), 64));
        } else {
          uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
          Expr i64 = idx->width == 64 ? idx : idx->width < 64 ? mkSExt(idx, 64) : mkExtract(idx, 0, 64);
          p = mkAdd(p, mkMul(i64, mkConst(sz, 64)));
        }
      }
      set(Val(p));
      return;
    }
    case Instruction::Br: {
      if (pi.ops.empty()) { jump(f, pi.succ[0]); return; }
      Expr c = evE(f, pi.ops[0]);
      bool b = branch(c);
      jump(f, pi.succ[b ? 0 : 1]);
      return;
    }
    case Instruction::Switch: {
      Expr c = evE(f, pi.ops[0]);
      if (c->isConst()) {
        for (size_t i = 1; i < pi.ops.size(); i++)
          if (constPool[~pi.ops[i]].e == c) { jump(f, pi.succ[i]); return; }
        jump(f, pi.succ[0]);
        return;
      }
      if (!st->model) { if (query(*st, mkTrue(), &st->model) != R_SAT || !st->model) throw Fatal{"no model"}; }
      u128 v = st->model->eval(c);
      int dest = pi.succ[0];
      for (size_t i = 1; i < pi.ops.size(); i++) if (constPool[~pi.ops[i]].e->cval == v) dest = pi.succ[i];
      Expr cond = mkFalse(), anyc = mkFalse();
      for (size_t i = 1; i < pi.ops.size(); i++) {
        Expr e = mkEq(c, constPool[~pi.ops[i]].e);
        anyc = mkOr(anyc, e);
        if (pi.succ[i] == dest) cond = mkOr(cond, e);
      }
      if (dest == pi.succ[0]) cond = mkOr(cond, mkNot(anyc));
      if (!branch(cond)) throw Fatal{"switch"};
      jump(f, dest);
      return;
    }
    case Instruction::Ret: {
      Val v = pi.ops.empty() ? Val() : ev(f, pi.ops[0]);
      doRet(v);
      return;
    }
    case Instruction::Call:
    case Instruction::Invoke: doCall(pi); return;
    case Instruction::Resume: {
      uint64_t a = (*ev(f, pi.ops[0]).agg)[0].e->c64();
      // the exception being resumed becomes the innermost one in flight
      for (size_t i = 0; i < st->inflight.size(); i++)
        if (st->inflight[i].addr == a) {
          ExcInfo e = st->inflight[i];
          st->inflight.erase(st->inflight.begin() + i);
          st->inflight.push_back(e);
          break;
        }
      popFrame(*st);
      if (st->stack.empty()) throw Fatal{"resume past the entry"};
      unwind();
      return;
    }
    case Instruction::Unreachable: violateStop("unreachable", "unreachable code reached");
    case Instruction::ICmp: {
      auto* ci = cast<ICmpInst>(pi.I);
      Expr a = evE(f, pi.ops[0]), b = evE(f, pi.ops[1]);
      if (auto* vt = dyn_cast<FixedVectorType>(ci->getOperand(0)->getType())) {
        uint32_t ew = bitWidth(vt->getElementType());
        std::vector<Expr> p;
        for (int i = (int)vt->getNumElements() - 1; i >= 0; --i)
          p.push_back(icmp(ci->getPredicate(), mkExtract(a, i * ew, ew), mkExtract(b, i * ew, ew)));
        set(Val(mkConcat(p)));
        return;
      }
      set(Val(icmp(ci->getPredicate(), a, b)));
      return;
    }
    case Instruction::Select: {
      Expr c = evE(f, pi.ops[0]);
      if (c->width != 1) {
        const Val &x = ev(f, pi.ops[1]), &y = ev(f, pi.ops[2]);
        uint32_t n = c->width, ew = x.e->width / n;
        std::vector<Expr> p;
        for (int i = (int)n - 1; i >= 0; --i) p.push_back(mkIte(mkExtract(c, i, 1), mkExtract(x.e, i * ew, ew), mkExtract(y.e, i * ew, ew)));
        set(Val(mkConcat(p)));
        return;
      }
      bool ok = true;
      Val v = c->isConst() ? (c->cval ? ev(f, pi.ops[1]) : ev(f, pi.ops[2])) : iteVal(c, ev(f, pi.ops[1]), ev(f, pi.ops[2]), ok);
      set(v);
      return;
    }
    case Instruction::ExtractValue: {
      auto* x = cast<ExtractValueInst>(pi.I);
      Val v = ev(f, pi.ops[0]);
      for (unsigned i : x->indices()) { Val t = (*v.agg)[i]; v = t; }
      set(v);
      return;
    }
    case Instruction::InsertValue: {
      auto* x = cast<InsertValueInst>(pi.I);
      std::function<Val(const Val&, size_t)> ins = [&](const Val& v, size_t d) -> Val {
        if (d == x->getNumIndices()) return ev(f, pi.ops[1]);
        std::vector<Val> c = *v.agg;
        c[x->getIndices()[d]] = ins(c[x->getIndices()[d]], d + 1);
        return mkAgg(c);
      };
      set(ins(ev(f, pi.ops[0]), 0));
      return;
    }
    case Instruction::ExtractElement: {
      auto* vt = cast<FixedVectorType>(pi.I->getOperand(0)->getType());
      uint32_t ew = bitWidth(vt->getElementType());
      Expr v = evE(f, pi.ops[0]);
      uint64_t i = concretize(evE(f, pi.ops[1]), "extractelement");
      set(Val(mkExtract(v, i * ew, ew)));
      return;
    }
    case Instruction::InsertElement: {
      auto* vt = cast<FixedVectorType>(pi.I->getType());
      uint32_t ew = bitWidth(vt->getElementType()), n = vt->getNumElements();
      Expr v = evE(f, pi.ops[0]), x = evE(f, pi.ops[1]);
      uint64_t k = concretize(evE(f, pi.ops[2]), "insertelement");
      std::vector<Expr> p;
      for (int i = (int)n - 1; i >= 0; --i) p.push_back((uint64_t)i == k ? x : mkExtract(v, i * ew, ew));
      set(Val(mkConcat(p)));
      return;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(pi.I);
      auto* vt = cast<FixedVectorType>(sv->getOperand(0)->getType());
      uint32_t ew = bitWidth(vt->getElementType());
      int n = vt->getNumElements();
      Expr a = evE(f, pi.ops[0]), b = evE(f, pi.ops[1]);
      std::vector<Expr> p;
      auto mask = sv->getShuffleMask();
      for (int i = (int)mask.size() - 1; i >= 0; --i) {
        int m = mask[i];
        if (m < 0) p.push_back(mkConst(0, ew));
        else p.push_back(m < n ? mkExtract(a, m * ew, ew) : mkExtract(b, (m - n) * ew, ew));
      }
      set(Val(mkConcat(p)));
      return;
    }
    case Instruction::Freeze: set(ev(f, pi.ops[0])); return;
    case Instruction::Fence: f.ip++; return;
    case Instruction::AtomicRMW: {
      auto* a = cast<AtomicRMWInst>(pi.I);
      Expr p = evE(f, pi.ops[0]), v = evE(f, pi.ops[1]);
      Expr old = loadVal(p, a->getType()).e, nv;
      switch (a->getOperation()) {
        case AtomicRMWInst::Add: nv = mkAdd(old, v); break;
        case AtomicRMWInst::Sub: nv = mkSub(old, v); break;
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Or: nv = mkOr(old, v); break;
        case AtomicRMWInst::And: nv = mkAnd(old, v); break;
        default: throw Fatal{"atomicrmw"};
      }
      storeVal(p, Val(nv), a->getType());
      set(Val(old));
      return;
    }
    case Instruction::AtomicCmpXchg: {
      auto* a = cast<AtomicCmpXchgInst>(pi.I);
      Expr p = evE(f, pi.ops[0]), c = evE(f, pi.ops[1]), n = evE(f, pi.ops[2]);
      Type* t = a->getCompareOperand()->getType();
      Expr old = loadVal(p, t).e;
      Expr eq = mkEq(old, c);
      storeVal(p, Val(mkIte(eq, n, old)), t);
      set(mkAgg({Val(old), Val(eq)}));
      return;
    }
    default: break;
  }
  if (pi.I->isBinaryOp()) {
    if (pi.I->getType()->isFPOrFPVectorTy()) throw Fatal{"floating point arithmetic"};
    set(Val(binop(pi.opc, evE(f, pi.ops[0]), evE(f, pi.ops[1]), pi.I->getType(), pi.I)));
    return;
  }
  if (pi.I->isCast()) {
    set(castVal(pi.opc, ev(f, pi.ops[0]), pi.I->getOperand(0)->getType(), pi.I->getType()));
    return;
  }
  throw Fatal{std::string("instruction ") + pi.I->getOpcodeName()};
}
void Engine::runState() {
  uint64_t n = 0;
  while (st) {
    if ((++n & 1023) == 0) {
      double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (dt > cfg.maxSecs) throw Fatal{"time limit"};
    }
    step();
  }
}
void Engine::run(const std::string& entry) {
  t0 = std::chrono::steady_clock::now();
  if (!cfg.noMerge.empty()) noMergeRe = std::regex(cfg.noMerge);
  registerExternals();
  registerSodium();
  StateP s0(new State());
  s0->id = nextState++;
  s0->model = std::make_shared<Model>();
  st = s0.get();
  initGlobals(*s0);
  // global constructors, then the entry point
  std::vector<Function*> todo;
  if (auto* g = M->getNamedGlobal("llvm.global_ctors"))
    if (g->hasInitializer())
      if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
        for (auto& op : ca->operands())
          if (auto* F = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts())) todo.push_back(F);
  Function* E = M->getFunction(entry);
  if (!E) { fprintf(stderr, "no entry %s\n", entry.c_str()); exit(3); }
  todo.push_back(E);
  cur = std::move(s0);
  for (size_t i = 0; i + 1 < todo.size(); i++) {
    // run constructors concretely on the single initial state
    st = cur.get();
    try {
      pushFrame(todo[i], {});
      while (true) step();
    } catch (PathEnd&) {
    } catch (Fatal& f) {
      inconclusive.insert("global constructor " + todo[i]->getName().str() + ": " + f.msg);
      while (!st->stack.empty()) popFrame(*st);
    }
  }
  st = cur.get();
  pushFrame(E, {});
  work.push_back(std::move(cur));
  bool stop = false;
  while (!work.empty() && !stop) {
    cur = std::move(work.back());
    work.pop_back();
    st = cur.get();
    try {
      runState();
    } catch (PathEnd&) {
      paths++;
      if (cur) { State* s = cur.get(); StateP keep = std::move(cur); st = nullptr; kill(*s); }
    } catch (Fatal& f) {
      std::string w = where();
      inconclusive.insert(f.msg + " @ " + w);
      if (cfg.verbose) fprintf(stderr, "FATAL %s @ %s\n%s", f.msg.c_str(), w.c_str(), trace().c_str());
      paths++;
      if (f.msg == "time limit") stop = true;
      if (cur) { State* s = cur.get(); StateP keep = std::move(cur); st = nullptr; kill(*s); }
    }
    cur.reset();
    st = nullptr;
    if (violations.size() >= cfg.maxViolations) { notes["stopped after the violation limit"]++; break; }
  }
}
static std::string js(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); o += b; }
    else o += c;
  }
  return o + "\"";
}
void Engine::writeResult(const std::string& path) {
  std::ofstream f(path);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  f << "{\n\"wall\": " << dt << ",\n\"paths\": " << paths << ", \"forks\": " << forks << ", \"merges\": " << merges
    << ", \"merge_fails\": " << mergeFails << ", \"steps\": " << totalSteps << ",\n\"queries\": " << S.st.queries
    << ", \"sat\": " << S.st.sat << ", \"unsat\": " << S.st.unsat << ", \"unknown\": " << S.st.unknown
    << ", \"fallback\": " << S.st.fallback << ", \"cvc5\": " << S.st.cvc5 << ", \"model_hits\": " << modelHits << ", \"bad_models\": " << badModels
    << ", \"solver_secs\": " << S.st.secs << ", \"max_query\": " << S.st.maxq
    << ",\n\"asserts\": " << assertsTotal << ", \"asserts_trivial\": " << assertsTrivial << ", \"asserts_solved\": " << assertsSolved
    << ", \"asserts_unknown\": " << assertsUnknown << ", \"mem_checks\": " << memChecks << ",\n\"covers\": {";
  bool first = true;
  for (auto& c : covers) { f << (first ? "" : ", ") << js(c.first) << ": " << c.second; first = false; }
  f << "},\n\"notes\": {";
  first = true;
  for (auto& c : notes) { f << (first ? "" : ", ") << js(c.first) << ": " << c.second; first = false; }
  f << "},\n\"inconclusive\": [";
  first = true;
  for (auto& c : inconclusive) { f << (first ? "" : ", ") << js(c); first = false; }
  f << "],\n\"functions\": [";
  first = true;
  std::set<std::string> fs;
  for (auto& p : rts) if (p.second->fromRepo && p.second->calls) fs.insert(p.second->pretty);
  for (auto& n : fs) { f << (first ? "" : ",\n ") << js(n); first = false; }
  f << "],\n\"violations\": [";
  first = true;
  for (auto& v : violations) {
    f << (first ? "" : ",\n") << "{\"kind\": " << js(v.kind) << ", \"msg\": " << js(v.msg) << ", \"where\": " << js(v.where)
      << ", \"trace\": " << js(v.trace) << ", \"inputs\": [";
    bool g = true;
    for (auto& i : v.inputs) { f << (g ? "" : ", ") << "[" << js(i.first) << ", " << js(i.second) << "]"; g = false; }
    f << "]}";
    first = false;
  }
  f << "]\n}\n";
}
}  // namespace vp
