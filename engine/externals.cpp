#include <unordered_set>
#include "engine.hpp"
#include <llvm/IR/IntrinsicsX86.h>
#include <sstream>
using namespace llvm;
namespace vp {
// canonical form of a term over one 8-bit input: a decision tree over its bits (no application inside)
Expr normTerm(Expr e) {
  if (e->isConst() || e->width > 128) return e;
  static std::unordered_map<Expr, Expr> memo;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Expr& out = memo[e];
  out = e;
  Expr sym = nullptr;
  std::unordered_set<Expr> seen;
  std::vector<Expr> todo{e};
  while (!todo.empty()) {
    Expr x = todo.back(); todo.pop_back();
    if (!seen.insert(x).second) continue;
    if (x->op == O_APP || x->width > 128) return e;
    if (x->op == O_SYM) { if ((sym && sym != x) || x->width > 8) return e; sym = x; }
    for (Expr k : x->kids) todo.push_back(k);
  }
  if (!sym) return e;
  std::vector<Expr> lvl;
  for (uint64_t v = 0; v < (1ull << sym->width); v++) {
    Model m;
    m.sym[sym->aux] = v;
    lvl.push_back(mkConst(m.eval(e), e->width));
  }
  for (unsigned b = 0; b < sym->width; b++) {
    Expr bit = mkExtract(sym, b, 1);
    std::vector<Expr> nx;
    for (size_t i = 0; i < lvl.size(); i += 2) nx.push_back(lvl[i] == lvl[i + 1] ? lvl[i] : mkIte(bit, lvl[i + 1], lvl[i]));
    lvl.swap(nx);
  }
  memo[lvl[0]] = lvl[0];
  return memo[e] = lvl[0];
}

static Expr k64(uint64_t v) { return mkConst(v, 64); }
static Expr k32(uint64_t v) { return mkConst(v, 32); }
static Expr byteK(uint8_t v) { return mkConst(v, 8); }
static const uint64_t HUGE_ALLOC = 16u << 20;

std::string Engine::cstr(Expr p) {
  uint64_t a = concretize(p, "cstr");
  std::string s;
  for (;; a++) {
    Obj* o = findObj(*st, a);
    if (!o || o->freed) break;
    Expr b = o->bytes[a - o->base];
    if (!b || !b->isConst() || b->cval == 0) break;
    s.push_back((char)b->cval);
  }
  return s;
}
Bytes Engine::appBytes(const std::string& fn, const Bytes& args, uint32_t outBytes) {
  Bytes r;
  if (cfg.concrete) {
    std::string in, out;
    for (Expr e : args) {
      if (!e->isConst()) throw Fatal{"non-constant argument in concrete mode"};
      in.push_back((char)e->cval);
    }
    if (!concreteApp || !concreteApp(fn, in, out)) throw Fatal{"no concrete implementation of " + fn};
    for (uint32_t i = 0; i < outBytes; i++) r.push_back(byteK((uint8_t)out[i]));
    return r;
  }
  Expr a = mkApp(fn, args, outBytes * 8);
  for (uint32_t i = 0; i < outBytes; i++) r.push_back(mkExtract(a, i * 8, 8));
  return r;
}
Bytes Engine::inputBytes(const std::string& name, uint64_t n) {
  Bytes b;
  if (cfg.concrete) {
    if (replayPos < cfg.replay.size()) {
      const std::string& h = cfg.replay[replayPos++].second;
      for (uint64_t i = 0; i < n; i++)
        b.push_back(byteK(2 * i + 1 < h.size() ? (uint8_t)strtoul(h.substr(2 * i, 2).c_str(), nullptr, 16) : 0));
    } else b.assign(n, byteK(0));
  } else {
    unsigned k = st->symCount[name]++;
    std::string base = k ? name + "#" + std::to_string(k) : name;
    for (uint64_t i = 0; i < n; i++) b.push_back(named(base + "." + std::to_string(i), 8));
  }
  st->inputs.push_back({name, b});
  return b;
}

static Expr allEq(const Bytes& a, const Bytes& b) {
  Expr r = mkTrue();
  for (size_t i = 0; i < a.size(); i++) {
    r = mkAnd(r, mkEq(a[i], b[i]));
    if (r == mkFalse()) return r;
  }
  return r;
}
static Expr memcmpExpr(const Bytes& a, const Bytes& b) {
  Expr eq = allEq(a, b);
  if (eq == mkTrue()) return k32(0);
  Expr lt = mkFalse();
  for (int i = (int)a.size() - 1; i >= 0; --i) lt = mkIte(mkEq(a[i], b[i]), lt, mkUlt(a[i], b[i]));
  return mkIte(eq, k32(0), mkIte(lt, k32(0xffffffff), k32(1)));
}

void Engine::registerExternals() {
  auto reg = [&](std::initializer_list<const char*> names, ExtFn f) {
    for (auto n : names) ext[n] = f;
  };
  auto size = [this](Expr e, const char* what) -> uint64_t {
    if (!e->isConst()) {
      auto v0 = assertsFailed;
      checkNever("hugealloc", std::string(what) + " with an unreasonable size", mkUlt(k64(HUGE_ALLOC), e));
      if (assertsFailed != v0) assume(mkNot(mkUlt(k64(64), e)));   // reported; go on with the small sizes only
    }
    uint64_t n = concretize(e, what);
    if (n > HUGE_ALLOC) violateStop("hugealloc", std::string(what) + " with an unreasonable size");
    return n;
  };
  // ---- allocation
  auto mkNew = [this, size](ObjKind k, const char* nm) {
    return [this, size, k, nm](CallBase*, std::vector<Val>& a, Val& r) {
      uint64_t n = size(a[0].e, nm);
      r = Val(k64(allocObj(*st, n, k, nm)->base));
      return true;
    };
  };
  reg({"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t"}, mkNew(K_NEW, "new"));
  reg({"_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t"}, mkNew(K_NEWARR, "new[]"));
  reg({"malloc"}, mkNew(K_MALLOC, "malloc"));
  reg({"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"},
      [this](CallBase*, std::vector<Val>& a, Val&) { freeObj(a[0].e, {K_NEW}, "operator delete"); return true; });
  reg({"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t"},
      [this](CallBase*, std::vector<Val>& a, Val&) { freeObj(a[0].e, {K_NEWARR}, "operator delete[]"); return true; });
  reg({"free"}, [this](CallBase*, std::vector<Val>& a, Val&) { freeObj(a[0].e, {K_MALLOC}, "free"); return true; });
  reg({"calloc"}, [this, size](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t n = size(a[0].e, "calloc"), m = size(a[1].e, "calloc");
    if (n * m > HUGE_ALLOC) violateStop("hugealloc", "calloc with an unreasonable size");
    ObjP o = allocObj(*st, n * m, K_MALLOC, "calloc");
    o->bytes.assign(n * m, byteK(0));
    r = Val(k64(o->base));
    return true;
  });
  reg({"realloc"}, [this, size](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t n = size(a[1].e, "realloc");
    uint64_t p = concretize(a[0].e, "realloc");
    Bytes old;
    if (p) {
      Obj* o = findObj(*st, p);
      if (!o || o->freed || o->base != p || o->kind != K_MALLOC) violateStop("badfree", "realloc of an invalid pointer");
      old = o->bytes;
      freeObj(a[0].e, {K_MALLOC}, "realloc");
    }
    ObjP o = allocObj(*st, n, K_MALLOC, "realloc");
    for (uint64_t i = 0; i < n && i < old.size(); i++) o->bytes[i] = old[i];
    r = Val(k64(o->base));
    return true;
  });
  // ---- memory and strings
  reg({"memcpy", "memmove", "__memcpy_chk", "__memmove_chk"}, [this](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t n = concretize(a[2].e, "memcpy");
    if (n) { Bytes b = loadBytes(a[1].e, n, true); storeBytes(a[0].e, b); }
    r = a[0];
    return true;
  });
  reg({"memset", "__memset_chk"}, [this](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t n = concretize(a[2].e, "memset");
    if (n) storeBytes(a[0].e, Bytes(n, mkExtract(a[1].e, 0, 8)));
    r = a[0];
    return true;
  });
  reg({"memcmp", "bcmp"}, [this](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t n = concretize(a[2].e, "memcmp");
    if (!n) { r = Val(k32(0)); return true; }
    Bytes x = loadBytes(a[0].e, n), y = loadBytes(a[1].e, n);
    r = Val(memcmpExpr(x, y));
    return true;
  });
  reg({"strlen"}, [this](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t p = concretize(a[0].e, "strlen"), n = 0;
    while (true) {
      Expr b = loadBytes(k64(p + n), 1)[0];
      if (branch(mkEq(b, byteK(0)))) break;
      n++;
    }
    r = Val(k64(n));
    return true;
  });
  reg({"memchr"}, [this](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t n = concretize(a[2].e, "memchr");
    Expr ch = mkExtract(a[1].e, 0, 8);
    Expr res = k64(0);
    if (n) {
      Bytes b = loadBytes(a[0].e, n);
      for (int i = (int)n - 1; i >= 0; --i) res = mkIte(mkEq(b[i], ch), mkAdd(a[0].e, k64(i)), res);
    }
    r = Val(res);
    return true;
  });
  reg({"strchr"}, [this](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t p = concretize(a[0].e, "strchr");
    Expr ch = mkExtract(a[1].e, 0, 8);
    for (;; p++) {
      Expr b = loadBytes(k64(p), 1)[0];
      if (branch(mkEq(b, ch))) { r = Val(k64(p)); return true; }
      if (branch(mkEq(b, byteK(0)))) { r = Val(k64(0)); return true; }
    }
  });
  reg({"strcmp", "strncmp"}, [this](CallBase* cb, std::vector<Val>& a, Val& r) {
    uint64_t p = concretize(a[0].e, "strcmp"), q = concretize(a[1].e, "strcmp");
    uint64_t n = a.size() > 2 ? concretize(a[2].e, "strncmp") : ~0ULL;
    (void)cb;
    for (uint64_t i = 0; i < n; i++) {
      Expr x = loadBytes(k64(p + i), 1)[0], y = loadBytes(k64(q + i), 1)[0];
      if (!branch(mkEq(x, y))) { r = Val(mkIte(mkUlt(x, y), k32(0xffffffff), k32(1))); return true; }
      if (branch(mkEq(x, byteK(0)))) break;
    }
    r = Val(k32(0));
    return true;
  });
  reg({"strstr"}, [this](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t p = concretize(a[0].e, "strstr");
    std::string nd = cstr(a[1].e);
    for (;; p++) {
      // a match needs all bytes to be inside the string; read lazily
      bool match = true;
      for (size_t i = 0; i < nd.size(); i++) {
        Expr b = loadBytes(k64(p + i), 1)[0];
        if (!branch(mkEq(b, byteK((uint8_t)nd[i])))) { match = false; break; }
      }
      if (match) { r = Val(k64(p)); return true; }
      Expr b = loadBytes(k64(p), 1)[0];
      if (branch(mkEq(b, byteK(0)))) { r = Val(k64(0)); return true; }
    }
  });
  reg({"strerror"}, [this](CallBase*, std::vector<Val>&, Val& r) {
    ObjP o = allocObj(*st, 8, K_GLOBAL, "strerror");
    o->bytes.assign(8, byteK(0));
    r = Val(k64(o->base));
    return true;
  });
  reg({"__errno_location"}, [this](CallBase*, std::vector<Val>&, Val& r) {
    const uint64_t A = 0x9000000;
    if (!st->mem.count(A)) {
      auto o = std::make_shared<Obj>();
      o->base = A; o->size = 8; o->kind = K_GLOBAL; o->name = "errno";
      o->bytes.assign(8, byteK(0));
      st->mem[A] = o;
    }
    r = Val(k64(A));
    return true;
  });
  reg({"printf", "puts", "putchar", "fprintf", "fflush", "fputs", "fputc", "fwrite", "perror", "vprintf", "vfprintf", "__printf_chk", "__fprintf_chk"},
      [](CallBase* cb, std::vector<Val>&, Val& r) { r = Val(mkConst(0, cb->getType()->isIntegerTy() ? cb->getType()->getIntegerBitWidth() : 32)); return true; });
  reg({"__assert_fail"}, [this](CallBase*, std::vector<Val>& a, Val&) -> bool { violateStop("assert", "assertion failed: " + cstr(a[0].e)); });
  reg({"abort"}, [this](CallBase*, std::vector<Val>&, Val&) -> bool { violateStop("abort", "abort() called"); });
  reg({"exit", "_exit"}, [this](CallBase*, std::vector<Val>&, Val&) -> bool { violateStop("abort", "exit() called"); });
  reg({"_ZSt9terminatev", "__clang_call_terminate", "__cxa_call_unexpected", "__cxa_pure_virtual"},
      [this](CallBase*, std::vector<Val>&, Val&) -> bool { violateStop("terminate", "std::terminate reached"); });
  reg({"__cxa_atexit", "atexit"}, [](CallBase*, std::vector<Val>&, Val& r) { r = Val(k32(0)); return true; });
  // ---- C++ runtime
  reg({"__cxa_guard_acquire"}, [this](CallBase*, std::vector<Val>& a, Val& r) {
    Expr b = loadBytes(a[0].e, 1)[0];
    r = Val(mkIte(mkEq(b, byteK(0)), k32(1), k32(0)));
    return true;
  });
  reg({"__cxa_guard_release"}, [this](CallBase*, std::vector<Val>& a, Val&) { storeBytes(a[0].e, {byteK(1)}); return true; });
  reg({"__cxa_guard_abort"}, [](CallBase*, std::vector<Val>&, Val&) { return true; });
  reg({"__cxa_allocate_exception"}, [this](CallBase*, std::vector<Val>& a, Val& r) {
    ObjP o = allocObj(*st, std::max<uint64_t>(16, concretize(a[0].e, "exception")), K_EXC, "exception");
    r = Val(k64(o->base));
    return true;
  });
  reg({"__cxa_free_exception"}, [this](CallBase*, std::vector<Val>& a, Val&) { freeObj(a[0].e, {K_EXC}, "free_exception"); return true; });
  reg({"__cxa_throw"}, [this](CallBase* cb, std::vector<Val>& a, Val&) -> bool {
    throwExc(a[0].e->c64(), cb->getArgOperand(1)->stripPointerCasts());
    return false;
  });
  reg({"__cxa_begin_catch"}, [this](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t p = a[0].e->c64();
    for (size_t i = st->inflight.size(); i-- > 0;)
      if (st->inflight[i].addr == p) {
        ExcInfo e = st->inflight[i];
        st->inflight.erase(st->inflight.begin() + i);
        st->caught.push_back(e);
        break;
      }
    r = a[0];
    return true;
  });
  reg({"__cxa_end_catch"}, [this](CallBase*, std::vector<Val>&, Val&) {
    if (st->caught.empty()) throw Fatal{"end_catch without begin_catch"};
    ExcInfo e = st->caught.back();
    st->caught.pop_back();
    bool alive = e.rethrown;
    for (auto& x : st->inflight) if (x.addr == e.addr) alive = true;
    for (auto& x : st->caught) if (x.addr == e.addr) alive = true;
    if (!alive) freeObj(k64(e.addr), {K_EXC}, "end_catch");
    return true;
  });
  reg({"__cxa_rethrow"}, [this](CallBase*, std::vector<Val>&, Val&) -> bool {
    if (st->caught.empty()) violateStop("terminate", "rethrow without exception");
    ExcInfo e = st->caught.back();
    throwExc(e.addr, e.tinfo);
    return false;
  });
  reg({"__cxa_get_exception_ptr"}, [](CallBase*, std::vector<Val>& a, Val& r) { r = a[0]; return true; });
  auto thr = [this](const char* tn) {
    std::string t = tn;
    return [this, t](CallBase*, std::vector<Val>&, Val&) -> bool { throwStd(t); return false; };
  };
  reg({"_ZSt20__throw_length_errorPKc"}, thr("_ZTISt12length_error"));
  reg({"_ZSt19__throw_logic_errorPKc"}, thr("_ZTISt11logic_error"));
  reg({"_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz"}, thr("_ZTISt12out_of_range"));
  reg({"_ZSt24__throw_invalid_argumentPKc"}, thr("_ZTISt16invalid_argument"));
  reg({"_ZSt21__throw_runtime_errorPKc"}, thr("_ZTISt13runtime_error"));
  reg({"_ZSt17__throw_bad_allocv"}, thr("_ZTISt9bad_alloc"));
  reg({"_ZSt28__throw_bad_array_new_lengthv"}, thr("_ZTISt20bad_array_new_length"));
  reg({"_ZSt25__throw_bad_function_callv"}, thr("_ZTISt17bad_function_call"));
  // std exceptions, streams, to_string: by pattern
  static const std::regex excRe("^_ZNSt\\d+(invalid_argument|out_of_range|length_error|logic_error|runtime_error|domain_error|range_error|overflow_error|underflow_error|exception|bad_alloc)(C1|C2|D0|D1|D2)E.*");
  static const std::regex strmRe("^(_ZStls|_ZNSo|_ZNSt8ios_base|_ZSt4endl|_ZSt5flush|_ZNSt9basic_ios|_ZSt16__ostream_insert|_ZNKSt9basic_ios|_ZSt21ios_base_library_initv).*");
  for (Function& F : *M) {
    std::string n = F.getName().str();
    if (ext.count(n)) continue;
    if (std::regex_match(n, excRe)) ext[n] = [](CallBase*, std::vector<Val>&, Val&) { return true; };
    else if (F.isDeclaration() && std::regex_match(n, strmRe))
      ext[n] = [](CallBase* cb, std::vector<Val>& a, Val& r) {
        if (!cb->getType()->isVoidTy() && !a.empty() && cb->getType()->isPointerTy()) r = a[0];
        return true;
      };
    else if (n.find("4whatEv") != std::string::npos && n.compare(0, 5, "_ZNKS") == 0)
      ext[n] = [this](CallBase*, std::vector<Val>&, Val& r) {
        ObjP o = allocObj(*st, 8, K_GLOBAL, "what");
        o->bytes.assign(8, byteK(0));
        r = Val(k64(o->base));
        return true;
      };
    else if (n.compare(0, 23, "_ZNSt7__cxx119to_string") == 0)
      ext[n] = [this](CallBase*, std::vector<Val>& a, Val&) {
        // only used for messages: an arbitrary short string
        uint64_t p = concretize(a[0].e, "to_string");
        Bytes b(32, byteK(0));
        Bytes ptr = exprBytes(k64(p + 16));
        for (int i = 0; i < 8; i++) b[i] = ptr[i];
        b[8] = byteK(1);
        b[16] = byteK('#');
        storeBytes(k64(p), b);
        return true;
      };
  }
  // ---- harness interface
  reg({"vp_sym"}, [this](CallBase*, std::vector<Val>& a, Val&) {
    uint64_t n = concretize(a[1].e, "vp_sym");
    storeBytes(a[0].e, inputBytes(cstr(a[2].e), n));
    return true;
  });
  reg({"vp_range"}, [this](CallBase*, std::vector<Val>& a, Val& r) {
    Expr lo = a[1].e, hi = a[2].e;
    uint64_t h = hi->isConst() ? hi->c64() : ~0ULL;
    int nb = 0;
    while (nb < 64 && (h >> nb)) nb++;
    Bytes b = inputBytes(cstr(a[0].e), 8);
    Expr e = bytesExpr(b);
    // keep the upper bits structurally zero
    if (nb < 64 && !cfg.concrete) {
      Expr v = nb ? mkExtract(e, 0, nb) : nullptr;
      Expr z = nb ? mkZExt(v, 64) : k64(0);
      Bytes nbts = exprBytes(z);
      st->inputs.back().bytes = nbts;
      e = z;
    }
    assume(mkUle(lo, e));
    assume(mkUle(e, hi));
    r = Val(e);
    return true;
  });
  reg({"vp_assume"}, [this](CallBase*, std::vector<Val>& a, Val&) {
    assume(mkNot(mkEq(a[0].e, mkConst(0, a[0].e->width))));
    return true;
  });
  auto doAssert = [this](Expr ok, const std::string& msg) {
    assertsTotal++;
    if (ok == mkTrue() || st->known.count(ok)) { assertsTrivial++; return; }
    Expr bad = mkNot(ok);
    ModelP m;
    Res r;
    bool quickHit = false;
    if (bad == mkTrue()) {
      r = R_SAT; m = st->model;
      if (!m) r = query(*st, mkTrue(), &m);
    } else if (ModelP g = ground(bad, st->model, 4)) { r = R_SAT; m = g; quickHit = true; }
    else if (st->model && st->model->eval(bad)) { r = R_SAT; m = st->model; }
    else {
      if (cfg.verbose) fprintf(stderr, "ASSERT %s: %s\n", msg.c_str(), toStr(ok, 10).substr(0, 3000).c_str());
      r = query(*st, bad, &m);
    }
    if (r == R_UNSAT) { assertsSolved++; st->known.insert(ok); return; }
    if (!quickHit) if (ModelP g = ground(bad, r == R_SAT ? m : st->model, 100)) { m = g; r = R_SAT; }
    if (r == R_UNKNOWN) { assertsUnknown++; inconclusive.insert("solver gave up on assertion: " + msg); return; }
    record("assertion", msg, m);
    assume(ok);
  };
  // x == y follows from the pairwise equality of the arguments of corresponding uninterpreted applications
  auto congruent = [this](const Bytes& x, const Bytes& y) -> bool {
    std::set<std::pair<Expr, Expr>> seen;
    Expr obl = mkTrue();
    size_t apps = 0, leaves = 0;
    std::vector<std::pair<Expr, Expr>> work;
    for (size_t i = 0; i < x.size(); i++) work.push_back({x[i], y[i]});
    while (!work.empty()) {
      auto pr = work.back();
      work.pop_back();
      Expr a = pr.first, b = pr.second;
      if (a == b) continue;
      if (a->id > b->id) std::swap(a, b);
      if (!seen.insert({a, b}).second) continue;
      Expr fa = a->op == O_EXTRACT ? a->kids[0] : a, fb = b->op == O_EXTRACT ? b->kids[0] : b;
      if (fa->op == O_APP && fb->op == O_APP && fa->aux == fb->aux && (a->op != O_EXTRACT || (b->op == O_EXTRACT && a->aux == b->aux))) {
        if (++apps > 4000) return false;
        if (!seen.insert({fa, fb}).second && fa != a) continue;
        for (size_t i = 0; i < fa->kids.size(); i++) work.push_back({fa->kids[i], fb->kids[i]});
        continue;
      }
      if (a->op == O_XOR || b->op == O_XOR) {
        Expr d = mkXor(a, b);
        if (d->op == O_XOR && d->kids.size() == 2 && !d->kids[1]->isConst()) { work.push_back({d->kids[0], d->kids[1]}); continue; }
      }
      if (++leaves > 2000) return false;
      obl = mkAnd(obl, mkEq(a, b));
      if (obl == mkFalse()) return false;
    }
    if (!apps) return false;
    if (obl == mkTrue()) return true;
    Expr bad = mkNot(obl);
    if (st->model && st->model->eval(bad)) return false;
    return query(*st, bad, nullptr) == R_UNSAT;
  };
  reg({"vp_assert"}, [this, doAssert](CallBase*, std::vector<Val>& a, Val&) {
    doAssert(mkNot(mkEq(a[0].e, mkConst(0, a[0].e->width))), cstr(a[1].e));
    return true;
  });
  reg({"vp_assert_eq"}, [this, doAssert, congruent](CallBase*, std::vector<Val>& a, Val&) {
    uint64_t n = concretize(a[2].e, "vp_assert_eq");
    if (n == 0) return true;
    Bytes x = loadBytes(a[0].e, n), y = loadBytes(a[1].e, n);
    if (!cfg.concrete && x != y && congruent(x, y)) { assertsTotal++; assertsSolved++; return true; }
    doAssert(allEq(x, y), cstr(a[3].e));
    return true;
  });
  reg({"vp_eq"}, [this](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t n = concretize(a[2].e, "vp_eq");
    Bytes x = loadBytes(a[0].e, n), y = loadBytes(a[1].e, n);
    r = Val(mkZExt(allEq(x, y), 32));
    return true;
  });
  reg({"vp_cover"}, [this](CallBase*, std::vector<Val>& a, Val&) { covers[cstr(a[0].e)]++; return true; });
  reg({"vp_note"}, [this](CallBase*, std::vector<Val>& a, Val&) { notes[cstr(a[0].e)]++; return true; });
  reg({"vp_param"}, [this](CallBase*, std::vector<Val>& a, Val& r) {
    std::string n = cstr(a[0].e);
    auto it = cfg.params.find(n);
    r = Val(it == cfg.params.end() ? a[1].e : k64(it->second));
    return true;
  });
  reg({"vp_concretize"}, [this](CallBase*, std::vector<Val>& a, Val& r) { r = Val(k64(concretize(a[0].e, "harness"))); return true; });
  reg({"vp_ite"}, [](CallBase*, std::vector<Val>& a, Val& r) {
    r = Val(mkIte(mkNot(mkEq(a[0].e, mkConst(0, a[0].e->width))), a[1].e, a[2].e));
    return true;
  });
  reg({"vp_const"}, [](CallBase*, std::vector<Val>& a, Val& r) { r = Val(k32(a[0].e->isConst() ? 1 : 0)); return true; });
  reg({"vp_table"}, [this](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t n = concretize(a[1].e, "vp_table");
    Bytes t = loadBytes(a[0].e, n);
    Expr idx = a[2].e;
    if (n == 0) { r = Val(k64(0)); return true; }
    unsigned bits = 0;
    while ((1ull << bits) < n) bits++;
    std::vector<Expr> lvl(t.begin(), t.end());
    for (unsigned b = 0; b < bits; b++) {
      Expr bit = mkExtract(idx, b, 1);
      std::vector<Expr> nx;
      for (size_t i = 0; i < lvl.size(); i += 2) nx.push_back(i + 1 < lvl.size() ? mkIte(bit, lvl[i + 1], lvl[i]) : lvl[i]);
      lvl.swap(nx);
    }
    r = Val(mkZExt(lvl[0], 64));
    return true;
  });
  reg({"vp_norm"}, [](CallBase*, std::vector<Val>& a, Val& r) {
    r = Val(normTerm(a[0].e));
    return true;
  });
  reg({"vp_prot"}, [this](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t p = concretize(a[0].e, "vp_prot");
    Obj* o = findObj(*st, p);
    if (!o || o->freed) r = Val(k32((uint32_t)-1));
    else r = Val(k32(o->kind == K_SODIUM ? o->prot : 3));
    return true;
  });
  reg({"vp_live"}, [this](CallBase*, std::vector<Val>&, Val& r) {
    uint64_t n = 0;
    for (auto& p : st->mem) {
      ObjKind k = p.second->kind;
      if (!p.second->freed && (k == K_MALLOC || k == K_NEW || k == K_NEWARR || k == K_SODIUM)) n++;
    }
    r = Val(k64(n));
    return true;
  });
  // number of live sodium buffers / of those not locked (prot != none)
  reg({"vp_sodium_live"}, [this](CallBase*, std::vector<Val>&, Val& r) {
    uint64_t n = 0;
    for (auto& p : st->mem) if (!p.second->freed && p.second->kind == K_SODIUM) n++;
    r = Val(k64(n));
    return true;
  });
  reg({"vp_sodium_unlocked"}, [this](CallBase*, std::vector<Val>&, Val& r) {
    uint64_t n = 0;
    for (auto& p : st->mem) if (!p.second->freed && p.second->kind == K_SODIUM && p.second->prot != PR_NONE) n++;
    r = Val(k64(n));
    return true;
  });
  reg({"vp_symbolic"}, [this](CallBase*, std::vector<Val>&, Val& r) { r = Val(k32(cfg.concrete ? 0 : 1)); return true; });
  reg({"vp_readable"}, [this](CallBase*, std::vector<Val>& a, Val& r) {
    // does [p,p+n) lie inside one live object?
    uint64_t p = concretize(a[0].e, "vp_readable"), n = concretize(a[1].e, "vp_readable");
    Obj* o = findObj(*st, p);
    r = Val(k32(o && !o->freed && p + n <= o->base + o->size ? 1 : 0));
    return true;
  });
  reg({"vp_rnd_count"}, [this](CallBase*, std::vector<Val>&, Val& r) {
    uint64_t n = 0;
    for (auto& i : st->inputs) if (i.name == "rnd") n += i.bytes.size();
    r = Val(k64(n));
    return true;
  });
  reg({"vp_rnd_copy"}, [this](CallBase*, std::vector<Val>& a, Val&) {
    uint64_t off = concretize(a[1].e, "vp_rnd_copy"), n = concretize(a[2].e, "vp_rnd_copy");
    Bytes all;
    for (auto& i : st->inputs) if (i.name == "rnd") all.insert(all.end(), i.bytes.begin(), i.bytes.end());
    Bytes b;
    for (uint64_t i = 0; i < n; i++) b.push_back(off + i < all.size() ? all[off + i] : byteK(0));
    if (n) storeBytes(a[0].e, b);
    return true;
  });
  // generators that are not the cryptographic one: arbitrary values
  for (const char* n : {"rand", "random", "lrand48", "mrand48", "time", "clock", "getpid", "gettid", "getuid", "rand_r"})
    reg({n}, [this](CallBase* cb, std::vector<Val>&, Val& r) {
      uint32_t w = cb->getType()->getIntegerBitWidth();
      r = Val(bytesExpr(inputBytes("weak", w / 8)));
      return true;
    });
  reg({"srand", "srandom", "srand48"}, [](CallBase*, std::vector<Val>&, Val&) { return true; });
  reg({"vp_print"}, [this](CallBase*, std::vector<Val>& a, Val&) {
    if (cfg.verbose) fprintf(stderr, "PRINT %s = %s\n", cstr(a[0].e).c_str(), toStr(a[1].e, 8).c_str());
    return true;
  });
}

bool Engine::intrinsic(CallBase* cb, Function* F, std::vector<Val>& a, Val& r) {
  auto perElt = [&](std::function<Expr(Expr, Expr)> f) -> Expr {
    Type* t = cb->getType();
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
      uint32_t ew = bitWidth(vt->getElementType());
      std::vector<Expr> p;
      for (int i = (int)vt->getNumElements() - 1; i >= 0; --i)
        p.push_back(f(mkExtract(a[0].e, i * ew, ew), a.size() > 1 ? mkExtract(a[1].e, i * ew, ew) : nullptr));
      return mkConcat(p);
    }
    return f(a[0].e, a.size() > 1 ? a[1].e : nullptr);
  };
  switch (F->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
    case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::prefetch:
    case Intrinsic::vaend: case Intrinsic::vastart:
      return true;
    case Intrinsic::stacksave: r = Val(k64(0)); return true;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect_with_probability:
      r = a[0]; return true;
    case Intrinsic::is_constant: r = Val(mkFalse()); return true;
    case Intrinsic::objectsize: r = Val(mkConst(~(u128)0, cb->getType()->getIntegerBitWidth())); return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: violateStop("trap", "trap reached");
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      uint64_t n = concretize(a[2].e, "memcpy");
      if (n) { Bytes b = loadBytes(a[1].e, n, true); storeBytes(a[0].e, b); }
      return true;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      uint64_t n = concretize(a[2].e, "memset");
      if (n) storeBytes(a[0].e, Bytes(n, a[1].e));
      return true;
    }
    case Intrinsic::eh_typeid_for: {
      r = Val(k32(typeId(cb->getArgOperand(0)->stripPointerCasts())));
      return true;
    }
    case Intrinsic::umul_with_overflow: {
      uint32_t w = a[0].e->width;
      if (2 * w > 128) return false;
      Expr p = mkMul(mkZExt(a[0].e, 2 * w), mkZExt(a[1].e, 2 * w));
      r = mkAgg({Val(mkExtract(p, 0, w)), Val(mkNot(mkEq(mkExtract(p, w, w), mkConst(0, w))))});
      return true;
    }
    case Intrinsic::uadd_with_overflow: {
      Expr s = mkAdd(a[0].e, a[1].e);
      r = mkAgg({Val(s), Val(mkUlt(s, a[0].e))});
      return true;
    }
    case Intrinsic::usub_with_overflow: {
      r = mkAgg({Val(mkSub(a[0].e, a[1].e)), Val(mkUlt(a[0].e, a[1].e))});
      return true;
    }
    case Intrinsic::umin: r = Val(perElt([](Expr x, Expr y) { return mkIte(mkUlt(x, y), x, y); })); return true;
    case Intrinsic::umax: r = Val(perElt([](Expr x, Expr y) { return mkIte(mkUlt(x, y), y, x); })); return true;
    case Intrinsic::smin: r = Val(perElt([](Expr x, Expr y) { return mkIte(mkSlt(x, y), x, y); })); return true;
    case Intrinsic::smax: r = Val(perElt([](Expr x, Expr y) { return mkIte(mkSlt(x, y), y, x); })); return true;
    case Intrinsic::usub_sat: r = Val(perElt([](Expr x, Expr y) { return mkIte(mkUlt(x, y), mkConst(0, x->width), mkSub(x, y)); })); return true;
    case Intrinsic::uadd_sat: r = Val(perElt([](Expr x, Expr y) { Expr s = mkAdd(x, y); return mkIte(mkUlt(s, x), mkConst(~(u128)0, x->width), s); })); return true;
    case Intrinsic::abs: r = Val(mkIte(mkSlt(a[0].e, mkConst(0, a[0].e->width)), mkSub(mkConst(0, a[0].e->width), a[0].e), a[0].e)); return true;
    case Intrinsic::bswap: {
      Bytes b = exprBytes(a[0].e);
      r = Val(mkConcat(b));
      return true;
    }
    case Intrinsic::ctpop: {
      uint32_t w = a[0].e->width;
      Expr s = mkConst(0, w);
      for (uint32_t i = 0; i < w; i++) s = mkAdd(s, mkZExt(mkExtract(a[0].e, i, 1), w));
      r = Val(s);
      return true;
    }
    case Intrinsic::ctlz: case Intrinsic::cttz: {
      uint32_t w = a[0].e->width;
      Expr s = mkConst(w, w);
      bool lz = F->getIntrinsicID() == Intrinsic::ctlz;
      for (uint32_t i = 0; i < w; i++) {
        uint32_t bit = lz ? i : w - 1 - i;
        s = mkIte(mkExtract(a[0].e, bit, 1), mkConst(lz ? w - 1 - bit : bit, w), s);
      }
      r = Val(s);
      return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      uint32_t w = a[0].e->width;
      if (!a[2].e->isConst()) return false;
      uint32_t k = (uint32_t)(a[2].e->cval % w);
      Expr cat = mkConcat({a[0].e, a[1].e});
      r = Val(F->getIntrinsicID() == Intrinsic::fshl ? mkExtract(cat, w - k, w) : mkExtract(cat, k, w));
      return true;
    }
    case Intrinsic::x86_aesni_aesenc: case Intrinsic::x86_aesni_aesenclast: {
      bool last = F->getIntrinsicID() == Intrinsic::x86_aesni_aesenclast;
      Bytes x = exprBytes(a[0].e), k = exprBytes(a[1].e);
      Bytes y = appBytes(last ? "aesrlast" : "aesr", x, 16);
      for (int i = 0; i < 16; i++) y[i] = mkXor(y[i], k[i]);
      r = Val(bytesExpr(y));
      return true;
    }
    case Intrinsic::x86_ssse3_pshuf_b_128: {
      Bytes x = exprBytes(a[0].e), m = exprBytes(a[1].e), y;
      for (int i = 0; i < 16; i++) {
        if (m[i]->isConst()) y.push_back(m[i]->cval & 0x80 ? byteK(0) : x[m[i]->cval & 15]);
        else {
          Expr e = byteK(0);
          for (int j = 0; j < 16; j++) e = mkIte(mkEq(mkExtract(m[i], 0, 4), mkConst(j, 4)), x[j], e);
          y.push_back(mkIte(mkExtract(m[i], 7, 1), byteK(0), e));
        }
      }
      r = Val(bytesExpr(y));
      return true;
    }
    case Intrinsic::x86_sse2_pslli_d: case Intrinsic::x86_sse2_psrli_d: case Intrinsic::x86_sse2_psrai_d:
    case Intrinsic::x86_sse2_pslli_q: case Intrinsic::x86_sse2_psrli_q:
    case Intrinsic::x86_sse2_pslli_w: case Intrinsic::x86_sse2_psrli_w: case Intrinsic::x86_sse2_psrai_w: {
      auto id = F->getIntrinsicID();
      uint32_t ew = bitWidth(cast<FixedVectorType>(cb->getType())->getElementType());
      uint64_t k = concretize(a[1].e, "vector shift");
      std::vector<Expr> p;
      for (int i = 128 / ew - 1; i >= 0; --i) {
        Expr x = mkExtract(a[0].e, i * ew, ew), c = mkConst(k >= ew ? ew : k, ew);
        bool ar = id == Intrinsic::x86_sse2_psrai_d || id == Intrinsic::x86_sse2_psrai_w;
        bool left = id == Intrinsic::x86_sse2_pslli_d || id == Intrinsic::x86_sse2_pslli_q || id == Intrinsic::x86_sse2_pslli_w;
        if (ar) p.push_back(mkAShr(x, mkConst(k >= ew ? ew - 1 : k, ew)));
        else if (k >= ew) p.push_back(mkConst(0, ew));
        else p.push_back(left ? mkShl(x, c) : mkLShr(x, c));
      }
      r = Val(mkConcat(p));
      return true;
    }
    case Intrinsic::x86_sse41_ptestz: case Intrinsic::x86_sse41_ptestc: case Intrinsic::x86_sse41_ptestnzc: {
      Expr z = mkConst(0, a[0].e->width);
      Expr ones = mkConst(~(u128)0, a[0].e->width);
      Expr zf = mkEq(mkAnd(a[0].e, a[1].e), z), cf = mkEq(mkAnd(mkXor(a[0].e, ones), a[1].e), z);
      Expr v = F->getIntrinsicID() == Intrinsic::x86_sse41_ptestz ? zf : F->getIntrinsicID() == Intrinsic::x86_sse41_ptestc ? cf : mkAnd(mkNot(zf), mkNot(cf));
      r = Val(mkZExt(v, 32));
      return true;
    }
    case Intrinsic::x86_sse2_pmovmskb_128: {
      std::vector<Expr> p;
      for (int i = 15; i >= 0; --i) p.push_back(mkExtract(a[0].e, i * 8 + 7, 1));
      r = Val(mkZExt(mkConcat(p), 32));
      return true;
    }
    default: return false;
  }
}

// A small interpreter for the straight-line x86-64 assembly of the big-number multiply-accumulate kernel.
bool Engine::inlineAsm(CallBase* cb, std::vector<Val>& a, Val& r) {
  auto* ia = cast<InlineAsm>(cb->getCalledOperand());
  std::string text = ia->getAsmString(), cons = ia->getConstraintString();
  if (text.find_first_not_of(" \t\n") == std::string::npos) {   // compiler barrier
    r = cb->getType()->isVoidTy() ? Val() : zeroOf(cb->getType());
    if (!cb->getType()->isVoidTy()) {
      // outputs tied to inputs of a barrier keep their value
      if (cb->getType()->isStructTy()) return false;
      if (!a.empty()) r = a[0];
    }
    return true;
  }
  std::map<std::string, Expr> R;
  auto canon = [](std::string s) {
    static const std::map<std::string, std::string> m = {{"cx", "rcx"}, {"di", "rdi"}, {"si", "rsi"}, {"bx", "rbx"}, {"ax", "rax"}, {"dx", "rdx"}};
    auto it = m.find(s);
    return it == m.end() ? s : it->second;
  };
  std::vector<std::string> outs;
  std::stringstream cs(cons);
  std::string c;
  size_t ai = 0;
  while (std::getline(cs, c, ',')) {
    if (c.size() > 1 && c[0] == '~') continue;
    if (c[0] == '=') {
      auto p = c.find('{');
      if (p == std::string::npos) return false;
      outs.push_back(canon(c.substr(p + 1, c.find('}') - p - 1)));
    } else if (isdigit((unsigned char)c[0])) {
      if (ai >= a.size()) return false;
      R[outs[atoi(c.c_str())]] = a[ai++].e;
    } else if (c[0] == '{') {
      if (ai >= a.size()) return false;
      R[canon(c.substr(1, c.find('}') - 1))] = a[ai++].e;
    } else return false;
  }
  for (auto& p : R) if (p.second->width < 64) p.second = mkZExt(p.second, 64);
  Expr CF = mkFalse();
  std::string t2;
  for (size_t i = 0; i < text.size(); i++) {
    if (text[i] == '$' && i + 1 < text.size() && text[i + 1] == '$') { t2 += '$'; i++; }
    else if (text[i] == ';') t2 += '\n';
    else t2 += text[i];
  }
  std::stringstream ls(t2);
  std::string line;
  auto trim = [](std::string s) {
    size_t b = s.find_first_not_of(" \t\r\n"), e = s.find_last_not_of(" \t\r\n");
    return b == std::string::npos ? std::string() : s.substr(b, e - b + 1);
  };
  auto get = [&](const std::string& o) -> Expr {
    if (o[0] == '$') return k64(strtoull(o.c_str() + 1, nullptr, 0));
    if (o[0] == '%') { auto it = R.find(o.substr(1)); return it == R.end() ? k64(0) : it->second; }
    if (o[0] == '(') { std::string rn = o.substr(2, o.size() - 3); return bytesExpr(loadBytes(R[rn], 8)); }
    throw Fatal{"asm operand " + o};
  };
  auto put = [&](const std::string& o, Expr v) {
    if (o[0] == '%') R[o.substr(1)] = v;
    else if (o[0] == '(') storeBytes(R[o.substr(2, o.size() - 3)], exprBytes(v));
    else throw Fatal{"asm destination " + o};
  };
  while (std::getline(ls, line)) {
    line = trim(line);
    if (line.empty()) continue;
    size_t sp = line.find_first_of(" \t");
    std::string op = line.substr(0, sp), rest = sp == std::string::npos ? "" : trim(line.substr(sp));
    std::string s, d;
    size_t cm = rest.find(',');
    if (cm != std::string::npos) { s = trim(rest.substr(0, cm)); d = trim(rest.substr(cm + 1)); }
    else s = rest;
    if (op == "nop") continue;
    if (op == "xorq" || op == "xor") { put(d, mkXor(get(s), get(d))); CF = mkFalse(); }
    else if (op == "movq" || op == "mov") put(d, get(s));
    else if (op == "addq" || op == "add") { Expr x = get(d), y = get(s), z = mkAdd(x, y); CF = mkUlt(z, x); put(d, z); }
    else if (op == "adcq" || op == "adc") {
      Expr z = mkAdd(mkAdd(mkZExt(get(d), 65), mkZExt(get(s), 65)), mkZExt(CF, 65));
      CF = mkExtract(z, 64, 1);
      put(d, mkExtract(z, 0, 64));
    } else if (op == "mulq" || op == "mul") {
      Expr p = mkMul(mkZExt(get("%rax"), 128), mkZExt(get(s), 128));
      R["rax"] = mkExtract(p, 0, 64);
      R["rdx"] = mkExtract(p, 64, 64);
    } else throw Fatal{"asm instruction " + op};
  }
  if (outs.size() == 1 && !cb->getType()->isStructTy()) { r = Val(R[outs[0]]); return true; }
  if (outs.empty()) return true;
  std::vector<Val> v;
  for (auto& o : outs) v.push_back(Val(R[o]));
  auto* stt = cast<StructType>(cb->getType());
  for (size_t i = 0; i < v.size(); i++) {
    uint32_t w = bitWidth(stt->getElementType(i));
    if (v[i].e->width > w) v[i] = Val(mkExtract(v[i].e, 0, w));
  }
  r = mkAgg(v);
  return true;
}
}  // namespace vp
