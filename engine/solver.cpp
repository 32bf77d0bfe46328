#include "solver.hpp"
#include <cstring>
#include <fstream>
#include <unistd.h>

namespace vp {
static i128 sgn(u128 v, uint32_t w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  if (v & s) return (i128)(v | ~maskOf(w));
  return (i128)v;
}
std::string Model::evalApp(Expr e) {
  auto it = appMemo.find(e);
  if (it != appMemo.end()) return it->second;
  std::string args;
  for (Expr k : e->kids) args.push_back((char)(uint8_t)eval(k));
  std::string r;
  if (real) {
    if (!(*real)(P.fns[e->aux].name, args, r)) { realFail = true; r.clear(); }
    r.resize((e->width + 7) / 8, 0);
    appMemo[e] = r;
    return r;
  }
  auto f = fn.find(e->aux);
  bool found = false;
  if (f != fn.end()) {
    auto j = f->second.find(args);
    if (j != f->second.end()) { r = j->second; found = true; }
  }
  if (!found) {
    auto el = fnElse.find(e->aux);
    r = el != fnElse.end() ? el->second : std::string((e->width + 7) / 8, 0);
  }
  appMemo[e] = r;
  return r;
}
u128 Model::eval(Expr root) {
  if (root->isConst()) return root->cval;
  auto it0 = memo.find(root);
  if (it0 != memo.end()) return it0->second;
  std::vector<Expr> st{root};
  while (!st.empty()) {
    Expr e = st.back();
    if (memo.count(e)) { st.pop_back(); continue; }
    u128 r = 0;
    uint32_t w = e->width;
    if (e->op == O_CONST) { memo[e] = e->cval; st.pop_back(); continue; }
    if (e->op == O_SYM) {
      auto it = sym.find(e->aux);
      memo[e] = it == sym.end() ? 0 : it->second & maskOf(w);
      st.pop_back();
      continue;
    }
    // children first
    bool ready = true;
    const std::vector<Expr>* deps = &e->kids;
    if (e->op == O_EXTRACT && e->kids[0]->op == O_APP) deps = &e->kids[0]->kids;
    if (e->op == O_ITE) {
      Expr c = e->kids[0];
      if (!c->isConst() && !memo.count(c)) { st.push_back(c); continue; }
      u128 cv = c->isConst() ? c->cval : memo[c];
      Expr k = cv ? e->kids[1] : e->kids[2];
      if (!k->isConst() && !memo.count(k)) { st.push_back(k); continue; }
      memo[e] = k->isConst() ? k->cval : memo[k];
      st.pop_back();
      continue;
    }
    for (Expr k : *deps)
      if (!k->isConst() && !memo.count(k)) { st.push_back(k); ready = false; }
    if (!ready) continue;
    auto V = [&](int i) -> u128 { Expr k = e->kids[i]; return k->isConst() ? k->cval : memo[k]; };
    switch (e->op) {
      case O_APP: {
        std::string s = evalApp(e);
        for (int i = (int)std::min<size_t>(s.size(), 16) - 1; i >= 0; --i) r = (r << 8) | (uint8_t)s[i];
        break;
      }
      case O_EXTRACT:
        if (e->kids[0]->op == O_APP) {
          std::string s = evalApp(e->kids[0]);
          for (int i = (int)w - 1; i >= 0; --i) {
            uint32_t b = e->aux + i;
            r = (r << 1) | (((uint8_t)s[b / 8] >> (b % 8)) & 1);
          }
        } else if (e->kids[0]->width > 128) { fprintf(stderr, "wide extract eval\n"); abort(); }
        else r = V(0) >> e->aux;
        break;
      case O_ADD: r = V(0) + V(1); break;
      case O_MUL: r = V(0) * V(1); break;
      case O_UDIV: r = V(1) ? V(0) / V(1) : ~(u128)0; break;
      case O_UREM: r = V(1) ? V(0) % V(1) : V(0); break;
      case O_SDIV: {
        i128 a = sgn(V(0), w), b = sgn(V(1), w);
        r = b == 0 ? (a < 0 ? (u128)1 : ~(u128)0) : b == -1 ? (u128)-a : (u128)(a / b);
        break;
      }
      case O_SREM: {
        i128 a = sgn(V(0), w), b = sgn(V(1), w);
        r = b == 0 ? (u128)a : b == -1 ? 0 : (u128)(a % b);
        break;
      }
      case O_AND: r = V(0) & V(1); break;
      case O_OR: r = V(0) | V(1); break;
      case O_XOR: for (size_t i = 0; i < e->kids.size(); i++) r ^= V(i); break;
      case O_NOT: r = ~V(0); break;
      case O_SHL: r = V(1) >= w ? 0 : V(0) << (int)V(1); break;
      case O_LSHR: r = V(1) >= w ? 0 : V(0) >> (int)V(1); break;
      case O_ASHR: r = (u128)(sgn(V(0), w) >> (int)(V(1) >= w ? w - 1 : V(1))); break;
      case O_CONCAT: for (size_t i = 0; i < e->kids.size(); i++) r = (r << e->kids[i]->width) | V(i); break;
      case O_SEXT: r = (u128)sgn(V(0), e->kids[0]->width); break;
      case O_EQ: r = V(0) == V(1); break;
      case O_ULT: r = V(0) < V(1); break;
      case O_ULE: r = V(0) <= V(1); break;
      case O_SLT: { uint32_t kw = e->kids[0]->width; r = sgn(V(0), kw) < sgn(V(1), kw); break; }
      case O_SLE: { uint32_t kw = e->kids[0]->width; r = sgn(V(0), kw) <= sgn(V(1), kw); break; }
      default: abort();
    }
    memo[e] = r & maskOf(w);
    st.pop_back();
  }
  return memo[root];
}

Solver::Solver() : inc(ctx) {}
unsigned Solver::left(unsigned ms) {
  if (deadline == std::chrono::steady_clock::time_point::max()) return ms;
  auto l = std::chrono::duration_cast<std::chrono::milliseconds>(deadline - std::chrono::steady_clock::now()).count();
  return (unsigned)std::max<long long>(500, std::min<long long>(ms, l));
}

static z3::expr bvc(z3::context& c, u128 v, uint32_t w) {
  if (w <= 64) return c.bv_val((uint64_t)v, w);
  return z3::concat(c.bv_val((uint64_t)(v >> 64), w - 64), c.bv_val((uint64_t)v, 64));
}
z3::expr Solver::tr(Expr root) {
  std::vector<Expr> st{root};
  while (!st.empty()) {
    Expr e = st.back();
    if (memo.count(e->id)) { st.pop_back(); continue; }
    bool ready = true;
    for (Expr k : e->kids) if (!memo.count(k->id)) { st.push_back(k); ready = false; }
    if (!ready) continue;
    auto K = [&](int i) -> z3::expr { return memo.at(e->kids[i]->id); };
    auto B = [&](z3::expr b) { return z3::ite(b, ctx.bv_val(1, 1), ctx.bv_val(0, 1)); };
    z3::expr r(ctx);
    switch (e->op) {
      case O_CONST: r = bvc(ctx, e->cval, e->width); break;
      case O_SYM: r = ctx.bv_const(("s" + std::to_string(e->aux)).c_str(), e->width); break;
      case O_APP: {
        std::string nm = "f" + std::to_string(e->aux);
        if (e->kids.empty()) { r = ctx.bv_const(nm.c_str(), e->width); break; }
        auto it = fdecls.find(e->aux);
        if (it == fdecls.end()) {
          z3::sort d = ctx.bv_sort(8 * e->kids.size()), rr = ctx.bv_sort(e->width);
          it = fdecls.emplace(e->aux, ctx.function(nm.c_str(), d, rr)).first;
        }
        z3::expr_vector v(ctx);
        for (size_t i = 0; i < e->kids.size(); i++) v.push_back(K(i));
        z3::expr a = e->kids.size() == 1 ? K(0) : z3::concat(v);
        r = it->second(a);
        break;
      }
      case O_ADD: r = K(0) + K(1); break;
      case O_MUL: r = K(0) * K(1); break;
      case O_UDIV: r = z3::udiv(K(0), K(1)); break;
      case O_SDIV: r = K(0) / K(1); break;
      case O_UREM: r = z3::urem(K(0), K(1)); break;
      case O_SREM: r = z3::srem(K(0), K(1)); break;
      case O_AND: r = K(0) & K(1); break;
      case O_OR: r = K(0) | K(1); break;
      case O_XOR: r = K(0); for (size_t i = 1; i < e->kids.size(); i++) r = r ^ K(i); break;
      case O_NOT: r = ~K(0); break;
      case O_SHL: r = z3::shl(K(0), K(1)); break;
      case O_LSHR: r = z3::lshr(K(0), K(1)); break;
      case O_ASHR: r = z3::ashr(K(0), K(1)); break;
      case O_CONCAT: {
        z3::expr_vector v(ctx);
        for (size_t i = 0; i < e->kids.size(); i++) v.push_back(K(i));
        r = z3::concat(v);
        break;
      }
      case O_EXTRACT: r = K(0).extract(e->aux + e->width - 1, e->aux); break;
      case O_SEXT: r = z3::sext(K(0), e->width - e->kids[0]->width); break;
      case O_EQ: r = B(K(0) == K(1)); break;
      case O_ULT: r = B(z3::ult(K(0), K(1))); break;
      case O_ULE: r = B(z3::ule(K(0), K(1))); break;
      case O_SLT: r = B(K(0) < K(1)); break;
      case O_SLE: r = B(K(0) <= K(1)); break;
      case O_ITE: r = z3::ite(K(0) == ctx.bv_val(1, 1), K(1), K(2)); break;
    }
    memo.emplace(e->id, r);
    st.pop_back();
  }
  return memo.at(root->id);
}

static std::string numBytes(z3::context& c, z3::expr v, uint32_t w) {
  std::string s = Z3_get_numeral_binary_string(c, v);
  std::string out((w + 7) / 8, 0);
  for (size_t i = 0; i < s.size(); i++)
    if (s[s.size() - 1 - i] == '1') out[i / 8] |= (char)(1 << (i % 8));
  return out;
}
ModelP Solver::extractModel(z3::model m, const std::vector<Expr>&, Expr) {
  auto mp = std::make_shared<Model>();
  for (unsigned i = 0; i < m.num_consts(); i++) {
    z3::func_decl d = m.get_const_decl(i);
    std::string n = d.name().str();
    z3::expr v = m.get_const_interp(d);
    if (n[0] == 's') {
      std::string b = numBytes(ctx, v, d.range().bv_size());
      u128 x = 0;
      for (int j = (int)b.size() - 1; j >= 0; --j) x = (x << 8) | (uint8_t)b[j];
      mp->sym[std::stoul(n.substr(1))] = x;
    } else if (n[0] == 'f') {
      mp->fnElse[std::stoul(n.substr(1))] = numBytes(ctx, v, d.range().bv_size());
    }
  }
  for (unsigned i = 0; i < m.num_funcs(); i++) {
    z3::func_decl d = m.get_func_decl(i);
    std::string n = d.name().str();
    if (n[0] != 'f') continue;
    uint32_t fi = std::stoul(n.substr(1));
    z3::func_interp f = m.get_func_interp(d);
    uint32_t rw = d.range().bv_size();
    uint32_t nb = P.fns[fi].nargBytes;
    z3::expr el = f.else_value();
    if (el.is_numeral()) mp->fnElse[fi] = numBytes(ctx, el, rw);
    for (unsigned j = 0; j < f.num_entries(); j++) {
      z3::func_entry en = f.entry(j);
      std::string a = numBytes(ctx, en.arg(0), nb * 8);
      std::reverse(a.begin(), a.end());  // args were concatenated first byte = MSB
      mp->fn[fi][a] = numBytes(ctx, en.value(), rw);
    }
  }
  return mp;
}

static bool externalCheck(Solver& S, z3::solver& s, Res& out, unsigned secs) {
  // cvc5 as a second opinion when z3 gives up; only a verdict is taken (unsat)
  char fn[256];
  snprintf(fn, sizeof fn, "%s/q%d_%llu.smt2", S.scratch.c_str(), getpid(), (unsigned long long)S.st.queries);
  { std::ofstream f(fn); f << "(set-logic QF_UFBV)\n" << s.to_smt2(); }
  std::string cmd = "timeout " + std::to_string(secs) + " cvc5 " + fn + " 2>/dev/null";
  FILE* p = popen(cmd.c_str(), "r");
  char buf[64] = {0};
  bool ok = false;
  if (p) {
    if (fgets(buf, sizeof buf, p)) {
      if (!strncmp(buf, "unsat", 5)) { out = R_UNSAT; ok = true; }
    }
    pclose(p);
  }
  unlink(fn);
  return ok;
}

Res Solver::check(const std::vector<Expr>& pc, Expr extra, ModelP* m) {
  if (extra && extra->isConst() && extra->cval == 0) return R_UNSAT;
  auto t0 = std::chrono::steady_clock::now();
  st.queries++;
  // incremental attempt
  size_t common = 0;
  while (common < stack.size() && common < pc.size() && stack[common] == pc[common]) common++;
  if (stack.size() > common) { inc.pop(stack.size() - common); stack.resize(common); }
  for (size_t i = common; i < pc.size(); i++) {
    inc.push();
    inc.add(tr(pc[i]) == ctx.bv_val(1, 1));
    stack.push_back(pc[i]);
  }
  z3::params p(ctx);
  p.set("timeout", left(tIncMs));
  inc.set(p);
  inc.push();
  if (extra) inc.add(tr(extra) == ctx.bv_val(1, 1));
  Res res = R_UNKNOWN;
  z3::check_result r = z3::unknown;
  try { r = inc.check(); } catch (z3::exception& e) { if (debug) fprintf(stderr, "z3: %s\n", e.msg()); }
  if (r == z3::sat) {
    res = R_SAT;
    if (m) *m = extractModel(inc.get_model(), pc, extra);
  } else if (r == z3::unsat) res = R_UNSAT;
  inc.pop();
  if (res == R_UNKNOWN) {
    st.fallback++;
    z3::solver s = z3::tactic(ctx, "smt").mk_solver();
    try {
      s = (z3::tactic(ctx, "simplify") & z3::tactic(ctx, "propagate-values") & z3::tactic(ctx, "solve-eqs") &
           z3::tactic(ctx, "simplify") & z3::tactic(ctx, "ackermannize_bv") & z3::tactic(ctx, "simplify") &
           z3::tactic(ctx, qfbv ? "qfbv" : "smt"))
              .mk_solver();
    } catch (z3::exception&) {}
    z3::params p2(ctx);
    p2.set("timeout", left(tFullMs));
    s.set(p2);
    for (Expr c : pc) s.add(tr(c) == ctx.bv_val(1, 1));
    if (extra) s.add(tr(extra) == ctx.bv_val(1, 1));
    if (!dumpDir.empty()) {
      std::ofstream f(dumpDir + "/q" + std::to_string(st.queries) + ".smt2");
      f << s.to_smt2();
    }
    try { r = s.check(); } catch (z3::exception& e) { if (debug) fprintf(stderr, "z3: %s\n", e.msg()); r = z3::unknown; }
    if (r == z3::sat) {
      res = R_SAT;
      if (m) *m = extractModel(s.get_model(), pc, extra);
    } else if (r == z3::unsat) res = R_UNSAT;
    else if (left(tFullMs) > 3000) externalCheck(*this, s, res, left(tFullMs) / 1000);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  st.secs += dt;
  st.maxq = std::max(st.maxq, dt);
  if (res == R_SAT) st.sat++;
  else if (res == R_UNSAT) st.unsat++;
  else st.unknown++;
  if (debug || dt > 5) fprintf(stderr, "[query %llu] pc=%zu res=%d %.2fs\n", (unsigned long long)st.queries, pc.size(), res, dt);
  return res;
}
}  // namespace vp
