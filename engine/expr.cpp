#include "expr.hpp"
#include <functional>
#include <map>

namespace vp {
ExprPool P;

static i128 sgn(u128 v, uint32_t w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  if (v & s) return (i128)(v | ~maskOf(w));
  return (i128)v;
}
static Expr mk2(Op op, Expr a, Expr b, uint32_t w) { return P.intern(op, w, 0, 0, {a, b}); }

// distribute a binary operation over ITE-of-constants
template <class F>
static Expr distIte(Expr a, Expr b, F f) {
  if (a->op == O_ITE && a->iteleaves && b->isConst())
    return mkIte(a->kids[0], f(a->kids[1], b), f(a->kids[2], b));
  if (b->op == O_ITE && b->iteleaves && a->isConst())
    return mkIte(b->kids[0], f(a, b->kids[1]), f(a, b->kids[2]));
  if (a->op == O_ITE && b->op == O_ITE && a->iteleaves && b->iteleaves && a->kids[0] == b->kids[0])
    return mkIte(a->kids[0], f(a->kids[1], b->kids[1]), f(a->kids[2], b->kids[2]));
  return nullptr;
}

Expr mkNot(Expr a) {
  if (a->isConst()) return mkConst(~a->cval, a->width);
  if (a->op == O_NOT) return a->kids[0];
  if (a->width == 1) {
    if (a->op == O_ULT) return mkUle(a->kids[1], a->kids[0]);
    if (a->op == O_ULE) return mkUlt(a->kids[1], a->kids[0]);
    if (a->op == O_SLT) return mkSle(a->kids[1], a->kids[0]);
    if (a->op == O_SLE) return mkSlt(a->kids[1], a->kids[0]);
    return P.intern(O_NOT, 1, 0, 0, {a});
  }
  return mkXor(a, mkConst(~(u128)0, a->width));
}

// segments of a concat-like value (MSB first)
static void segs(Expr e, std::vector<Expr>& out) {
  if (e->op == O_CONCAT) {
    for (Expr k : e->kids) out.push_back(k);
  } else out.push_back(e);
}
static bool segmented(Expr e) { return e->op == O_CONCAT; }

// split both operands on common boundaries and apply f per segment
template <class F>
static Expr perSegment(Expr a, Expr b, F f) {
  std::vector<uint32_t> cuts;  // bit positions (from LSB)
  auto addCuts = [&](Expr e) {
    if (e->op == O_CONCAT) {
      uint32_t pos = e->width;
      for (Expr k : e->kids) { pos -= k->width; cuts.push_back(pos); }
    }
  };
  addCuts(a); addCuts(b);
  cuts.push_back(0);
  std::sort(cuts.begin(), cuts.end());
  cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  std::vector<Expr> parts;
  uint32_t hi = a->width;
  for (int i = (int)cuts.size() - 1; i >= 0; --i) {
    uint32_t lo = cuts[i];
    if (lo >= hi) continue;
    parts.push_back(f(mkExtract(a, lo, hi - lo), mkExtract(b, lo, hi - lo)));
    hi = lo;
  }
  return mkConcat(parts);
}
// runs of equal bits in a constant, returned as widths from MSB
static std::vector<std::pair<uint32_t, bool>> runs(u128 v, uint32_t w) {
  std::vector<std::pair<uint32_t, bool>> r;
  for (int i = (int)w - 1; i >= 0; --i) {
    bool b = (v >> i) & 1;
    if (r.empty() || r.back().second != b) r.push_back({1, b});
    else r.back().first++;
  }
  return r;
}

Expr mkAnd(Expr a, Expr b) {
  assert(a->width == b->width);
  if (a == b) return a;
  if (a->isConst() && b->isConst()) return mkConst(a->cval & b->cval, a->width);
  if (a->isConst()) std::swap(a, b);
  if (b->isConst()) {
    if (b->cval == 0) return b;
    if (b->cval == maskOf(b->width)) return a;
    if (Expr r = distIte(a, b, mkAnd)) return r;
    auto rs = runs(b->cval, b->width);
    if (rs.size() <= 9) {
      std::vector<Expr> parts;
      uint32_t hi = a->width;
      for (auto& r : rs) {
        hi -= r.first;
        parts.push_back(r.second ? mkExtract(a, hi, r.first) : mkConst(0, r.first));
      }
      return mkConcat(parts);
    }
  }
  if (a->width == 1) {
    if (mkNot(a) == b) return mkFalse();
    // flatten-lite: (x & y) & x
    if (a->op == O_AND && (a->kids[0] == b || a->kids[1] == b)) return a;
    if (b->op == O_AND && (b->kids[0] == a || b->kids[1] == a)) return b;
  } else if (segmented(a) || segmented(b)) {
    bool anyConst = false;
    for (Expr e : {a, b}) if (e->op == O_CONCAT) for (Expr k : e->kids) if (k->isConst()) anyConst = true;
    if (anyConst || (segmented(a) && segmented(b))) return perSegment(a, b, mkAnd);
  }
  if (Expr r = distIte(a, b, mkAnd)) return r;
  if (a->id > b->id) std::swap(a, b);
  return mk2(O_AND, a, b, a->width);
}
Expr mkOr(Expr a, Expr b) {
  assert(a->width == b->width);
  if (a == b) return a;
  if (a->isConst() && b->isConst()) return mkConst(a->cval | b->cval, a->width);
  if (a->isConst()) std::swap(a, b);
  if (b->isConst()) {
    if (b->cval == 0) return a;
    if (b->cval == maskOf(b->width)) return b;
    if (Expr r = distIte(a, b, mkOr)) return r;
    auto rs = runs(b->cval, b->width);
    if (rs.size() <= 9) {
      std::vector<Expr> parts;
      uint32_t hi = a->width;
      for (auto& r : rs) {
        hi -= r.first;
        parts.push_back(!r.second ? mkExtract(a, hi, r.first) : mkConst(~(u128)0, r.first));
      }
      return mkConcat(parts);
    }
  }
  if (a->width == 1) {
    if (mkNot(a) == b) return mkTrue();
    if (a->op == O_OR && (a->kids[0] == b || a->kids[1] == b)) return a;
    if (b->op == O_OR && (b->kids[0] == a || b->kids[1] == a)) return b;
  } else if (segmented(a) || segmented(b)) {
    bool anyConst = false;
    for (Expr e : {a, b}) if (e->op == O_CONCAT) for (Expr k : e->kids) if (k->isConst()) anyConst = true;
    if (anyConst || (segmented(a) && segmented(b))) return perSegment(a, b, mkOr);
  }
  if (Expr r = distIte(a, b, mkOr)) return r;
  if (a->id > b->id) std::swap(a, b);
  return mk2(O_OR, a, b, a->width);
}
// XOR is n-ary, kids sorted by id, constants merged into at most one (last)
Expr mkXor(Expr a, Expr b) {
  assert(a->width == b->width);
  uint32_t w = a->width;
  if (a == b) return mkConst(0, w);
  if (a->isConst() && b->isConst()) return mkConst(a->cval ^ b->cval, w);
  if (a->isConst() && a->cval == 0) return b;
  if (b->isConst() && b->cval == 0) return a;
  if (w == 1) {
    if (a->isConst()) return mkNot(b);
    if (b->isConst()) return mkNot(a);
  }
  if (Expr r = distIte(a, b, mkXor)) return r;
  if (segmented(a) || segmented(b)) return perSegment(a, b, mkXor);
  std::vector<Expr> ks;
  u128 c = 0;
  auto add = [&](Expr e) {
    if (e->isConst()) c ^= e->cval;
    else if (e->op == O_NOT) { c ^= 1; ks.push_back(e->kids[0]); }
    else ks.push_back(e);
  };
  for (Expr e : {a, b}) {
    if (e->op == O_XOR) for (Expr k : e->kids) add(k);
    else add(e);
  }
  std::sort(ks.begin(), ks.end(), [](Expr x, Expr y) { return x->id < y->id; });
  std::vector<Expr> out;
  for (size_t i = 0; i < ks.size();) {
    if (i + 1 < ks.size() && ks[i] == ks[i + 1]) i += 2;
    else out.push_back(ks[i++]);
  }
  if (out.empty()) return mkConst(c, w);
  if (w == 1) {
    Expr r = out.size() == 1 ? out[0] : P.intern(O_XOR, 1, 0, 0, out);
    return c ? mkNot(r) : r;
  }
  if (c) out.push_back(mkConst(c, w));
  if (out.size() == 1) return out[0];
  return P.intern(O_XOR, w, 0, 0, out);
}

static bool isZero(Expr e) { return e->isConst() && e->cval == 0; }

static uint32_t knownLZ(Expr e);
Expr mkAdd(Expr a, Expr b) {
  assert(a->width == b->width);
  uint32_t w = a->width;
  if (a->isConst() && b->isConst()) return mkConst(a->cval + b->cval, w);
  if (a->isConst()) std::swap(a, b);
  if (b->isConst()) {
    if (b->cval == 0) return a;
    if (a->op == O_ADD && a->kids.back()->isConst())
      return mkAdd(a->kids[0], mkConst(a->kids[1]->cval + b->cval, w));
  }
  if (w == 1) return mkXor(a, b);
  if (Expr r = distIte(a, b, mkAdd)) return r;
  // disjoint concats behave like OR
  if (segmented(a) && segmented(b)) {
    // check that per segment one side is zero
    std::vector<uint32_t> cuts;
    bool ok = true;
    perSegment(a, b, [&](Expr x, Expr y) { if (!isZero(x) && !isZero(y)) ok = false; return x; });
    if (ok) return mkOr(a, b);
  }
  if (segmented(a) && b->isConst()) {
    bool ok = true;
    perSegment(a, b, [&](Expr x, Expr y) { if (!isZero(x) && !isZero(y)) ok = false; return x; });
    if (ok) return mkOr(a, b);
  }
  // constant low parts on both sides: the carry is known
  {
    auto lowConst = [](Expr e, uint32_t& k) -> bool {
      if (e->isConst()) { k = e->width; return true; }
      if (e->op == O_CONCAT && e->kids.back()->isConst()) { k = e->kids.back()->width; return true; }
      return false;
    };
    uint32_t ka = 0, kb = 0;
    if (!a->isConst() && lowConst(a, ka) && lowConst(b, kb)) {
      uint32_t k = std::min(ka, kb);
      if (k < w && k < 127) {
        u128 lo = mkExtract(a, 0, k)->cval + mkExtract(b, 0, k)->cval;
        Expr hi = mkAdd(mkExtract(a, k, w - k), mkExtract(b, k, w - k));
        if ((lo >> k) & 1) hi = mkAdd(hi, mkConst(1, w - k));
        return mkConcat({hi, mkConst(lo, k)});
      }
    }
  }
  // (x + c) + y -> (x + y) + c
  if (a->op == O_ADD && a->kids[1]->isConst()) return mkAdd(mkAdd(a->kids[0], b), a->kids[1]);
  if (b->op == O_ADD && b->kids[1]->isConst()) return mkAdd(mkAdd(a, b->kids[0]), b->kids[1]);
  // x + (-1)*x
  auto neg = [&](Expr e) -> Expr {
    if (e->op == O_MUL && e->kids[1]->isConst() && e->kids[1]->cval == maskOf(w)) return e->kids[0];
    return nullptr;
  };
  if (neg(a) == b || neg(b) == a) return mkConst(0, w);
  if (neg(b) && a->op == O_ADD) {
    if (a->kids[0] == neg(b)) return a->kids[1];
    if (a->kids[1] == neg(b)) return a->kids[0];
  }
  if (neg(a) && b->op == O_ADD) {
    if (b->kids[0] == neg(a)) return b->kids[1];
    if (b->kids[1] == neg(a)) return b->kids[0];
  }
  // canonical linear form
  auto lin = [](Expr e) { return e->op == O_ADD || (e->op == O_MUL && e->kids[1]->isConst()); };
  if (lin(a) || lin(b) || a == b) {
    std::vector<std::pair<Expr, u128>> t;
    u128 c = 0;
    std::vector<std::pair<Expr, u128>> todo = {{a, 1}, {b, 1}};
    bool ok = true;
    while (!todo.empty() && ok) {
      auto p = todo.back();
      todo.pop_back();
      if (p.first->isConst()) c += p.first->cval * p.second;
      else if (p.first->op == O_ADD) for (Expr k : p.first->kids) todo.push_back({k, p.second});
      else if (p.first->op == O_MUL && p.first->kids[1]->isConst()) todo.push_back({p.first->kids[0], p.second * p.first->kids[1]->cval});
      else {
        bool f = false;
        for (auto& x : t) if (x.first == p.first) { x.second += p.second; f = true; }
        if (!f) t.push_back(p);
      }
      if (t.size() + todo.size() > 16) ok = false;
    }
    if (ok) {
      std::sort(t.begin(), t.end(), [](const std::pair<Expr, u128>& x, const std::pair<Expr, u128>& y) { return x.first->id < y.first->id; });
      Expr r = nullptr;
      for (auto& x : t) {
        u128 k = x.second & maskOf(w);
        if (!k) continue;
        Expr m = k == 1 ? x.first : mk2(O_MUL, x.first, mkConst(k, w), w);
        r = r ? mk2(O_ADD, r, m, w) : m;
      }
      c &= maskOf(w);
      if (!r) return mkConst(c, w);
      return c ? mk2(O_ADD, r, mkConst(c, w), w) : r;
    }
  }
  if (!b->isConst() && a->id > b->id) std::swap(a, b);
  return mk2(O_ADD, a, b, w);
}
Expr mkSub(Expr a, Expr b) {
  assert(a->width == b->width);
  if (a == b) return mkConst(0, a->width);
  if (b->isConst()) return mkAdd(a, mkConst(-b->cval, a->width));
  if (Expr r = distIte(a, b, mkSub)) return r;
  return mkAdd(a, mkMul(b, mkConst(~(u128)0, a->width)));
}
bool ufMul = false;
// With ufMul a product of two unknowns that cannot overflow is an uninterpreted value, only known to be commutative, zero for a zero
// operand and at most the largest product: weaker than the product, so what holds for it holds for the product.
static Expr ufProduct(Expr a, Expr b) {
  auto strip = [](Expr x) {
    if (x->op == O_CONCAT && x->kids[0]->isConst() && x->kids[0]->cval == 0) return mkExtract(x, 0, x->width - x->kids[0]->width);
    return x;
  };
  uint32_t w = a->width;
  a = strip(a);
  b = strip(b);
  uint32_t n = (std::max(a->width, b->width) + 7) / 8 * 8;
  if (2 * n > w || n > 64) return nullptr;
  a = mkZExt(a, n);
  b = mkZExt(b, n);
  if (a->id > b->id) std::swap(a, b);
  std::vector<Expr> args;
  for (uint32_t i = 0; i < n; i += 8) args.push_back(mkExtract(a, i, 8));
  for (uint32_t i = 0; i < n; i += 8) args.push_back(mkExtract(b, i, 8));
  Expr app = mkApp("umul" + std::to_string(n), args, 2 * n);
  u128 m = maskOf(n);
  Expr lim = mkConst(m * m, 2 * n), zero = mkConst(0, 2 * n);
  Expr r = mkIte(mkUlt(lim, app), lim, app);
  r = mkIte(mkOr(mkEq(a, mkConst(0, n)), mkEq(b, mkConst(0, n))), zero, r);
  return mkZExt(r, w);
}
Expr mkMul(Expr a, Expr b) {
  uint32_t w = a->width;
  if (a->isConst() && b->isConst()) return mkConst(a->cval * b->cval, w);
  if (ufMul && !a->isConst() && !b->isConst())
    if (Expr r = ufProduct(a, b)) return r;
  if (a->isConst()) std::swap(a, b);
  if (b->isConst()) {
    if (b->cval == 0) return b;
    if (b->cval == 1) return a;
    if ((b->cval & (b->cval - 1)) == 0) {
      uint32_t k = 0;
      while (!((b->cval >> k) & 1)) k++;
      return mkShl(a, mkConst(k, w));
    }
    if (Expr r = distIte(a, b, mkMul)) return r;
    if (a->op == O_ADD && a->kids[1]->isConst() )
      return mkAdd(mkMul(a->kids[0], b), mkMul(a->kids[1], b));
    if (a->op == O_CONCAT && a->kids.back()->isConst() && b->cval != maskOf(w)) {
      // (hi ++ lo) * c = ((hi * c) << k) + lo * c
      uint32_t k = a->kids.back()->width;
      if (k < w)
        return mkAdd(mkConcat({mkMul(mkExtract(a, k, w - k), mkConst(b->cval, w - k)), mkConst(0, k)}), mkConst(a->kids.back()->cval * b->cval, w));
    }
    if (b->cval == maskOf(w)) {
      if (a->op == O_MUL && a->kids[1]->isConst()) return mkMul(a->kids[0], mkConst(-a->kids[1]->cval, w));
      if (a->op == O_ADD) return mkAdd(mkMul(a->kids[0], b), mkMul(a->kids[1], b));
    }
    return mk2(O_MUL, a, b, w);
  }
  if (Expr r = distIte(a, b, mkMul)) return r;
  if (a->id > b->id) std::swap(a, b);
  return mk2(O_MUL, a, b, w);
}
static int log2of(Expr b) {
  if (!b->isConst() || b->cval == 0 || (b->cval & (b->cval - 1))) return -1;
  int k = 0;
  while (!((b->cval >> k) & 1)) k++;
  return k;
}
static uint32_t knownLZ0(Expr e);
// number of leading zero bits known
static uint32_t knownLZ(Expr e) {
  if (e->lz < 0) { uint32_t n = knownLZ0(e); e->lz = (int16_t)std::min(n, 30000u); }
  return e->lz;
}
static uint32_t knownLZ0(Expr e) {
  if (e->isConst()) {
    uint32_t n = 0;
    for (int i = (int)e->width - 1; i >= 0 && !((e->cval >> i) & 1); --i) n++;
    return n;
  }
  if (e->op == O_CONCAT) {
    Expr k = e->kids[0];
    uint32_t n = knownLZ(k);
    if (n == k->width && e->kids.size() > 1) {
      // following kids
      for (size_t i = 1; i < e->kids.size(); i++) {
        uint32_t m = knownLZ(e->kids[i]);
        n += m;
        if (m != e->kids[i]->width) break;
      }
    }
    return n;
  }
  if (e->op == O_ITE) return std::min(knownLZ(e->kids[1]), knownLZ(e->kids[2]));
  if (e->op == O_UREM && e->kids[1]->isConst() && e->kids[1]->cval) {
    return knownLZ(mkConst(e->kids[1]->cval - 1, e->width));
  }
  if (e->op == O_UDIV && e->kids[1]->isConst() && e->kids[1]->cval) {
    uint32_t n = knownLZ(e->kids[0]);
    u128 d = e->kids[1]->cval;
    while (d > 1) { n++; d >>= 1; }
    return std::min(n, e->width);
  }
  if (e->op == O_ADD) {
    uint32_t m = std::min(knownLZ(e->kids[0]), knownLZ(e->kids[1]));
    return m ? m - 1 : 0;
  }
  if (e->op == O_MUL && e->width <= 128) {
    uint32_t a = e->width - knownLZ(e->kids[0]), b = e->width - knownLZ(e->kids[1]);
    return a + b >= e->width ? 0 : e->width - a - b;
  }
  if (e->op == O_AND) return std::max(knownLZ(e->kids[0]), knownLZ(e->kids[1]));
  if (e->op == O_OR) return std::min(knownLZ(e->kids[0]), knownLZ(e->kids[1]));
  return 0;
}
// narrow an unsigned binary op when both operands have leading zeros
template <class F>
static Expr narrow(Expr a, Expr b, F f) {
  uint32_t lz = std::min(knownLZ(a), knownLZ(b));
  uint32_t w = a->width;
  if (lz == 0 || lz >= w) return nullptr;
  return f(mkExtract(a, 0, w - lz), mkExtract(b, 0, w - lz), w);
}
Expr mkUDiv(Expr a, Expr b) {
  uint32_t w = a->width;
  if (b->isConst() && b->cval != 0) {
    if (a->isConst()) return mkConst(a->cval / b->cval, w);
    int k = log2of(b);
    if (k >= 0) return mkLShr(a, mkConst(k, w));
  }
  if (a->isConst() && a->cval == 0 && b->isConst() && b->cval) return a;
  if (b->isConst() && b->cval == 0) return mkConst(~(u128)0, w);
  if (Expr r = distIte(a, b, mkUDiv)) return r;
  if (Expr r = narrow(a, b, [](Expr x, Expr y, uint32_t W) { return mkZExt(mkUDiv(x, y), W); }))
    if (b->isConst()) return r;
  return mk2(O_UDIV, a, b, w);
}
Expr mkURem(Expr a, Expr b) {
  uint32_t w = a->width;
  if (b->isConst() && b->cval != 0) {
    if (a->isConst()) return mkConst(a->cval % b->cval, w);
    int k = log2of(b);
    if (k == 0) return mkConst(0, w);
    if (k > 0) return mkZExt(mkExtract(a, 0, k), w);
  }
  if (b->isConst() && b->cval == 0) return a;
  if (Expr r = distIte(a, b, mkURem)) return r;
  if (b->isConst())
    if (Expr r = narrow(a, b, [](Expr x, Expr y, uint32_t W) { return mkZExt(mkURem(x, y), W); })) return r;
  return mk2(O_UREM, a, b, w);
}
Expr mkSDiv(Expr a, Expr b) {
  uint32_t w = a->width;
  if (a->isConst() && b->isConst() && b->cval != 0) {
    i128 x = sgn(a->cval, w), y = sgn(b->cval, w);
    if (y == -1) return mkConst((u128)(-x), w);
    return mkConst((u128)(x / y), w);
  }
  if (knownLZ(a) > 0 && knownLZ(b) > 0) return mkUDiv(a, b);
  if (Expr r = distIte(a, b, mkSDiv)) return r;
  return mk2(O_SDIV, a, b, w);
}
Expr mkSRem(Expr a, Expr b) {
  uint32_t w = a->width;
  if (a->isConst() && b->isConst() && b->cval != 0) {
    i128 x = sgn(a->cval, w), y = sgn(b->cval, w);
    if (y == -1) return mkConst(0, w);
    return mkConst((u128)(x % y), w);
  }
  if (knownLZ(a) > 0 && knownLZ(b) > 0) return mkURem(a, b);
  if (Expr r = distIte(a, b, mkSRem)) return r;
  return mk2(O_SREM, a, b, w);
}
Expr mkShl(Expr a, Expr b) {
  uint32_t w = a->width;
  if (b->isConst()) {
    if (b->cval == 0) return a;
    if (b->cval >= w) return mkConst(0, w);
    uint32_t k = (uint32_t)b->cval;
    if (a->isConst()) return mkConst(a->cval << k, w);
    return mkConcat({mkExtract(a, 0, w - k), mkConst(0, k)});
  }
  if (isZero(a)) return a;
  if (Expr r = distIte(a, b, mkShl)) return r;
  if (b->op == O_ITE && b->iteleaves) return mkIte(b->kids[0], mkShl(a, b->kids[1]), mkShl(a, b->kids[2]));
  return mk2(O_SHL, a, b, w);
}
Expr mkLShr(Expr a, Expr b) {
  uint32_t w = a->width;
  if (b->isConst()) {
    if (b->cval == 0) return a;
    if (b->cval >= w) return mkConst(0, w);
    uint32_t k = (uint32_t)b->cval;
    if (a->isConst()) return mkConst(a->cval >> k, w);
    return mkZExt(mkExtract(a, k, w - k), w);
  }
  if (isZero(a)) return a;
  if (Expr r = distIte(a, b, mkLShr)) return r;
  if (b->op == O_ITE && b->iteleaves) return mkIte(b->kids[0], mkLShr(a, b->kids[1]), mkLShr(a, b->kids[2]));
  return mk2(O_LSHR, a, b, w);
}
Expr mkAShr(Expr a, Expr b) {
  uint32_t w = a->width;
  if (b->isConst()) {
    if (b->cval == 0) return a;
    uint32_t k = b->cval >= w ? w - 1 : (uint32_t)b->cval;
    if (a->isConst()) return mkConst((u128)(sgn(a->cval, w) >> k), w);
    return mkSExt(mkExtract(a, k, w - k), w);
  }
  if (Expr r = distIte(a, b, mkAShr)) return r;
  return mk2(O_ASHR, a, b, w);
}
static Expr fuseXor(Expr p, Expr e) {
  std::vector<Expr> kp, ke;
  u128 cp = 0, ce = 0;
  auto parts = [](Expr x, std::vector<Expr>& k, u128& c) {
    if (x->op == O_NOT) { c ^= maskOf(x->width); x = x->kids[0]; }
    if (x->op == O_XOR) { for (Expr y : x->kids) { if (y->isConst()) c ^= y->cval; else k.push_back(y); } }
    else k.push_back(x);
  };
  parts(p, kp, cp);
  parts(e, ke, ce);
  if (kp.size() != ke.size()) return nullptr;
  std::vector<Expr> out;
  for (Expr x : kp) {
    if (x->op != O_EXTRACT) return nullptr;
    bool f = false;
    for (Expr& y : ke)
      if (y && y->op == O_EXTRACT && y->kids[0] == x->kids[0] && x->aux == y->aux + y->width) {
        out.push_back(mkExtract(x->kids[0], y->aux, x->width + y->width));
        y = nullptr;
        f = true;
        break;
      }
    if (!f) return nullptr;
  }
  Expr r = mkConst((cp << e->width) | ce, p->width + e->width);
  for (Expr x : out) r = mkXor(r, x);
  return r;
}
Expr mkConcat(const std::vector<Expr>& in) {
  std::vector<Expr> ks;
  uint32_t w = 0;
  for (Expr e : in) {
    w += e->width;
    if (e->op == O_CONCAT) for (Expr k : e->kids) ks.push_back(k);
    else ks.push_back(e);
  }
  // ITE with common condition
  bool changed = true;
  while (changed) {
    changed = false;
    std::vector<Expr> out;
    uint32_t top = w;   // bit position of the upper end of e
    for (Expr e : ks) {
      uint32_t etop = top;
      top -= e->width;
      if (!out.empty()) {
        Expr p = out.back();
        if (p->isConst() && e->isConst() && p->width + e->width <= 128) {
          out.back() = mkConst((p->cval << e->width) | e->cval, p->width + e->width);
          changed = true;
          continue;
        }
        if (p->op == O_EXTRACT && e->op == O_EXTRACT && p->kids[0] == e->kids[0] && p->aux == e->aux + e->width) {
          out.back() = mkExtract(p->kids[0], e->aux, p->width + e->width);
          changed = true;
          continue;
        }
        if (p->op == O_EXTRACT && p->kids[0] == e && p->aux == e->width) {}
        // xor merging: concat(xor(a1,b1), xor(a0,b0)) stays split at byte boundaries, is fused inside a byte
        if ((p->op == O_XOR || p->op == O_NOT) && (e->op == O_XOR || e->op == O_NOT) && top / 8 == (etop + p->width - 1) / 8) {
          if (Expr f = fuseXor(p, e)) {
            out.back() = f;
            changed = true;
            continue;
          }
        }
        if (p->op == O_ITE && e->op == O_ITE && p->kids[0] == e->kids[0] && p->width + e->width <= 128) {
          out.back() = mkIte(p->kids[0], mkConcat({p->kids[1], e->kids[1]}), mkConcat({p->kids[2], e->kids[2]}));
          changed = true;
          continue;
        }
        // sext pieces
        if (p->op == O_SEXT && 0) {}
      }
      out.push_back(e);
    }
    ks.swap(out);
    if (changed) {
      std::vector<Expr> fl;
      for (Expr e : ks) {
        if (e->op == O_CONCAT) for (Expr k : e->kids) fl.push_back(k);
        else fl.push_back(e);
      }
      ks.swap(fl);
      if (ks.size() == 1) break;
    }
  }
  if (ks.size() == 1) return ks[0];
  // zero-extension of an addition that cannot wrap
  if (ks.size() == 2 && w <= 128 && ks[0]->isConst() && ks[0]->cval == 0 && ks[1]->op == O_ADD && knownLZ(ks[1]->kids[0]) > 0 && knownLZ(ks[1]->kids[1]) > 0)
    return mkAdd(mkZExt(ks[1]->kids[0], w), mkZExt(ks[1]->kids[1], w));
  return P.intern(O_CONCAT, w, 0, 0, ks);
}
static std::unordered_map<uint64_t, std::vector<std::pair<uint32_t, Expr>>> extMemo;
static Expr mkExtract0(Expr a, uint32_t lo, uint32_t w);
Expr mkExtract(Expr a, uint32_t lo, uint32_t w) {
  if (lo == 0 && w == a->width) return a;
  if (a->op == O_CONST || a->op == O_EXTRACT || a->op == O_SYM || a->op == O_APP) return mkExtract0(a, lo, w);
  uint64_t k = ((uint64_t)a->id << 32) | lo;
  {
    auto it = extMemo.find(k);
    if (it != extMemo.end()) for (auto& pr : it->second) if (pr.first == w) return pr.second;
  }
  Expr r = mkExtract0(a, lo, w);
  extMemo[k].push_back({w, r});
  return r;
}
static Expr mkExtract0(Expr a, uint32_t lo, uint32_t w) {
  if (lo == 0 && w == a->width) return a;
  if (lo + w > a->width) { fprintf(stderr, "bad extract %u+%u of %u\n", lo, w, a->width); abort(); }
  switch (a->op) {
    case O_CONST: return mkConst(a->cval >> lo, w);
    case O_EXTRACT: return mkExtract(a->kids[0], a->aux + lo, w);
    case O_CONCAT: {
      std::vector<Expr> parts;
      uint32_t pos = a->width;
      for (Expr k : a->kids) {
        uint32_t klo = pos - k->width, khi = pos;  // [klo,khi)
        pos = klo;
        uint32_t l = std::max(lo, klo), h = std::min(lo + w, khi);
        if (l < h) parts.push_back(mkExtract(k, l - klo, h - l));
      }
      return mkConcat(parts);
    }
    case O_SEXT: {
      Expr x = a->kids[0];
      if (lo + w <= x->width) return mkExtract(x, lo, w);
      if (lo < x->width) return mkSExt(mkExtract(x, lo, x->width - lo), w);
      return mkSExt(mkExtract(x, x->width - 1, 1), w);
    }
    case O_XOR: {
      Expr r = nullptr;
      for (Expr k : a->kids) {
        Expr e = mkExtract(k, lo, w);
        r = r ? mkXor(r, e) : e;
      }
      return r;
    }
    case O_AND: return mkAnd(mkExtract(a->kids[0], lo, w), mkExtract(a->kids[1], lo, w));
    case O_OR: return mkOr(mkExtract(a->kids[0], lo, w), mkExtract(a->kids[1], lo, w));
    case O_ITE: return mkIte(a->kids[0], mkExtract(a->kids[1], lo, w), mkExtract(a->kids[2], lo, w));
    case O_ADD:
    case O_MUL:
      if (lo == 0 && w > 1) {
        Expr x = mkExtract(a->kids[0], 0, w), y = mkExtract(a->kids[1], 0, w);
        return a->op == O_ADD ? mkAdd(x, y) : mkMul(x, y);
      }
      if (lo + w < a->width) {
        Expr x = mkExtract(a->kids[0], 0, lo + w), y = mkExtract(a->kids[1], 0, lo + w);
        return mkExtract(a->op == O_ADD ? mkAdd(x, y) : mkMul(x, y), lo, w);
      }
      break;
    default: break;
  }
  return P.intern(O_EXTRACT, w, lo, 0, {a});
}
Expr mkZExt(Expr a, uint32_t w) {
  if (a->width == w) return a;
  if (w - a->width > 128) {
    std::vector<Expr> p;
    uint32_t n = w - a->width;
    while (n) { uint32_t k = std::min(n, 128u); p.push_back(mkConst(0, k)); n -= k; }
    p.push_back(a);
    return mkConcat(p);
  }
  return mkConcat({mkConst(0, w - a->width), a});
}
Expr mkSExt(Expr a, uint32_t w) {
  if (a->width == w) return a;
  if (a->isConst()) return mkConst((u128)sgn(a->cval, a->width), w);
  if (a->op == O_SEXT) return mkSExt(a->kids[0], w);
  if (knownLZ(a) > 0) return mkZExt(a, w);
  if (a->op == O_ITE && a->iteleaves) return mkIte(a->kids[0], mkSExt(a->kids[1], w), mkSExt(a->kids[2], w));
  if (a->width == 1) return mkIte(a, mkConst(~(u128)0, w), mkConst(0, w));
  return P.intern(O_SEXT, w, 0, 0, {a});
}
Expr mkEq(Expr a, Expr b) {
  assert(a->width == b->width);
  if (a == b) return mkTrue();
  if (a->isConst() && b->isConst()) return mkBool(a->cval == b->cval);
  if (a->isConst()) std::swap(a, b);
  uint32_t w = a->width;
  if (w == 1) {
    if (b->isConst()) return b->cval ? a : mkNot(a);
    return mkNot(mkXor(a, b));
  }
  if (Expr r = distIte(a, b, mkEq)) return r;
  if (b->isConst()) {
    if (a->op == O_ADD && a->kids[1]->isConst()) return mkEq(a->kids[0], mkConst(b->cval - a->kids[1]->cval, w));
    if (a->op == O_XOR && a->kids.back()->isConst()) {
      Expr c = a->kids.back();
      return mkEq(mkXor(a, c), mkConst(b->cval ^ c->cval, w));
    }
    if (a->op == O_CONCAT) {
      Expr r = mkTrue();
      uint32_t pos = w;
      // constants first: cheap refutation
      for (Expr k : a->kids) {
        pos -= k->width;
        if (k->isConst() && k->cval != ((b->cval >> pos) & maskOf(k->width))) return mkFalse();
      }
      pos = w;
      for (Expr k : a->kids) {
        pos -= k->width;
        r = mkAnd(r, mkEq(k, mkConst(b->cval >> pos, k->width)));
        if (r == mkFalse()) return r;
      }
      return r;
    }
    if (a->op == O_SEXT) {
      Expr x = a->kids[0];
      Expr c = mkConst(b->cval, x->width);
      if ((u128)sgn(c->cval, x->width) != (u128)sgn(b->cval, w)) return mkFalse();
      return mkEq(x, c);
    }
    if (a->op == O_ITE) {
      // ite(c, const, x) == const
      if (a->kids[1]->isConst() || a->kids[2]->isConst())
        return mkIte(a->kids[0], mkEq(a->kids[1], b), mkEq(a->kids[2], b));
    }
  }
  if (a->op == O_CONCAT && b->op == O_CONCAT) {
    // align on common cut points if they coincide on the first kid
    if (a->kids.size() == b->kids.size()) {
      bool same = true;
      for (size_t i = 0; i < a->kids.size(); i++) if (a->kids[i]->width != b->kids[i]->width) same = false;
      if (same) {
        Expr r = mkTrue();
        for (size_t i = 0; i < a->kids.size(); i++) {
          r = mkAnd(r, mkEq(a->kids[i], b->kids[i]));
          if (r == mkFalse()) return r;
        }
        return r;
      }
    }
    uint32_t lz = std::min(knownLZ(a), knownLZ(b));
    if (lz && lz < w) return mkEq(mkExtract(a, 0, w - lz), mkExtract(b, 0, w - lz));
  }
  if (a->op == O_ADD && b->op == O_ADD && a->kids[1]->isConst() && b->kids[1]->isConst())
    return mkEq(a->kids[0], mkAdd(b->kids[0], mkConst(b->kids[1]->cval - a->kids[1]->cval, w)));
  if (!b->isConst() && (a->op == O_XOR || b->op == O_XOR)) {
    // cancel common kids
    Expr x = mkXor(a, b);
    size_t na = a->op == O_XOR ? a->kids.size() : 1, nb = b->op == O_XOR ? b->kids.size() : 1;
    size_t nx = x->op == O_XOR ? x->kids.size() : 1;
    if (x->isConst()) return mkBool(x->cval == 0);
    if (nx < na + nb && x->op != O_CONCAT) {
      if (x->op == O_XOR && x->kids.size() == 2) return mkEq(x->kids[0], x->kids[1]);
      return mkEq(x, mkConst(0, w));
    }
  }
  if (a->id > b->id && !b->isConst()) std::swap(a, b);
  return mk2(O_EQ, a, b, 1);
}
Expr mkUlt(Expr a, Expr b) {
  assert(a->width == b->width);
  if (a == b) return mkFalse();
  uint32_t w = a->width;
  if (a->isConst() && b->isConst()) return mkBool(a->cval < b->cval);
  if (isZero(b)) return mkFalse();
  if (a->isConst() && a->cval == maskOf(w)) return mkFalse();
  if (isZero(a)) return mkNot(mkEq(b, a));
  if (b->isConst() && b->cval == 1) return mkEq(a, mkConst(0, w));
  if (w == 1) return mkAnd(mkNot(a), b);
  if (Expr r = distIte(a, b, mkUlt)) return r;
  uint32_t la = knownLZ(a), lb = knownLZ(b), lz = std::min(la, lb);
  if (b->isConst() && la > lb) return mkTrue();   // a < 2^(w-la) <= b's top bit
  if (a->isConst() && lb > la) return mkFalse();
  if (lz && lz < w) return mkUlt(mkExtract(a, 0, w - lz), mkExtract(b, 0, w - lz));
  return mk2(O_ULT, a, b, 1);
}
Expr mkUle(Expr a, Expr b) {
  assert(a->width == b->width);
  if (a == b) return mkTrue();
  uint32_t w = a->width;
  if (a->isConst() && b->isConst()) return mkBool(a->cval <= b->cval);
  if (isZero(a)) return mkTrue();
  if (b->isConst() && b->cval == maskOf(w)) return mkTrue();
  if (isZero(b)) return mkEq(a, b);
  // canonicalise with constants to ULT
  if (a->isConst()) return mkUlt(mkConst(a->cval - 1, w), b);
  if (b->isConst()) return mkUlt(a, mkConst(b->cval + 1, w));
  if (w == 1) return mkOr(mkNot(a), b);
  if (Expr r = distIte(a, b, mkUle)) return r;
  uint32_t lz = std::min(knownLZ(a), knownLZ(b));
  if (lz && lz < w) return mkUle(mkExtract(a, 0, w - lz), mkExtract(b, 0, w - lz));
  return mk2(O_ULE, a, b, 1);
}
Expr mkSlt(Expr a, Expr b) {
  if (a == b) return mkFalse();
  uint32_t w = a->width;
  if (a->isConst() && b->isConst()) return mkBool(sgn(a->cval, w) < sgn(b->cval, w));
  if (Expr r = distIte(a, b, mkSlt)) return r;
  if (knownLZ(a) > 0 && knownLZ(b) > 0) return mkUlt(a, b);
  if (w > 1 && isZero(b)) return mkExtract(a, w - 1, 1);
  return mk2(O_SLT, a, b, 1);
}
Expr mkSle(Expr a, Expr b) {
  if (a == b) return mkTrue();
  uint32_t w = a->width;
  if (a->isConst() && b->isConst()) return mkBool(sgn(a->cval, w) <= sgn(b->cval, w));
  if (Expr r = distIte(a, b, mkSle)) return r;
  if (knownLZ(a) > 0 && knownLZ(b) > 0) return mkUle(a, b);
  if (w > 1 && isZero(a)) return mkNot(mkExtract(b, w - 1, 1));
  return mk2(O_SLE, a, b, 1);
}
Expr mkIte(Expr c, Expr a, Expr b) {
  assert(c->width == 1 && a->width == b->width);
  if (c->isConst()) return c->cval ? a : b;
  if (a == b) return a;
  if (c->op == O_NOT) return mkIte(c->kids[0], b, a);
  if (a->width == 1) {
    if (a->isConst()) return a->cval ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->cval ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  if (a->op == O_ITE && a->kids[0] == c) return mkIte(c, a->kids[1], b);
  if (b->op == O_ITE && b->kids[0] == c) return mkIte(c, a, b->kids[2]);
  if (b->op == O_ITE && b->kids[1] == a) return mkIte(mkOr(c, b->kids[0]), a, b->kids[2]);
  if (a->op == O_ITE && a->kids[2] == b) return mkIte(mkAnd(c, a->kids[0]), a->kids[1], b);
  // common concat structure: factor shared parts
  if (a->op == O_CONCAT || b->op == O_CONCAT) {
    // only when a boundary-aligned part coincides
    uint32_t lz = std::min(knownLZ(a), knownLZ(b));
    if (lz && lz < a->width && !(a->isConst() && b->isConst()))
      return mkZExt(mkIte(c, mkExtract(a, 0, a->width - lz), mkExtract(b, 0, a->width - lz)), a->width);
  }
  return P.intern(O_ITE, a->width, 0, 0, {c, a, b});
}

std::string toStr(Expr e, int depth) {
  static const char* names[] = {"const", "sym", "app", "+", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "~",
                                "<<", ">>", ">>s", "++", "ext", "sext", "=", "u<", "u<=", "s<", "s<=", "ite"};
  if (e->isConst()) {
    char b[64];
    if (e->cval >> 64) snprintf(b, 64, "0x%llx%016llx:%u", (unsigned long long)(e->cval >> 64), (unsigned long long)e->cval, e->width);
    else snprintf(b, 64, "0x%llx:%u", (unsigned long long)e->cval, e->width);
    return b;
  }
  if (e->op == O_SYM) return P.symNames[e->aux];
  if (depth <= 0) return "#" + std::to_string(e->id);
  std::string s = "(";
  if (e->op == O_APP) s += P.fns[e->aux].name;
  else s += names[e->op];
  if (e->op == O_EXTRACT) s += "[" + std::to_string(e->aux + e->width - 1) + ":" + std::to_string(e->aux) + "]";
  size_t n = 0;
  for (Expr k : e->kids) {
    if (n++ > 12) { s += " ..."; break; }
    s += " " + toStr(k, depth - 1);
  }
  return s + ")";
}
}  // namespace vp
