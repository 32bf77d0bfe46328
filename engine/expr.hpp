// Hash-consed bit-vector expression DAG with simplification.
// Width-1 expressions double as booleans.  Scalar arithmetic is at most 128 bits wide; wider nodes
// only occur as uninterpreted applications (App), whose result is always accessed through Extract,
// and as Concat trees.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <vector>

namespace vp {
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  O_CONST, O_SYM, O_APP,
  O_ADD, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_NOT,
  O_SHL, O_LSHR, O_ASHR,
  O_CONCAT, O_EXTRACT, O_SEXT,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE
};

struct Node;
typedef const Node* Expr;

struct Node {
  Op op;
  uint32_t width;
  uint32_t id;
  uint32_t aux;   // O_EXTRACT: low bit; O_SYM: symbol index; O_APP: function index
  mutable int16_t lz = -1;  // memo: known leading zero bits
  uint16_t iteleaves; // >0: ITE tree with constant leaves (number of leaves), 1 for constants
  u128 cval;
  std::vector<Expr> kids;
  bool isConst() const { return op == O_CONST; }
  uint64_t c64() const { return (uint64_t)cval; }
};

inline u128 maskOf(uint32_t w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

struct FnInfo { std::string name; uint32_t nargBytes; uint32_t retWidth; };

struct ExprPool {
  struct Key {
    Op op; uint32_t width, aux; u128 cval; std::vector<Expr> kids;
  };
  std::vector<Expr> buckets;  // open hashing via unordered_multimap substitute
  std::unordered_map<uint64_t, std::vector<Node*>> table;
  std::vector<std::string> symNames;
  std::vector<uint32_t> symWidth;
  std::vector<FnInfo> fns;
  std::unordered_map<std::string, uint32_t> fnIndex;
  uint32_t nextId = 0;

  static uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
  }
  Expr intern(Op op, uint32_t width, uint32_t aux, u128 cval, const std::vector<Expr>& kids) {
    uint64_t h = mix(op, width);
    h = mix(h, aux);
    h = mix(h, (uint64_t)cval);
    h = mix(h, (uint64_t)(cval >> 64));
    for (Expr k : kids) h = mix(h, k->id);
    auto& b = table[h];
    for (Node* n : b)
      if (n->op == op && n->width == width && n->aux == aux && n->cval == cval && n->kids == kids) return n;
    Node* n = new Node();
    n->op = op; n->width = width; n->aux = aux; n->cval = cval; n->kids = kids; n->id = nextId++;
    n->iteleaves = 0;
    if (op == O_CONST) n->iteleaves = 1;
    else if (op == O_ITE && kids[1]->iteleaves && kids[2]->iteleaves) {
      uint32_t s = kids[1]->iteleaves + kids[2]->iteleaves;
      n->iteleaves = s <= 64 ? s : 0;
    }
    b.push_back(n);
    return n;
  }
};
extern ExprPool P;

inline Expr mkConst(u128 v, uint32_t w) {
  static const std::vector<Expr> none;
  if (w > 128) { fprintf(stderr, "mkConst too wide %u\n", w); abort(); }
  return P.intern(O_CONST, w, 0, v & maskOf(w), none);
}
inline Expr mkTrue() { static Expr t = mkConst(1, 1); return t; }
inline Expr mkFalse() { static Expr t = mkConst(0, 1); return t; }
inline Expr mkBool(bool b) { return b ? mkTrue() : mkFalse(); }
inline Expr mkSym(const std::string& name, uint32_t w) {
  uint32_t i = P.symNames.size();
  P.symNames.push_back(name);
  P.symWidth.push_back(w);
  return P.intern(O_SYM, w, i, 0, {});
}
inline uint32_t fnOf(const std::string& name, uint32_t nargBytes, uint32_t retWidth) {
  std::string k = name + "#" + std::to_string(nargBytes) + "#" + std::to_string(retWidth);
  auto it = P.fnIndex.find(k);
  if (it != P.fnIndex.end()) return it->second;
  uint32_t i = P.fns.size();
  P.fns.push_back({name, nargBytes, retWidth});
  P.fnIndex[k] = i;
  return i;
}
// args must be 8-bit expressions
inline Expr mkApp(const std::string& name, const std::vector<Expr>& args, uint32_t retWidth) {
  uint32_t f = fnOf(name, args.size(), retWidth);
  return P.intern(O_APP, retWidth, f, 0, args);
}

extern bool ufMul;
Expr mkNot(Expr a);
Expr mkAnd(Expr a, Expr b);
Expr mkOr(Expr a, Expr b);
Expr mkXor(Expr a, Expr b);
Expr mkAdd(Expr a, Expr b);
Expr mkSub(Expr a, Expr b);
Expr mkMul(Expr a, Expr b);
Expr mkUDiv(Expr a, Expr b);
Expr mkSDiv(Expr a, Expr b);
Expr mkURem(Expr a, Expr b);
Expr mkSRem(Expr a, Expr b);
Expr mkShl(Expr a, Expr b);
Expr mkLShr(Expr a, Expr b);
Expr mkAShr(Expr a, Expr b);
Expr mkConcat(const std::vector<Expr>& msbFirst);
Expr mkExtract(Expr a, uint32_t lo, uint32_t w);
Expr mkZExt(Expr a, uint32_t w);
Expr mkSExt(Expr a, uint32_t w);
Expr mkEq(Expr a, Expr b);
Expr mkUlt(Expr a, Expr b);
Expr mkUle(Expr a, Expr b);
Expr mkSlt(Expr a, Expr b);
Expr mkSle(Expr a, Expr b);
Expr mkIte(Expr c, Expr a, Expr b);
inline Expr mkTrunc(Expr a, uint32_t w) { return mkExtract(a, 0, w); }
std::string toStr(Expr e, int depth = 6);
}  // namespace vp
