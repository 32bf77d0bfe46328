// Models of the libsodium primitives: uninterpreted functions (symbolic mode) or the real library (concrete mode).
#include "engine.hpp"
#include <sodium.h>
#include <wmmintrin.h>
using namespace llvm;
namespace vp {
static Expr k64(uint64_t v) { return mkConst(v, 64); }
static Expr k32(uint64_t v) { return mkConst(v, 32); }
static Expr byteK(uint8_t v) { return mkConst(v, 8); }

static bool realApp(const std::string& fn, const std::string& in, std::string& out) {
  auto u = [&](size_t off) { return (const unsigned char*)in.data() + off; };
  unsigned a = 0, b = 0, c = 0;
  if (sscanf(fn.c_str(), "b2b:%u:%u:%u", &a, &b, &c) == 3) {
    out.assign(a, 0);
    crypto_generichash_blake2b((unsigned char*)&out[0], a, u(0), b, c ? u(b) : nullptr, c);
    return true;
  }
  if (sscanf(fn.c_str(), "b2bsp:%u:%u:%u", &a, &b, &c) == 3) {
    out.assign(a, 0);
    crypto_generichash_blake2b_salt_personal((unsigned char*)&out[0], a, u(0), b, c ? u(b) : nullptr, c, u(b + c), u(b + c + 16));
    return true;
  }
  if (sscanf(fn.c_str(), "sha512:%u", &a) == 1) { out.assign(64, 0); crypto_hash_sha512((unsigned char*)&out[0], u(0), a); return true; }
  if (sscanf(fn.c_str(), "sha256:%u", &a) == 1) { out.assign(32, 0); crypto_hash_sha256((unsigned char*)&out[0], u(0), a); return true; }
  if (fn == "chacha20blk") {
    out.assign(64, 0);
    uint32_t ic;
    memcpy(&ic, u(32), 4);
    std::string z(64, 0);
    crypto_stream_chacha20_ietf_xor_ic((unsigned char*)&out[0], (const unsigned char*)z.data(), 64, u(36), ic, u(0));
    return true;
  }
  if (fn == "hchacha20") { out.assign(32, 0); crypto_core_hchacha20((unsigned char*)&out[0], u(32), u(0), nullptr); return true; }
  if (sscanf(fn.c_str(), "poly1305:%u:%u", &a, &b) == 2) {
    std::string m = in.substr(32, a);
    m.resize((m.size() + 15) / 16 * 16, 0);
    m += in.substr(32 + a, b);
    m.resize((m.size() + 15) / 16 * 16, 0);
    uint64_t l = a;
    m.append((const char*)&l, 8);
    l = b;
    m.append((const char*)&l, 8);
    out.assign(16, 0);
    crypto_onetimeauth_poly1305((unsigned char*)&out[0], (const unsigned char*)m.data(), m.size(), u(0));
    return true;
  }
  if (fn == "aesr" || fn == "aesrlast") {
    __m128i x = _mm_loadu_si128((const __m128i*)u(0));
    x = fn == "aesr" ? _mm_aesenc_si128(x, _mm_setzero_si128()) : _mm_aesenclast_si128(x, _mm_setzero_si128());
    out.assign(16, 0);
    _mm_storeu_si128((__m128i*)&out[0], x);
    return true;
  }
  if (fn == "ed_from_uniform") { out.assign(32, 0); crypto_core_ed25519_from_uniform((unsigned char*)&out[0], u(0)); return true; }
  if (fn == "ed_add") { out.assign(33, 0); out[32] = (char)crypto_core_ed25519_add((unsigned char*)&out[0], u(0), u(32)); return true; }
  if (fn == "ed_sub") { out.assign(33, 0); out[32] = (char)crypto_core_ed25519_sub((unsigned char*)&out[0], u(0), u(32)); return true; }
  if (fn == "ed_valid") { out.assign(1, (char)crypto_core_ed25519_is_valid_point(u(0))); return true; }
  return false;
}

void Engine::registerSodium() {
  if (sodium_init() < 0) exit(3);
  concreteApp = realApp;
  auto reg = [&](std::initializer_list<const char*> names, ExtFn f) {
    for (auto n : names) ext[n] = f;
  };
  // ---- helpers and secure memory
  reg({"sodium_init", "sodium_mlock", "sodium_munlock", "sodium_set_misuse_handler"},
      [](CallBase*, std::vector<Val>&, Val& r) { r = Val(k32(0)); return true; });
  reg({"sodium_runtime_has_aesni", "sodium_runtime_has_sse2", "sodium_runtime_has_ssse3", "sodium_runtime_has_sse41", "sodium_runtime_has_pclmul"},
      [](CallBase*, std::vector<Val>&, Val& r) { r = Val(k32(1)); return true; });
  reg({"sodium_runtime_has_neon"}, [](CallBase*, std::vector<Val>&, Val& r) { r = Val(k32(0)); return true; });
  reg({"sodium_misuse"}, [this](CallBase*, std::vector<Val>&, Val&) -> bool { violateStop("misuse", "sodium_misuse called"); });
  auto smalloc = [this](uint64_t n) -> Expr {
    if (n > (16u << 20)) violateStop("hugealloc", "sodium_malloc with an unreasonable size");
    ObjP o = allocObj(*st, n, K_SODIUM, "sodium_malloc");
    return k64(o->base);
  };
  reg({"sodium_malloc"}, [this, smalloc](CallBase*, std::vector<Val>& a, Val& r) {
    if (!a[0].e->isConst()) checkNever("hugealloc", "sodium_malloc with an unreasonable size", mkUlt(k64(16u << 20), a[0].e));
    r = Val(smalloc(concretize(a[0].e, "sodium_malloc")));
    return true;
  });
  reg({"sodium_allocarray"}, [this, smalloc](CallBase*, std::vector<Val>& a, Val& r) {
    for (int i = 0; i < 2; i++)
      if (!a[i].e->isConst()) checkNever("hugealloc", "sodium_allocarray with an unreasonable size", mkUlt(k64(16u << 20), a[i].e));
    uint64_t n = concretize(a[0].e, "count"), m = concretize(a[1].e, "size");
    r = Val(smalloc(n * m));
    return true;
  });
  reg({"sodium_free"}, [this](CallBase*, std::vector<Val>& a, Val&) { freeObj(a[0].e, {K_SODIUM}, "sodium_free"); return true; });
  auto prot = [this](Prot p) {
    return [this, p](CallBase*, std::vector<Val>& a, Val& r) {
      uint64_t x = concretize(a[0].e, "mprotect");
      Obj* o = findObj(*st, x);
      if (!o || o->freed || o->kind != K_SODIUM || o->base != x) {
        violateStop("badprot", "sodium_mprotect_* on a pointer that is not a live sodium_malloc buffer");
      }
      if (o->prot != p) writable(*st, x)->prot = p;
      r = Val(k32(0));
      return true;
    };
  };
  reg({"sodium_mprotect_noaccess"}, prot(PR_NONE));
  reg({"sodium_mprotect_readonly"}, prot(PR_RO));
  reg({"sodium_mprotect_readwrite"}, prot(PR_RW));
  reg({"sodium_memzero", "explicit_bzero", "bzero"}, [this](CallBase*, std::vector<Val>& a, Val&) {
    uint64_t n = concretize(a[1].e, "memzero");
    if (n) storeBytes(a[0].e, Bytes(n, byteK(0)));
    return true;
  });
  auto eqExpr = [](const Bytes& x, const Bytes& y) {
    Expr r = mkTrue();
    for (size_t i = 0; i < x.size(); i++) r = mkAnd(r, mkEq(x[i], y[i]));
    return r;
  };
  reg({"sodium_memcmp"}, [this, eqExpr](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t n = concretize(a[2].e, "sodium_memcmp");
    Expr e = mkTrue();
    if (n) { Bytes x = loadBytes(a[0].e, n), y = loadBytes(a[1].e, n); e = eqExpr(x, y); }
    r = Val(mkIte(e, k32(0), k32(0xffffffff)));
    return true;
  });
  auto vfy = [this, eqExpr](uint64_t n) {
    return [this, eqExpr, n](CallBase*, std::vector<Val>& a, Val& r) {
      Bytes x = loadBytes(a[0].e, n), y = loadBytes(a[1].e, n);
      r = Val(mkIte(eqExpr(x, y), k32(0), k32(0xffffffff)));
      return true;
    };
  };
  reg({"crypto_verify_16"}, vfy(16));
  reg({"crypto_verify_32"}, vfy(32));
  reg({"crypto_verify_64"}, vfy(64));
  reg({"sodium_is_zero"}, [this, eqExpr](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t n = concretize(a[1].e, "sodium_is_zero");
    Expr e = mkTrue();
    if (n) { Bytes x = loadBytes(a[0].e, n); e = eqExpr(x, Bytes(n, byteK(0))); }
    r = Val(mkIte(e, k32(1), k32(0)));
    return true;
  });
  reg({"sodium_increment"}, [this](CallBase*, std::vector<Val>& a, Val&) {
    uint64_t n = concretize(a[1].e, "sodium_increment");
    Bytes x = n ? loadBytes(a[0].e, n) : Bytes();
    Expr c = mkConst(1, 9);
    for (uint64_t i = 0; i < n; i++) {
      Expr s = mkAdd(mkZExt(x[i], 9), c);
      x[i] = mkExtract(s, 0, 8);
      c = mkZExt(mkExtract(s, 8, 1), 9);
    }
    storeBytes(a[0].e, x);
    return true;
  });
  // ---- randomness
  reg({"randombytes_buf", "randombytes"}, [this](CallBase*, std::vector<Val>& a, Val&) {
    uint64_t n = concretize(a[1].e, "randombytes");
    if (n == 0) return true;
    Resolved rr = resolve(a[0].e, n, true);   // may fork before the input is recorded
    (void)rr;
    storeBytes(a[0].e, inputBytes("rnd", n));
    return true;
  });
  reg({"randombytes_random"}, [this](CallBase*, std::vector<Val>&, Val& r) { r = Val(bytesExpr(inputBytes("rnd", 4))); return true; });
  reg({"randombytes_uniform"}, [this](CallBase*, std::vector<Val>& a, Val& r) {
    Expr e = bytesExpr(inputBytes("rnd", 4));
    r = Val(mkIte(mkUlt(a[0].e, k32(2)), k32(0), mkURem(e, a[0].e)));
    return true;
  });
  // ---- hashing
  auto b2b = [this](const Bytes& in, const Bytes& key, uint64_t outlen) {
    Bytes args = in;
    args.insert(args.end(), key.begin(), key.end());
    return appBytes("b2b:" + std::to_string(outlen) + ":" + std::to_string(in.size()) + ":" + std::to_string(key.size()), args, outlen);
  };
  auto ld = [this](Expr p, uint64_t n) { return n ? loadBytes(p, n) : Bytes(); };
  reg({"crypto_generichash", "crypto_generichash_blake2b"}, [this, b2b, ld](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t ol = concretize(a[1].e, "outlen"), il = concretize(a[3].e, "inlen"), kl = concretize(a[5].e, "keylen");
    if (ol == 0 || ol > 64 || kl > 64) { r = Val(k32(0xffffffff)); return true; }
    Bytes in = ld(a[2].e, il), key = ld(a[4].e, kl);
    storeBytes(a[0].e, b2b(in, key, ol));
    r = Val(k32(0));
    return true;
  });
  reg({"crypto_generichash_blake2b_salt_personal"}, [this, ld](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t ol = concretize(a[1].e, "outlen"), il = concretize(a[3].e, "inlen"), kl = concretize(a[5].e, "keylen");
    if (ol == 0 || ol > 64 || kl > 64) { r = Val(k32(0xffffffff)); return true; }
    Bytes in = ld(a[2].e, il), key = ld(a[4].e, kl), args = in;
    args.insert(args.end(), key.begin(), key.end());
    for (int i = 6; i < 8; i++) {
      Bytes x(16, byteK(0));
      if (!(a[i].e->isConst() && a[i].e->cval == 0)) x = loadBytes(a[i].e, 16);
      args.insert(args.end(), x.begin(), x.end());
    }
    storeBytes(a[0].e, appBytes("b2bsp:" + std::to_string(ol) + ":" + std::to_string(il) + ":" + std::to_string(kl), args, ol));
    r = Val(k32(0));
    return true;
  });
  auto shaN = [this, ld](const char* nm, uint32_t out) {
    std::string n = nm;
    return [this, ld, n, out](CallBase*, std::vector<Val>& a, Val& r) {
      uint64_t il = concretize(a[2].e, "inlen");
      Bytes in = ld(a[1].e, il);
      storeBytes(a[0].e, appBytes(n + ":" + std::to_string(il), in, out));
      r = Val(k32(0));
      return true;
    };
  };
  reg({"crypto_hash_sha512", "crypto_hash"}, shaN("sha512", 64));
  reg({"crypto_hash_sha256"}, shaN("sha256", 32));
  // streaming interfaces: the context is tracked by address
  auto init = [this](const std::string& kind) {
    return [this, kind](CallBase*, std::vector<Val>& a, Val& r) {
      uint64_t p = concretize(a[0].e, "hash state");
      HashCtx h;
      h.kind = kind;
      if (kind == "b2b") {
        uint64_t kl = concretize(a[2].e, "keylen");
        h.outlen = concretize(a[3].e, "outlen");
        if (h.outlen == 0 || h.outlen > 64 || kl > 64) { r = Val(k32(0xffffffff)); return true; }
        if (kl) h.key = loadBytes(a[1].e, kl);
      }
      storeBytes(k64(p), Bytes(8, byteK(0x5c)));
      st->hctx[p] = h;
      r = Val(k32(0));
      return true;
    };
  };
  reg({"crypto_generichash_init", "crypto_generichash_blake2b_init"}, init("b2b"));
  reg({"crypto_hash_sha512_init"}, init("sha512"));
  reg({"crypto_hash_sha256_init"}, init("sha256"));
  reg({"crypto_generichash_update", "crypto_generichash_blake2b_update", "crypto_hash_sha512_update", "crypto_hash_sha256_update"},
      [this, ld](CallBase*, std::vector<Val>& a, Val& r) {
        uint64_t p = concretize(a[0].e, "hash state"), n = concretize(a[2].e, "inlen");
        Bytes b = ld(a[1].e, n);
        auto it = st->hctx.find(p);
        if (it == st->hctx.end()) throw Fatal{"hash update on an unknown state"};
        it->second.data.insert(it->second.data.end(), b.begin(), b.end());
        r = Val(k32(0));
        return true;
      });
  reg({"crypto_generichash_final", "crypto_generichash_blake2b_final"}, [this, b2b](CallBase*, std::vector<Val>& a, Val& r) {
    uint64_t p = concretize(a[0].e, "hash state"), ol = concretize(a[2].e, "outlen");
    auto it = st->hctx.find(p);
    if (it == st->hctx.end()) throw Fatal{"hash final on an unknown state"};
    storeBytes(a[1].e, b2b(it->second.data, it->second.key, ol));
    st->hctx.erase(p);
    r = Val(k32(0));
    return true;
  });
  auto fin = [this](uint32_t out) {
    return [this, out](CallBase*, std::vector<Val>& a, Val& r) {
      uint64_t p = concretize(a[0].e, "hash state");
      auto it = st->hctx.find(p);
      if (it == st->hctx.end()) throw Fatal{"hash final on an unknown state"};
      storeBytes(a[1].e, appBytes(it->second.kind + ":" + std::to_string(it->second.data.size()), it->second.data, out));
      st->hctx.erase(p);
      r = Val(k32(0));
      return true;
    };
  };
  reg({"crypto_hash_sha512_final"}, fin(64));
  reg({"crypto_hash_sha256_final"}, fin(32));
  // ---- ChaCha20.  One block = App(key, words 12..15); the original variant has a 64-bit counter and an 8-byte
  // nonce, the IETF variant a 32-bit counter and a 12-byte nonce.
  auto block = [this](const Bytes& key, Expr ctr, const Bytes& nonce) {
    Bytes args = key, c = exprBytes(ctr);
    args.insert(args.end(), c.begin(), c.end());
    args.insert(args.end(), nonce.begin(), nonce.end());
    return appBytes("chacha20blk", args, 64);
  };
  auto stream = [this, block](const Bytes& key, const Bytes& nonce, Expr ctr0, uint64_t n) {
    Bytes out;
    for (uint64_t i = 0; out.size() < n; i++) {
      Bytes b = block(key, mkAdd(ctr0, mkConst(i, ctr0->width)), nonce);
      out.insert(out.end(), b.begin(), b.end());
    }
    out.resize(n);
    return out;
  };
  auto ietfLimit = [this](Expr ic, uint64_t n) {
    // libsodium calls sodium_misuse when the 32-bit block counter would wrap
    uint64_t blocks = (n + 63) / 64;
    Expr bad = mkUlt(k64((1ULL << 32) - blocks), mkZExt(ic, 64));
    checkNever("misuse", "ChaCha20-IETF block counter would wrap (sodium_misuse)", bad);
  };
  auto xorStream = [this, stream, ietfLimit](bool ietf, bool hasM, bool hasIc) {
    return [=](CallBase*, std::vector<Val>& a, Val& r) {
      size_t i = 0;
      Expr c = a[i++].e, m = hasM ? a[i++].e : nullptr;
      uint64_t n = concretize(a[i++].e, "stream length");
      Expr np = a[i++].e;
      Expr ic = hasIc ? a[i++].e : mkConst(0, ietf ? 32 : 64);
      Expr kp = a[i++].e;
      if (n == 0) { r = Val(k32(0)); return true; }
      Bytes key = loadBytes(kp, 32), nonce = loadBytes(np, ietf ? 12 : 8), msg = hasM ? loadBytes(m, n) : Bytes(n, byteK(0));
      if (ietf) ietfLimit(ic, n);
      Bytes s = stream(key, nonce, ic, n);
      for (uint64_t j = 0; j < n; j++) s[j] = mkXor(s[j], msg[j]);
      storeBytes(c, s);
      r = Val(k32(0));
      return true;
    };
  };
  reg({"crypto_stream_chacha20"}, xorStream(false, false, false));
  reg({"crypto_stream_chacha20_xor"}, xorStream(false, true, false));
  reg({"crypto_stream_chacha20_xor_ic"}, xorStream(false, true, true));
  reg({"crypto_stream_chacha20_ietf"}, xorStream(true, false, false));
  reg({"crypto_stream_chacha20_ietf_xor"}, xorStream(true, true, false));
  reg({"crypto_stream_chacha20_ietf_xor_ic"}, xorStream(true, true, true));
  // ---- AEAD
  auto aeadTag = [this, block](const Bytes& key, const Bytes& nonce, const Bytes& ad, const Bytes& c) {
    Bytes pk = block(key, mkConst(0, 32), nonce);
    pk.resize(32);
    pk.insert(pk.end(), ad.begin(), ad.end());
    pk.insert(pk.end(), c.begin(), c.end());
    return appBytes("poly1305:" + std::to_string(ad.size()) + ":" + std::to_string(c.size()), pk, 16);
  };
  auto prep = [this](bool x, Bytes& key, Bytes& nonce) {
    if (!x) return;
    Bytes args = key;
    args.insert(args.end(), nonce.begin(), nonce.begin() + 16);
    key = appBytes("hchacha20", args, 32);
    Bytes n2(4, byteK(0));
    n2.insert(n2.end(), nonce.begin() + 16, nonce.end());
    nonce = n2;
  };
  auto enc = [=](bool x) {
    return [=](CallBase*, std::vector<Val>& a, Val& r) {
      // c, clen_p, m, mlen, ad, adlen, nsec, npub, k
      uint64_t n = concretize(a[3].e, "mlen"), an = concretize(a[5].e, "adlen");
      Bytes key = loadBytes(a[8].e, 32), nonce = loadBytes(a[7].e, x ? 24 : 12), m = ld(a[2].e, n), ad = ld(a[4].e, an);
      prep(x, key, nonce);
      Bytes c = stream(key, nonce, mkConst(1, 32), n);
      for (uint64_t i = 0; i < n; i++) c[i] = mkXor(c[i], m[i]);
      Bytes t = aeadTag(key, nonce, ad, c);
      c.insert(c.end(), t.begin(), t.end());
      storeBytes(a[0].e, c);
      if (!(a[1].e->isConst() && a[1].e->cval == 0)) storeBytes(a[1].e, exprBytes(k64(n + 16)));
      r = Val(k32(0));
      return true;
    };
  };
  auto dec = [=](bool x) {
    return [=](CallBase*, std::vector<Val>& a, Val& r) {
      // m, mlen_p, nsec, c, clen, ad, adlen, npub, k
      bool hasLen = !(a[1].e->isConst() && a[1].e->cval == 0);
      uint64_t cn = concretize(a[4].e, "clen"), an = concretize(a[6].e, "adlen");
      if (cn < 16) {
        if (hasLen) storeBytes(a[1].e, exprBytes(k64(0)));
        r = Val(k32(0xffffffff));
        return true;
      }
      uint64_t n = cn - 16;
      Bytes key = loadBytes(a[8].e, 32), nonce = loadBytes(a[7].e, x ? 24 : 12), c = loadBytes(a[3].e, cn), ad = ld(a[5].e, an);
      prep(x, key, nonce);
      Bytes body(c.begin(), c.begin() + n), tag(c.begin() + n, c.end());
      Expr ok = eqExpr(aeadTag(key, nonce, ad, body), tag);
      Bytes s = stream(key, nonce, mkConst(1, 32), n);
      for (uint64_t i = 0; i < n; i++) s[i] = mkIte(ok, mkXor(s[i], body[i]), byteK(0));
      if (!(a[0].e->isConst() && a[0].e->cval == 0)) storeBytes(a[0].e, s);
      if (hasLen) storeBytes(a[1].e, exprBytes(mkIte(ok, k64(n), k64(0))));
      r = Val(mkIte(ok, k32(0), k32(0xffffffff)));
      return true;
    };
  };
  reg({"crypto_aead_chacha20poly1305_ietf_encrypt"}, enc(false));
  reg({"crypto_aead_chacha20poly1305_ietf_decrypt"}, dec(false));
  reg({"crypto_aead_xchacha20poly1305_ietf_encrypt"}, enc(true));
  reg({"crypto_aead_xchacha20poly1305_ietf_decrypt"}, dec(true));
  // ---- ed25519 group: an arbitrary abelian group, modelled by (Z/2^64)^4 on the little-endian lanes of the encoding
  // with the real neutral encoding 01 00 .. 00; hash-to-point is an uninterpreted function into valid points
  auto lanes = [this](const Bytes& b) {
    std::vector<Expr> l;
    for (int i = 0; i < 4; i++) l.push_back(bytesExpr(Bytes(b.begin() + 8 * i, b.begin() + 8 * i + 8)));
    return l;
  };
  auto curve = [this](const Bytes& b) -> Expr { return mkExtract(mkApp("ed_curve", b, 8), 0, 1); };
  Bytes neutral(32, byteK(0));
  neutral[0] = byteK(1);
  auto knownPoint = [this, curve](const Bytes& b) { assume(curve(b)); };
  reg({"crypto_core_ed25519_from_uniform"}, [=](CallBase*, std::vector<Val>& a, Val& r) {
    Bytes in = loadBytes(a[1].e, 32);
    Bytes out = appBytes("ed_from_uniform", in, 32);
    if (!cfg.concrete) { knownPoint(out); assume(mkExtract(mkApp("ed_valid", out, 8), 0, 1)); }
    storeBytes(a[0].e, out);
    r = Val(k32(0));
    return true;
  });
  auto addsub = [=](bool sub) {
    return [=](CallBase*, std::vector<Val>& a, Val& r) {
      Bytes p = loadBytes(a[1].e, 32), q = loadBytes(a[2].e, 32);
      if (cfg.concrete) {
        Bytes in = p;
        in.insert(in.end(), q.begin(), q.end());
        Bytes o = appBytes(sub ? "ed_sub" : "ed_add", in, 33);
        r = Val(o[32]->cval ? k32(0xffffffff) : k32(0));
        o.resize(32);
        if (!((Expr)r.e)->cval) storeBytes(a[0].e, o);
        return true;
      }
      knownPoint(neutral);
      Expr ok = mkAnd(curve(p), curve(q));
      if (!branch(ok)) { r = Val(k32(0xffffffff)); return true; }
      auto lp = lanes(p), lq = lanes(q);
      Bytes out;
      for (int i = 0; i < 4; i++) {
        Expr e = sub ? mkSub(lp[i], lq[i]) : mkAdd(lp[i], lq[i]);
        if (i == 0) e = mkAdd(e, k64(sub ? 1 : (uint64_t)-1));
        Bytes b = exprBytes(e);
        out.insert(out.end(), b.begin(), b.end());
      }
      knownPoint(out);
      storeBytes(a[0].e, out);
      r = Val(k32(0));
      return true;
    };
  };
  reg({"crypto_core_ed25519_add"}, addsub(false));
  reg({"crypto_core_ed25519_sub"}, addsub(true));
  reg({"crypto_core_ed25519_is_valid_point"}, [=](CallBase*, std::vector<Val>& a, Val& r) {
    Bytes p = loadBytes(a[0].e, 32);
    if (cfg.concrete) { r = Val(mkZExt(appBytes("ed_valid", p, 1)[0], 32)); return true; }
    Expr v = mkExtract(mkApp("ed_valid", p, 8), 0, 1);
    // valid points are on the curve; the neutral element is not accepted by the real function (small order)
    assume(mkOr(mkNot(v), curve(p)));
    assume(mkNot(mkExtract(mkApp("ed_valid", neutral, 8), 0, 1)));
    r = Val(mkZExt(v, 32));
    return true;
  });
}
}  // namespace vp
