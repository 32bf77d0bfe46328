// Reference definitions the properties are stated against, written with the same cryptographic primitives
// (BLAKE2b, ChaCha20, Poly1305), which are uninterpreted in symbolic runs and libsodium's in native replays.
#pragma once
#include "vp.h"
#include <cstring>
#include <new>
#include <sodium.h>
#include <stdexcept>
#include <string>
#include <vector>

#include "key.hpp"

// a heap buffer of exactly n bytes, so that any access outside is caught
struct Buf {
    uint8_t* p;
    size_t   n;
    explicit Buf(size_t n_) : p(new uint8_t[n_]), n(n_) { }
    Buf(size_t n_, const char* name) : p(new uint8_t[n_]), n(n_) { vp_sym(p, n, name); }
    Buf(const Buf&) = delete;
    ~Buf() { delete[] p; }
    operator uint8_t*() { return p; }
    std::string str() const { return std::string(reinterpret_cast<char*>(p), n); }
};
inline void fill(uint8_t* p, size_t n, uint8_t v)
{
    for (size_t i = 0; i < n; i++)
        p[i] = v;
}
inline const uint8_t* u8(const std::string& s)
{
    return reinterpret_cast<const uint8_t*>(s.data());
}
template<size_t N>
sse::crypto::Key<N> mkkey(const uint8_t* bytes)
{
    uint8_t tmp[N];
    memcpy(tmp, bytes, N);
    return sse::crypto::Key<N>(tmp);
}
inline void o_hash(const uint8_t* in, size_t len, uint8_t* out64)
{
    crypto_generichash_blake2b(out64, 64, in, len, nullptr, 0);
}
// HMAC with a 128-byte block and 64-byte digest; alg 0 BLAKE2b, 1 SHA-512
inline void o_hmac(int alg, const uint8_t* key, size_t klen, const uint8_t* in, size_t len, uint8_t* out64)
{
    std::vector<uint8_t> a(128 + len), b(128 + 64);
    for (size_t i = 0; i < 128; i++) {
        uint8_t k = i < klen ? key[i] : 0;
        a[i] = k ^ 0x36;
        b[i] = k ^ 0x5c;
    }
    if (len)
        memcpy(a.data() + 128, in, len);
    if (alg == 0) {
        crypto_generichash_blake2b(b.data() + 128, 64, a.data(), a.size(), nullptr, 0);
        crypto_generichash_blake2b(out64, 64, b.data(), b.size(), nullptr, 0);
    } else {
        crypto_hash_sha512(b.data() + 128, a.data(), a.size());
        crypto_hash_sha512(out64, b.data(), b.size());
    }
}
inline void o_prf(const uint8_t* key32, const uint8_t* in, size_t len, uint8_t* out, size_t n)
{
    uint8_t d[64];
    if (n <= 64) {
        o_hmac(0, key32, 32, in, len, d);
        memcpy(out, d, n);
        return;
    }
    std::vector<uint8_t> t(len + 1);
    if (len)
        memcpy(t.data(), in, len);
    size_t pos = 0;
    for (size_t i = 0; pos < n; i++) {
        t[len] = (uint8_t)i;
        o_hmac(0, key32, 32, t.data(), len + 1, d);
        size_t m = n - pos < 64 ? n - pos : 64;
        memcpy(out + pos, d, m);
        pos += m;
    }
}
// bytes [off, off+n) of the ChaCha20 keystream with a zero nonce
inline void o_stream(const uint8_t* key32, uint64_t off, size_t n, uint8_t* out)
{
    uint8_t  nonce[8] = {0}, blk[64];
    uint64_t b = off / 64, m = vp_concretize(off % 64);
    size_t   pos = 0;
    while (pos < n) {
        memset(blk, 0, 64);
        crypto_stream_chacha20_xor_ic(blk, blk, 64, nonce, b, key32);
        while (pos < n && m < 64)
            out[pos++] = blk[m++];
        m = 0;
        b++;
    }
}
static const uint8_t o_personal[16] = "encryption_key";
inline void o_cipher_subkey(const uint8_t* key32, const uint8_t* nonce16, uint8_t* out32)
{
    crypto_generichash_blake2b_salt_personal(out32, 32, nullptr, 0, key32, 32, nonce16, o_personal);
}
// nonce16 || ciphertext || tag
inline void o_encrypt(const uint8_t* key32, const uint8_t* nonce16, const uint8_t* m, size_t n, uint8_t* out)
{
    uint8_t            k[32];
    unsigned long long c = 0;
    o_cipher_subkey(key32, nonce16, k);
    memcpy(out, nonce16, 16);
    crypto_aead_chacha20poly1305_ietf_encrypt(out + 16, &c, m, n, nullptr, 0, nullptr, nonce16, k);
}
// 0 if authentic
inline int o_decrypt(const uint8_t* key32, const uint8_t* c, size_t len, uint8_t* out)
{
    uint8_t            k[32];
    unsigned long long m = 0;
    o_cipher_subkey(key32, c, k);
    return crypto_aead_chacha20poly1305_ietf_decrypt(out, &m, nullptr, c + 16, len - 16, nullptr, 0, c, k);
}
// type byte and public parameters in ctx
inline void o_wrap_keys(const uint8_t* wkey, uint8_t* tagkey, uint8_t* enckey)
{
    uint8_t one = 1, two = 2;
    o_prf(wkey, &one, 1, tagkey, 32);
    o_prf(wkey, &two, 1, enckey, 32);
}
inline void o_wrap_tag(const uint8_t* tagkey, const uint8_t* iv16, const std::vector<uint8_t>& ctx, const uint8_t* payload, size_t n, uint8_t* tag12)
{
    std::vector<uint8_t> b(16 + ctx.size() + n);
    memcpy(b.data(), iv16, 16);
    memcpy(b.data() + 16, ctx.data(), ctx.size());
    if (n)
        memcpy(b.data() + 16 + ctx.size(), payload, n);
    o_prf(tagkey, b.data(), b.size(), tag12, 12);
}
// IV16 || payload xor stream(enckey, nonce = tag) || tag
inline std::vector<uint8_t> o_wrap(const uint8_t* wkey, const uint8_t* iv16, const std::vector<uint8_t>& ctx, const uint8_t* payload, size_t n)
{
    uint8_t tk[32], ek[32], tag[12];
    o_wrap_keys(wkey, tk, ek);
    o_wrap_tag(tk, iv16, ctx, payload, n, tag);
    std::vector<uint8_t> out(28 + n);
    memcpy(out.data(), iv16, 16);
    if (n)
        crypto_stream_chacha20_ietf_xor(out.data() + 16, payload, n, tag, ek);
    memcpy(out.data() + 16 + n, tag, 12);
    return out;
}
// ---- range-constrained PRF
// key of the tree node reached after the first `depth` bits of leaf (tree of height h)
inline void o_node(const uint8_t* key, unsigned h, uint64_t leaf, unsigned depth, uint8_t* out32)
{
    uint8_t k[32];
    memcpy(k, key, 32);
    for (unsigned d = 0; d < depth; d++) {
        uint8_t s[64];
        o_stream(k, 0, 64, s);
        int bit = (int)((leaf >> (h - 2 - d)) & 1);
        for (int i = 0; i < 32; i++)
            k[i] = (uint8_t)vp_ite(bit, s[32 + i], s[i]);
    }
    memcpy(out32, k, 32);
}
// value at a leaf: walk to the leaf's parent, then take the left or right slice of its stream
template<size_t NB>
inline void o_leaf(const uint8_t* key, unsigned h, uint64_t leaf, uint8_t* out)
{
    uint8_t k[32], s[2 * NB];
    o_node(key, h, leaf, h - 2, k);
    o_stream(k, 0, 2 * NB, s);
    int bit = (int)(leaf & 1);
    for (size_t i = 0; i < NB; i++)
        out[i] = (uint8_t)vp_ite(bit, s[NB + i], s[i]);
}
inline uint64_t top(unsigned h) { return (((uint64_t)1) << (h - 1)) - 1; }
