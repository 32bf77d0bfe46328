// C05: Prg
#include "oracle.hpp"
#include "prg.hpp"
#include "hmac.hpp"
#include "hash.hpp"
using namespace sse::crypto;
template<class F>
static bool throws(F f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
template<size_t N>
static void same_key(Key<N>&& k, const uint8_t* want, const char* msg)
{
    HMac<Hash, N> h(std::move(k));
    uint8_t       a[64], b[64], probe[3] = {1, 2, 3};
    h.hmac(probe, 3, a);
    o_hmac(0, want, N, probe, 3, b);
    vp_assert_eq(a, b, 64, msg);
}
// every offset: arbitrary block number, every residue
static uint64_t offset()
{
    uint64_t m = vp_concretize(vp_range("mod", vp_param("m0", 0), vp_param("m1", 63)));
    uint64_t b = vp_range("block", 0, vp_param("maxblock", (1ULL << 57) - 1));
    return b * 64 + m;
}
static void raw(const uint8_t* key, size_t n)
{
    const Prg g(mkkey<32>(key));
    uint64_t  off = offset();
    Buf       ref(n), out(n);
    vp_sym(out, n, "stale");
    o_stream(key, off, n, ref);
    g.derive(off, n, out.p);
    vp_assert_eq(out.p, ref.p, n, "derive is not the keystream slice");
    g.derive(off, n, out.p);
    vp_assert_eq(out.p, ref.p, n, "second derive differs");
    if (vp_param("iface", 1)) {
        std::string s("junk");
        g.derive(off, n, s);
        vp_assert(s.size() == n, "string output has the wrong length");
        vp_assert_eq(s.data(), ref.p, n, "string derive is not the keystream slice");
        s = g.derive(off, n);
        vp_assert(s.size() == n, "string output has the wrong length");
        vp_assert_eq(s.data(), ref.p, n, "returned derive is not the keystream slice");
        // one-shot
        Key<32> k1(mkkey<32>(key)), k2(mkkey<32>(key)), k3(mkkey<32>(key));
        fill(out, n, 0x77);
        Prg::derive(std::move(k1), off, n, out.p);
        vp_assert_eq(out.p, ref.p, n, "one-shot derive is not the keystream slice");
        Prg::derive(std::move(k2), off, n, s);
        vp_assert(s.size() == n, "one-shot string output has the wrong length");
        vp_assert_eq(s.data(), ref.p, n, "one-shot string derive is not the keystream slice");
        s = Prg::derive(std::move(k3), off, n);
        vp_assert(s.size() == n, "one-shot returned output has the wrong length");
        vp_assert_eq(s.data(), ref.p, n, "one-shot returned derive is not the keystream slice");
        // the keys are consumed
        vp_assert(throws([&] { Prg::derive(std::move(k1), off, n, out.p); }), "one-shot derive did not consume its key");
        vp_assert(throws([&] { Prg::derive(std::move(k2), off, n, s); }), "one-shot string derive did not consume its key");
        vp_assert(throws([&] { Prg::derive(std::move(k3), off, n); }), "one-shot returned derive did not consume its key");
    }
}
static void zero(const uint8_t* key, size_t n)
{
    const Prg g(mkkey<32>(key));
    Buf       ref(n);
    o_stream(key, 0, n, ref);
    std::string s("junk");
    g.derive(n, s);
    vp_assert(s.size() == n, "string output has the wrong length");
    vp_assert_eq(s.data(), ref.p, n, "derive(len,out) is not the keystream");
    s = g.derive(n);
    vp_assert(s.size() == n, "string output has the wrong length");
    vp_assert_eq(s.data(), ref.p, n, "derive(len) is not the keystream");
    Key<32> k1(mkkey<32>(key)), k2(mkkey<32>(key));
    Prg::derive(std::move(k1), n, s);
    vp_assert(s.size() == n, "string output has the wrong length");
    vp_assert_eq(s.data(), ref.p, n, "one-shot derive(len,out) is not the keystream");
    s = Prg::derive(std::move(k2), n);
    vp_assert(s.size() == n, "string output has the wrong length");
    vp_assert_eq(s.data(), ref.p, n, "one-shot derive(len) is not the keystream");
    vp_assert(throws([&] { Prg::derive(std::move(k1), n, s); }), "key not consumed");
    vp_assert(throws([&] { Prg::derive(std::move(k2), n); }), "key not consumed");
}
template<size_t K>
static void keys(const uint8_t* key)
{
    Prg      g(mkkey<32>(key));
    uint16_t i = (uint16_t)vp_range("index", 0, 65535 - 8);
    if (K % 64)
        i = (uint16_t)((i & ~63) | vp_concretize(i & 63));
    uint8_t ref[K];
    o_stream(key, (uint64_t)i * K, K, ref);
    same_key<K>(g.template derive_key<K>(i), ref, "derived key is not its keystream slice");
    Key<32> k1(mkkey<32>(key));
    same_key<K>(Prg::derive_key<K>(std::move(k1), i), ref, "one-shot derived key is not its keystream slice");
    vp_assert(throws([&] { Prg::derive_key<K>(std::move(k1), i); }), "one-shot derive_key did not consume its key");
    uint16_t            n = (uint16_t)vp_concretize(vp_range("count", 0, vp_param("maxkeys", 5)));
    std::vector<Key<K>> v = g.template derive_keys<K>(n, i);
    vp_assert(v.size() == n, "wrong number of keys");
    Key<32>             k2(mkkey<32>(key));
    std::vector<Key<K>> w = Prg::derive_keys<K>(std::move(k2), n, i);
    vp_assert(w.size() == n, "wrong number of keys (one-shot)");
    for (uint16_t j = 0; j < n; j++) {
        o_stream(key, (uint64_t)(i + j) * K, K, ref);
        same_key<K>(std::move(v[j]), ref, "batch-derived key differs");
        same_key<K>(std::move(w[j]), ref, "one-shot batch-derived key differs");
    }
    std::vector<Key<K>> z = g.template derive_keys<K>(n);
    vp_assert(z.size() == n, "wrong number of keys (no offset)");
    for (uint16_t j = 0; j < n; j++) {
        o_stream(key, (uint64_t)j * K, K, ref);
        same_key<K>(std::move(z[j]), ref, "batch-derived key differs (no offset)");
    }
}
static void empty(const uint8_t* key)
{
    Key<32>     k;
    std::string s;
    uint8_t     o[8];
    size_t      off = vp_range("off", 0, 1000), n = vp_range("len", 1, 8);
    k.erase();
    vp_assert(throws([&] { Prg::derive(std::move(k), n, s); }), "empty key accepted");
    vp_assert(throws([&] { Prg::derive(std::move(k), off, n, s); }), "empty key accepted");
    vp_assert(throws([&] { Prg::derive(std::move(k), off, n, o); }), "empty key accepted");
    vp_assert(throws([&] { Prg::derive(std::move(k), n); }), "empty key accepted");
    vp_assert(throws([&] { Prg::derive(std::move(k), off, n); }), "empty key accepted");
    vp_assert(throws([&] { Prg::derive_key<16>(std::move(k), 3); }), "empty key accepted by derive_key");
    vp_assert(throws([&] { Prg::derive_keys<16>(std::move(k), 3); }), "empty key accepted by derive_keys");
    // a prg whose key was moved away
    Prg a(mkkey<32>(key));
    Prg b(std::move(a));
    vp_assert(throws([&] { a.derive(off, n, o); }), "moved-from prg still derives");
    vp_assert(throws([&] { a.derive(off, n, s); }), "moved-from prg still derives");
    vp_assert(throws([&] { a.derive_key<16>(1); }), "moved-from prg still derives");
    uint8_t ref[8];
    o_stream(key, off, 8, ref);
    b.derive(off, 8, o);
    vp_assert_eq(o, ref, 8, "moved prg differs");
}
extern "C" void vp_main(void)
{
    uint8_t key[32];
    vp_sym(key, 32, "key");
    uint64_t mode = vp_param("mode", 0), n = vp_param("lo", 0);
    if (vp_param("hi", 0))
        n = vp_concretize(vp_range("len", n, vp_param("hi", 0)));
    if (mode == 0)
        raw(key, n);
    else if (mode == 1)
        zero(key, n);
    else if (mode == 2) {
        switch (vp_concretize(vp_range("variant", vp_param("v0", 0), vp_param("v1", 7)))) {
        case 0: keys<16>(key); break;
        case 1: keys<32>(key); break;
        case 2: keys<24>(key); break;
        case 3: keys<48>(key); break;
        case 4: keys<64>(key); break;
        case 5: keys<65>(key); break;
        case 6: keys<100>(key); break;
        default: keys<128>(key); break;
        }
    } else
        empty(key);
    vp_cover("end");
}
