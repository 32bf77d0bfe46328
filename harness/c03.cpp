// C03: Hash and HMac
#include "oracle.hpp"
#include "hash.hpp"
#include "hmac.hpp"
#include "hash/sha512.hpp"
using namespace sse::crypto;

template<class F>
static bool throws(F f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
static void hashes(size_t n)
{
    Buf         in(n, "in");
    std::string s = in.str(), s0 = s;
    uint8_t     ref[64];
    o_hash(in, n, ref);
    Buf out(64);
    Hash::hash(in.p, n, out.p);
    vp_assert_eq(out.p, ref, 64, "hash differs from BLAKE2b");
    std::string o("junk");
    Hash::hash(s, o);
    vp_assert(o.size() == 64, "string hash is not 64 bytes");
    vp_assert_eq(o.data(), ref, 64, "string hash differs");
    o = Hash::hash(s);
    vp_assert(o.size() == 64, "string hash is not 64 bytes");
    vp_assert_eq(o.data(), ref, 64, "returned string hash differs");
    vp_assert(s.size() == n, "hash changed its input");
    vp_assert_eq(s.data(), in.p, n, "hash changed its input");
}
static void truncated(size_t n)
{
    Buf         in(n, "in");
    std::string s = in.str();
    uint8_t     ref[64];
    o_hash(in, n, ref);
    size_t k = vp_range("outlen", 0, vp_param("maxout", 80));
    if (k > 64) {
        vp_cover("toolong");
        uint8_t small[1];
        std::string o("keep");
        vp_assert(throws([&] { Hash::hash(in.p, n, k, small); }), "over-long output accepted");
        vp_assert(throws([&] { Hash::hash(s, k, o); }), "over-long output accepted (string)");
        vp_assert(o == "keep", "rejected request changed the output");
        vp_assert(throws([&] { o = Hash::hash(s, k); }), "over-long output accepted (returned string)");
        return;
    }
    k = vp_concretize(k);
    Buf out(k);
    Hash::hash(in.p, n, k, out.p);
    vp_assert_eq(out.p, ref, k, "truncated hash is not a prefix of the digest");
    std::string o("junk");
    Hash::hash(s, k, o);
    vp_assert(o.size() == k, "truncated string hash has the wrong length");
    vp_assert_eq(o.data(), ref, k, "truncated string hash is not a prefix");
    o = Hash::hash(s, k);
    vp_assert(o.size() == k, "truncated string hash has the wrong length");
    vp_assert_eq(o.data(), ref, k, "truncated returned hash is not a prefix");
    vp_cover("ok");
}
static void nulls()
{
    uint8_t b[64], c[64];
    memset(b, 1, 64);
    size_t n = vp_range("len", 0, 4);
    size_t k = vp_range("outlen", 0, 64);
    vp_assert(throws([&] { Hash::hash(nullptr, n, b); }), "null input accepted by hash");
    vp_assert(throws([&] { Hash::hash(b, n, nullptr); }), "null output accepted by hash");
    vp_assert(throws([&] { Hash::hash(nullptr, n, k, c); }), "null input accepted by truncated hash");
    vp_assert(throws([&] { Hash::hash(b, n, k, nullptr); }), "null output accepted by truncated hash");
    uint8_t key[32];
    vp_sym(key, 32, "key");
    HMac<Hash, 32> h(mkkey<32>(key));
    vp_assert(throws([&] { h.hmac(nullptr, n, c, k); }), "null input accepted by hmac");
    vp_assert(throws([&] { h.hmac(b, n, nullptr, k); }), "null output accepted by hmac");
    vp_assert(throws([&] { h.hmac(nullptr, n); }), "null input accepted by array hmac");
}
template<class H, uint16_t N>
static void mac(int alg, size_t n)
{
    uint8_t key[N], ref[64];
    vp_sym(key, N, "key");
    const HMac<H, N> h(mkkey<N>(key));
    Buf              in(n, "in");
    std::string      s = in.str();
    o_hmac(alg, key, N, in, n, ref);
    Buf out(64);
    h.hmac(in.p, n, out.p);
    vp_assert_eq(out.p, ref, 64, "hmac differs from its definition");
    vp_assert_eq(in.p, s.data(), n, "hmac changed its input");
    std::array<uint8_t, 64> a = h.hmac(in.p, n);
    vp_assert_eq(a.data(), ref, 64, "array hmac differs");
    a = h.hmac(s);
    vp_assert_eq(a.data(), ref, 64, "string hmac differs");
    size_t k = vp_range("outlen", 0, 80);
    if (k > 64) {
        uint8_t small[1];
        vp_assert(throws([&] { h.hmac(in.p, n, small, k); }), "over-long hmac output accepted");
        return;
    }
    if (!vp_param("trunc", 1))
        return;
    k = vp_concretize(k);
    Buf t(k);
    h.hmac(in.p, n, t.p, k);
    vp_assert_eq(t.p, ref, k, "truncated hmac is not a prefix");
    vp_assert_eq(in.p, s.data(), n, "hmac changed its input");
}
// the key from a default-constructed object is random: not checkable here, see C13
extern "C" void vp_main(void)
{
    uint64_t mode = vp_param("mode", 0), n = vp_param("lo", 0);
    if (vp_param("hi", 0))
        n = vp_concretize(vp_range("len", n, vp_param("hi", 0)));
    switch (mode) {
    case 0: hashes(n); break;
    case 1: truncated(n); break;
    case 2: nulls(); break;
    default:
        switch (vp_concretize(vp_range("variant", 0, 7))) {
        case 0: mac<Hash, 32>(0, n); break;
        case 1: mac<Hash, 16>(0, n); break;
        case 2: mac<Hash, 17>(0, n); break;
        case 3: mac<Hash, 127>(0, n); break;
        case 4: mac<Hash, 128>(0, n); break;
        case 5: mac<hash::sha512, 32>(1, n); break;
        case 6: mac<hash::sha512, 128>(1, n); break;
        default: mac<hash::sha512, 25>(1, n); break;
        }
    }
    vp_cover("end");
}
