// C04: Prf
#include "oracle.hpp"
#include "prf.hpp"
#include "hmac.hpp"
#include "prg.hpp"
using namespace sse::crypto;

// the content of a derived key, observed through the public API: an HMAC under it
template<size_t N>
static void same_key(Key<N>&& k, const uint8_t* want, const char* msg)
{
    HMac<Hash, N> h(std::move(k));
    uint8_t       a[64], b[64], probe[3] = {1, 2, 3};
    h.hmac(probe, 3, a);
    o_hmac(0, want, N, probe, 3, b);
    vp_assert_eq(a, b, 64, msg);
}
template<uint16_t N>
static void inputs(size_t n)
{
    uint8_t key[32], ref[N];
    vp_sym(key, 32, "key");
    const Prf<N> f(mkkey<32>(key));
    Buf          in(n, "in");
    std::string  s = in.str();
    o_prf(key, in, n, ref, N);
    for (int i = 0; i < 2; i++) {
        std::array<uint8_t, N> a = f.prf(in.p, n);
        vp_assert_eq(a.data(), ref, N, "prf differs from its definition");
        a = f.prf(s);
        vp_assert_eq(a.data(), ref, N, "string prf differs");
    }
    vp_assert_eq(in.p, s.data(), n, "prf changed its input");
}
template<uint16_t N, size_t L>
static void arr()
{
    uint8_t key[32], ref[N];
    vp_sym(key, 32, "key");
    Prf<N>                 f(mkkey<32>(key));
    std::array<uint8_t, L> in;
    vp_sym(in.data(), L, "in");
    o_prf(key, in.data(), L, ref, N);
    std::array<uint8_t, N> a = f.prf(in);
    vp_assert_eq(a.data(), ref, N, "array prf differs");
}
template<uint16_t N>
static void derive(size_t n)
{
    uint8_t key[32], ref[N];
    vp_sym(key, 32, "key");
    const Prf<N> f(mkkey<32>(key));
    Buf          in(n, "in");
    std::string  s = in.str();
    o_prf(key, in, n, ref, N);
    same_key<N>(f.derive_key(in.p, n), ref, "derived key is not the PRF value");
    same_key<N>(f.derive_key(s), ref, "key derived from a string is not the PRF value");
    std::array<uint8_t, 5> a;
    vp_sym(a.data(), 5, "in");
    o_prf(key, a.data(), 5, ref, N);
    same_key<N>(f.derive_key(a), ref, "key derived from an array is not the PRF value");
}
template<uint16_t N>
static void null()
{
    uint8_t key[32];
    vp_sym(key, 32, "key");
    Prf<N> f(mkkey<32>(key));
    size_t n     = vp_range("len", 0, 3);
    bool   threw = false;
    try {
        f.prf(nullptr, n);
    } catch (const std::exception&) {
        threw = true;
    }
    vp_assert(threw, "null input accepted");
    threw = false;
    try {
        f.derive_key(nullptr, n);
    } catch (const std::exception&) {
        threw = true;
    }
    vp_assert(threw, "null input accepted by derive_key");
}
extern "C" void vp_main(void)
{
    uint64_t mode = vp_param("mode", 0), n = vp_param("lo", 0);
    if (vp_param("hi", 0))
        n = vp_concretize(vp_range("len", n, vp_param("hi", 0)));
    uint64_t v = vp_concretize(vp_range("variant", vp_param("v0", 0), vp_param("v1", 99)));
    if (mode == 0) {
        switch (v) {
        case 0: inputs<1>(n); break;
        case 1: inputs<12>(n); break;
        case 2: inputs<16>(n); break;
        case 3: inputs<32>(n); break;
        case 4: inputs<63>(n); break;
        case 5: inputs<64>(n); break;
        case 6: inputs<65>(n); break;
        case 7: inputs<127>(n); break;
        case 8: inputs<128>(n); break;
        case 9: inputs<129>(n); break;
        case 10: inputs<200>(n); break;
        case 11: inputs<256>(n); break;
        case 12: inputs<257>(n); break;
        case 13: inputs<1000>(n); break;
        case 14: inputs<4096>(n); break;
        case 15: inputs<16384>(n); break;
        default: return;
        }
    } else if (mode == 1) {
        switch (v) {
        case 0: arr<1, 1>(); break;
        case 1: arr<32, 16>(); break;
        case 2: arr<64, 20>(); break;
        case 3: arr<65, 33>(); break;
        case 4: arr<128, 64>(); break;
        case 5: arr<12, 7>(); break;
        case 6: arr<300, 129>(); break;
        default: return;
        }
    } else if (mode == 2) {
        switch (v) {
        case 0: derive<16>(n); break;
        case 1: derive<32>(n); break;
        case 2: derive<48>(n); break;
        case 3: derive<64>(n); break;
        case 4: derive<65>(n); break;
        case 5: derive<112>(n); break;
        case 6: derive<128>(n); break;
        default: return;
        }
    } else {
        switch (v) {
        case 0: null<16>(); break;
        case 1: null<64>(); break;
        case 2: null<65>(); break;
        case 3: null<200>(); break;
        default: return;
        }
    }
    vp_cover("end");
}
