// C21: random interfaces
#include "oracle.hpp"
#include "random.hpp"
using namespace sse::crypto;
static void drawn(uint64_t r0, const uint8_t* p, size_t n, const char* msg)
{
    vp_assert(vp_rnd_count() >= r0 + n, "fewer bytes drawn from the generator than requested");
    Buf ref(n);
    vp_rnd_copy(ref, r0, n);
    vp_assert_eq(p, ref.p, n, msg);
}
template<class T, size_t N>
static void arr()
{
    std::array<T, N> a, b;
    vp_sym(a.data(), sizeof(T) * N, "stale");
    uint64_t r0 = vp_rnd_count();
    random_bytes(a);
    drawn(r0, reinterpret_cast<uint8_t*>(a.data()), sizeof(T) * N, "array not filled from the generator");
    r0 = vp_rnd_count();
    b  = random_bytes<T, N>();
    drawn(r0, reinterpret_cast<uint8_t*>(b.data()), sizeof(T) * N, "returned array not filled from the generator");
}
extern "C" void vp_main(void)
{
    uint64_t mode = vp_param("mode", 0), n = vp_param("lo", 0);
    if (vp_param("hi", 0))
        n = vp_concretize(vp_range("len", n, vp_param("hi", 0)));
    if (mode == 0) {
        Buf      a(n, "stale");
        uint64_t r0 = vp_rnd_count();
        random_bytes(n, a.p);
        drawn(r0, a, n, "buffer not filled from the generator");
        r0             = vp_rnd_count();
        std::string s = random_string(n);
        vp_assert(s.size() == n, "random string has the wrong length");
        drawn(r0, u8(s), n, "string not filled from the generator");
        Buf b(n, "stale");
        r0 = vp_rnd_count();
        vp_assert(mbedTLS_rng_wrap(nullptr, b.p, n) == 0, "rng wrapper reports failure");
        drawn(r0, b, n, "rng wrapper buffer not filled from the generator");
        r0 = vp_rnd_count();
        random_bytes(n, a.p);
        drawn(r0, a, n, "second request not filled from the generator");
    } else {
        arr<uint8_t, 1>();
        arr<uint8_t, 7>();
        arr<uint8_t, 16>();
        arr<uint8_t, 32>();
        arr<uint8_t, 65>();
        arr<uint16_t, 5>();
        arr<uint32_t, 9>();
        arr<uint64_t, 1>();
        arr<uint64_t, 33>();
        arr<uint8_t, 0>();
    }
    vp_cover("end");
}
