#include "vp.h"
#include "utils.hpp"
#include <new>
using namespace sse::crypto;
extern "C" void vp_main(void)
{
    const size_t N = vp_param("N", 5), M = vp_param("M", 3);
    const size_t n = vp_concretize(vp_range("n", vp_param("N0", 0), N));
    const size_t m = vp_concretize(vp_range("m", vp_param("M0", 0), M));
    uint8_t* a = new uint8_t[n];
    uint8_t* b = new uint8_t[m];
    vp_sym(a, n, "str");
    vp_sym(b, m, "pat");
    // literal middle: only the first and last few bytes of the haystack stay arbitrary
    const size_t ends = vp_param("ends", 0);
    if (ends)
        for (size_t i = ends; i + ends < n; i++)
            a[i] = 'A';
    const uint8_t* r = strstrn_uint8(a, n, b, m);
    // reference: smallest i with a[i..i+m) == b
    uint64_t want = ~0ULL;
    for (size_t i = n + 1; i-- > 0;) {
        if (i + m <= n)
            want = vp_ite(vp_eq(a + i, b, m), i, want);
    }
    if (r == nullptr) {
        vp_cover("absent");
        vp_assert(want == ~0ULL, "null returned although the pattern occurs");
    } else {
        vp_cover("present");
        vp_assert(want == (uint64_t)(r - a), "wrong position returned");
    }
    vp_cover("end");
    delete[] a;
    delete[] b;
}
