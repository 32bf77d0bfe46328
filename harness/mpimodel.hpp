// A small-integer model of src/mbedtls/bignum.c for the trapdoor permutation checks (bignum.c itself is checked by C17).
// A number is a signed 48-bit integer kept in limb 0.  Sizes are scaled: one model bit counts as kScale bits, so that a
// modulus of 8 bits (kScale 256) or 6 bits (kScale 341) is a 2048-bit one to the code under test, whose message size is fixed to 256 bytes.
// Modular powers of symbolic bases are exact lookups in tables computed for the (concrete) modulus.
#pragma once
#include "oracle.hpp"
#include <cstdlib>

#include "mbedtls/bignum.h"

static size_t         kScale    = 256;
static const uint64_t kMaxTable = 4096;
static const uint64_t kMaxVal   = 1ull << 48;
static uint64_t       g_random_calls = 0, g_retries = 0, g_exp_draws = 0, kMaxExpDraws = 2, g_primes = 0, kBlindMask = 7, kExpBlindMask = 1;

static inline int64_t mm_get(const mbedtls_mpi* X)
{
    if (X->p == nullptr)
        return 0;
    return (int64_t)vp_ite(X->s < 0, (uint64_t)-(int64_t)X->p[0], X->p[0]);
}
// limb 1 holds a literal upper bound of the absolute value, which keeps the terms narrow
static inline uint64_t mm_bound(const mbedtls_mpi* X) { return X->p == nullptr ? 0 : X->p[1]; }
static int             mm_set(mbedtls_mpi* X, int64_t v, uint64_t bound = kMaxVal)
{
    if (X->p == nullptr) {
        X->p = (mbedtls_mpi_uint*)calloc(2, sizeof(mbedtls_mpi_uint));
        X->n = 1;
    }
    v = (int64_t)vp_norm((uint64_t)v);
    if (vp_const((uint64_t)v))
        bound = (uint64_t)(v < 0 ? -v : v);
    int neg = v < 0;
    X->s    = (int)(int64_t)vp_ite(neg, (uint64_t)(int64_t)-1, 1);
    X->p[0] = vp_ite(neg, (uint64_t)-v, (uint64_t)v);
    X->p[1] = bound;
    return 0;
}
static inline uint64_t mm_bmul(uint64_t a, uint64_t b) { return b && a > kMaxVal / b ? kMaxVal : a * b; }
static inline uint64_t mm_badd(uint64_t a, uint64_t b) { return a + b > kMaxVal ? kMaxVal : a + b; }
static inline int64_t mm_abs(int64_t v) { return (int64_t)vp_ite(v < 0, (uint64_t)-v, (uint64_t)v); }
static uint64_t       mm_bits(int64_t v)
{
    uint64_t a = (uint64_t)mm_abs(v), n = 0;
    for (uint64_t i = 0; i < 48; i++)
        n = vp_ite((int)((a >> i) & 1), i + 1, n);
    return n;
}
static uint64_t mm_powmod(uint64_t b, uint64_t e, uint64_t m) // concrete
{
    uint64_t r = 1 % m;
    b %= m;
    for (; e; e >>= 1) {
        if (e & 1)
            r = r * b % m;
        b = b * b % m;
    }
    return r;
}
static uint64_t mm_gcd(uint64_t a, uint64_t b)
{
    while (b) {
        uint64_t t = a % b;
        a          = b;
        b          = t;
    }
    return a;
}
static uint64_t mm_lookup(const uint8_t* t, uint64_t n, uint64_t i) // t[i], i < n
{
    return vp_table(t, n, i);
}
extern "C" {
void mbedtls_mpi_init(mbedtls_mpi* X)
{
    if (X == nullptr)
        return;
    X->s = 1;
    X->n = 0;
    X->p = nullptr;
}
void mbedtls_mpi_free(mbedtls_mpi* X)
{
    if (X == nullptr)
        return;
    free(X->p);
    X->s = 1;
    X->n = 0;
    X->p = nullptr;
}
int mbedtls_mpi_grow(mbedtls_mpi* X, size_t n) { return n && X->p == nullptr ? mm_set(X, 0) : 0; }
int mbedtls_mpi_shrink(mbedtls_mpi* X, size_t) { return X->p == nullptr ? mm_set(X, 0) : 0; }
int mbedtls_mpi_copy(mbedtls_mpi* X, const mbedtls_mpi* Y)
{
    if (X == Y)
        return 0;
    if (Y->p == nullptr) {
        mbedtls_mpi_free(X);
        return 0;
    }
    return mm_set(X, mm_get(Y), mm_bound(Y));
}
void mbedtls_mpi_swap(mbedtls_mpi* X, mbedtls_mpi* Y)
{
    mbedtls_mpi t = *X;
    *X            = *Y;
    *Y            = t;
}
int mbedtls_mpi_safe_cond_assign(mbedtls_mpi* X, const mbedtls_mpi* Y, unsigned char a)
{
    return mm_set(X, (int64_t)vp_ite(a != 0, (uint64_t)mm_get(Y), (uint64_t)mm_get(X)));
}
int mbedtls_mpi_safe_cond_swap(mbedtls_mpi* X, mbedtls_mpi* Y, unsigned char a)
{
    int64_t x = mm_get(X), y = mm_get(Y);
    mm_set(X, (int64_t)vp_ite(a != 0, (uint64_t)y, (uint64_t)x));
    return mm_set(Y, (int64_t)vp_ite(a != 0, (uint64_t)x, (uint64_t)y));
}
int    mbedtls_mpi_lset(mbedtls_mpi* X, mbedtls_mpi_sint z) { return mm_set(X, z); }
size_t mbedtls_mpi_bitlen(const mbedtls_mpi* X) { return mm_bits(mm_get(X)) * kScale; }
size_t mbedtls_mpi_size(const mbedtls_mpi* X) { return (mbedtls_mpi_bitlen(X) + 7) / 8; }
// big-endian; a string whose bytes above the last five are not all zero stands for some large number, a function of the string
int mbedtls_mpi_read_binary(mbedtls_mpi* X, const unsigned char* buf, size_t n)
{
    uint64_t low = 0;
    int      hi  = 0;
    for (size_t i = 0; i < n; i++)
        if (n - i <= 5)
            low = low << 8 | buf[i];
        else
            hi |= buf[i] != 0;
    uint8_t d[64] = {0};
    if (n > 5)
        o_hash(buf, n, d);
    uint64_t big = (uint64_t)d[0] << 8 | d[1];
    if (n > 256 && !(vp_const((uint64_t)hi) && hi == 0)) // PRF output or fresh randomness
        return mm_set(X, (int64_t)big, 0xffff);
    int small = vp_const((uint64_t)hi) && hi == 0;
    int low2  = small;
    for (size_t i = 0; i + 2 < n; i++)
        low2 = low2 && vp_const(buf[i]) && buf[i] == 0;
    int low1 = low2 && (n < 2 || (vp_const(buf[n - 2]) && buf[n - 2] == 0));
    return mm_set(X, (int64_t)vp_ite(hi, big + (1u << 12), low), low1 ? 0xff : low2 ? 0xffff : small ? (1ull << 40) : kMaxVal);
}
int mbedtls_mpi_write_binary(const mbedtls_mpi* X, unsigned char* buf, size_t n)
{
    uint64_t bb = mm_bound(X), w = 0;
    while (bb >> w)
        w++;
    if (w * kScale > n * 8 && mbedtls_mpi_size(X) > n)
        return MBEDTLS_ERR_MPI_BUFFER_TOO_SMALL;
    uint64_t v = (uint64_t)mm_abs(mm_get(X));
    for (size_t i = 0; i < n; i++)
        buf[n - 1 - i] = i < 8 ? (uint8_t)(v >> (8 * i)) : 0;
    return 0;
}
int mbedtls_mpi_cmp_abs(const mbedtls_mpi* X, const mbedtls_mpi* Y)
{
    int64_t x = mm_abs(mm_get(X)), y = mm_abs(mm_get(Y));
    return (int)(int64_t)vp_ite(x > y, 1, vp_ite(x < y, (uint64_t)(int64_t)-1, 0));
}
int mbedtls_mpi_cmp_mpi(const mbedtls_mpi* X, const mbedtls_mpi* Y)
{
    int64_t x = mm_get(X), y = mm_get(Y);
    return (int)(int64_t)vp_ite(x > y, 1, vp_ite(x < y, (uint64_t)(int64_t)-1, 0));
}
int mbedtls_mpi_cmp_int(const mbedtls_mpi* X, mbedtls_mpi_sint y)
{
    int64_t x = mm_get(X);
    return (int)(int64_t)vp_ite(x > y, 1, vp_ite(x < y, (uint64_t)(int64_t)-1, 0));
}
int mbedtls_mpi_add_mpi(mbedtls_mpi* X, const mbedtls_mpi* A, const mbedtls_mpi* B) { return mm_set(X, mm_get(A) + mm_get(B), mm_badd(mm_bound(A), mm_bound(B))); }
int mbedtls_mpi_sub_mpi(mbedtls_mpi* X, const mbedtls_mpi* A, const mbedtls_mpi* B) { return mm_set(X, mm_get(A) - mm_get(B), mm_badd(mm_bound(A), mm_bound(B))); }
int mbedtls_mpi_add_abs(mbedtls_mpi* X, const mbedtls_mpi* A, const mbedtls_mpi* B) { return mm_set(X, mm_abs(mm_get(A)) + mm_abs(mm_get(B))); }
int mbedtls_mpi_sub_abs(mbedtls_mpi* X, const mbedtls_mpi* A, const mbedtls_mpi* B)
{
    if (mbedtls_mpi_cmp_abs(A, B) < 0)
        return MBEDTLS_ERR_MPI_NEGATIVE_VALUE;
    return mm_set(X, mm_abs(mm_get(A)) - mm_abs(mm_get(B)));
}
int mbedtls_mpi_add_int(mbedtls_mpi* X, const mbedtls_mpi* A, mbedtls_mpi_sint b) { return mm_set(X, mm_get(A) + b, vp_const((uint64_t)b) ? mm_badd(mm_bound(A), (uint64_t)(b < 0 ? -b : b)) : kMaxVal); }
int mbedtls_mpi_sub_int(mbedtls_mpi* X, const mbedtls_mpi* A, mbedtls_mpi_sint b) { return mm_set(X, mm_get(A) - b, vp_const((uint64_t)b) ? mm_badd(mm_bound(A), (uint64_t)(b < 0 ? -b : b)) : kMaxVal); }
static int mm_mul(mbedtls_mpi* X, int64_t a, uint64_t ba, int64_t b, uint64_t bb)
{
    uint64_t bound = mm_bmul(ba, bb);
    if (bound < (1u << 16)) { // narrow product of the magnitudes
        uint32_t m = (uint32_t)((uint32_t)(uint16_t)mm_abs(a) * (uint32_t)(uint16_t)mm_abs(b)) & 0xffff;
        int      n = (a < 0) ^ (b < 0);
        return mm_set(X, (int64_t)vp_ite(n, (uint64_t)-(int64_t)m, m), bound);
    }
    return mm_set(X, a * b, bound);
}
int mbedtls_mpi_mul_mpi(mbedtls_mpi* X, const mbedtls_mpi* A, const mbedtls_mpi* B) { return mm_mul(X, mm_get(A), mm_bound(A), mm_get(B), mm_bound(B)); }
int mbedtls_mpi_mul_int(mbedtls_mpi* X, const mbedtls_mpi* A, mbedtls_mpi_uint b) { return mm_mul(X, mm_get(A), mm_bound(A), (int64_t)b, vp_const(b) ? b : kMaxVal); }
int mbedtls_mpi_div_mpi(mbedtls_mpi* Q, mbedtls_mpi* R, const mbedtls_mpi* A, const mbedtls_mpi* B)
{
    int64_t a = mm_get(A), b = mm_get(B);
    if (b == 0)
        return MBEDTLS_ERR_MPI_DIVISION_BY_ZERO;
    if (Q)
        mm_set(Q, a / b);
    if (R)
        mm_set(R, a % b);
    return 0;
}
int mbedtls_mpi_div_int(mbedtls_mpi* Q, mbedtls_mpi* R, const mbedtls_mpi* A, mbedtls_mpi_sint b)
{
    int64_t a = mm_get(A);
    if (b == 0)
        return MBEDTLS_ERR_MPI_DIVISION_BY_ZERO;
    if (Q)
        mm_set(Q, a / b);
    if (R)
        mm_set(R, a % b);
    return 0;
}
static int64_t mm_mod(int64_t a, uint64_t bound, int64_t m) // m literal, > 0; result in [0,m)
{
    uint64_t v = (uint64_t)mm_abs(a), r;
    if (bound < 256 && m < 256)
        r = (uint8_t)v % (uint8_t)m;
    else if (bound < 65536 && m < 65536)
        r = (uint16_t)v % (uint16_t)m;
    else if (bound < (1u << 24) && m < (1u << 24))
        r = (uint32_t)v % (uint32_t)m;
    else
        r = v % (uint64_t)m;
    return (int64_t)vp_ite((a < 0) & (r != 0), (uint64_t)m - r, r);
}
int mbedtls_mpi_mod_mpi(mbedtls_mpi* R, const mbedtls_mpi* A, const mbedtls_mpi* B)
{
    int64_t m = mm_get(B);
    if (m < 0)
        return MBEDTLS_ERR_MPI_NEGATIVE_VALUE;
    if (m == 0)
        return MBEDTLS_ERR_MPI_DIVISION_BY_ZERO;
    m = (int64_t)vp_concretize((uint64_t)m);
    return mm_set(R, mm_mod(mm_get(A), mm_bound(A), m), (uint64_t)m - 1);
}
int mbedtls_mpi_mod_int(mbedtls_mpi_uint* r, const mbedtls_mpi* A, mbedtls_mpi_sint b)
{
    if (b == 0)
        return MBEDTLS_ERR_MPI_DIVISION_BY_ZERO;
    if (b < 0)
        return MBEDTLS_ERR_MPI_NEGATIVE_VALUE;
    *r = (mbedtls_mpi_uint)mm_mod(mm_get(A), mm_bound(A), b);
    return 0;
}
// least exponents from which x^e mod m is periodic in e for every x, and the period
static void mm_period(uint64_t m, uint64_t& start, uint64_t& period)
{
    start  = 8; // 2^8 exceeds every multiplicity for m < 2^8
    period = 1;
    for (uint64_t x = 1; x < m; x++) {
        if (mm_gcd(x, m) != 1)
            continue;
        uint64_t o = 1, y = x;
        while (y != 1) {
            y = y * x % m;
            o++;
        }
        period = period / mm_gcd(period, o) * o;
    }
}
int mbedtls_mpi_exp_mod(mbedtls_mpi* X, const mbedtls_mpi* A, const mbedtls_mpi* E, const mbedtls_mpi* N, mbedtls_mpi* RR)
{
    int64_t n = mm_get(N), e = mm_get(E);
    if (n <= 0 || (n & 1) == 0 || e < 0)
        return MBEDTLS_ERR_MPI_BAD_INPUT_DATA;
    n = (int64_t)vp_concretize((uint64_t)n);
    if ((uint64_t)n > 255)
        return MBEDTLS_ERR_MPI_ALLOC_FAILED; // outside the model
    uint64_t a = (uint64_t)mm_mod(mm_get(A), mm_bound(A), n);
    if (RR != nullptr) {
        // the helper value depends on the modulus: reusing one of another modulus is an error of the caller
        if (RR->p == nullptr)
            mm_set(RR, n);
        else
            vp_assert(mm_get(RR) == n, "Montgomery helper value of another modulus reused");
    }
    uint64_t start, period;
    mm_period((uint64_t)n, start, period);
    uint64_t er = (uint64_t)e;
    er          = vp_ite(er < start + period, er, start + (er - start) % period);
    // symbolic exponents are few: table over (base, exponent)
    uint64_t             cols = start + period, rows = (uint64_t)n;
    std::vector<uint8_t> t;
    uint64_t             ec = vp_const(er) ? er : cols;
    if (ec != cols) {
        t.resize(rows);
        for (uint64_t i = 0; i < rows; i++)
            t[i] = (uint8_t)mm_powmod(i, ec, rows);
        return mm_set(X, (int64_t)mm_lookup(t.data(), rows, a), rows - 1);
    }
    t.resize(rows * cols);
    for (uint64_t i = 0; i < rows; i++)
        for (uint64_t j = 0; j < cols; j++)
            t[i * cols + j] = (uint8_t)mm_powmod(i, j, rows);
    return mm_set(X, (int64_t)mm_lookup(t.data(), rows * cols, a * cols + er), rows - 1);
}
int mbedtls_mpi_fill_random(mbedtls_mpi* X, size_t n, int (*f_rng)(void*, unsigned char*, size_t), void* p_rng)
{
    std::vector<uint8_t> b(n ? n : 1);
    int                  ret = f_rng(p_rng, b.data(), n);
    if (ret != 0)
        return ret;
    g_random_calls++;
    if (n > 256)
        return mbedtls_mpi_read_binary(X, b.data(), n);
    // exhaustive case split over the small ranges blinding values are drawn from
    // (an unusable value is drawn at most once, so that the generator's retry limit is not reached)
    if (n == 255 && g_retries++ > 0)
        vp_assume((b[n - 1] & kBlindMask) == 2);
    if (n != 255 && g_exp_draws++ >= kMaxExpDraws)
        vp_assume((b[n - 1] & kExpBlindMask) == 1);
    uint64_t v = vp_concretize(b[n - 1] & (n == 255 ? kBlindMask : kExpBlindMask));
    return mm_set(X, (int64_t)v); // 255 bytes: one less than the modulus; 28 bytes: exponent blinding
}
int mbedtls_mpi_gcd(mbedtls_mpi* G, const mbedtls_mpi* A, const mbedtls_mpi* B)
{
    uint64_t a = (uint64_t)mm_abs(mm_get(A)), b = vp_concretize((uint64_t)mm_abs(mm_get(B)));
    if (vp_const(a) || b > 255)
        return mm_set(G, (int64_t)mm_gcd(vp_concretize(a), b));
    std::vector<uint8_t> t(b ? b : 1);
    for (uint64_t i = 0; i < b; i++)
        t[i] = (uint8_t)mm_gcd(i, b);
    return mm_set(G, (int64_t)mm_lookup(t.data(), b, a % b), b);
}
int mbedtls_mpi_inv_mod(mbedtls_mpi* X, const mbedtls_mpi* A, const mbedtls_mpi* N)
{
    int64_t n = mm_get(N);
    if (n <= 1)
        return MBEDTLS_ERR_MPI_BAD_INPUT_DATA;
    n          = (int64_t)vp_concretize((uint64_t)n);
    uint64_t a = (uint64_t)mm_mod(mm_get(A), mm_bound(A), n);
    std::vector<uint8_t> t((size_t)n);
    for (int64_t i = 0; i < n; i++)
        for (int64_t j = 0; j < n; j++)
            if (i * j % n == 1 % n)
                t[(size_t)i] = (uint8_t)j;
    uint64_t r = mm_lookup(t.data(), (uint64_t)n, a);
    if (r == 0)
        return MBEDTLS_ERR_MPI_NOT_ACCEPTABLE;
    return mm_set(X, (int64_t)r, (uint64_t)n - 1);
}
int mbedtls_mpi_get_bit(const mbedtls_mpi* X, size_t pos) { return pos < 48 ? (int)((uint64_t)mm_abs(mm_get(X)) >> pos & 1) : 0; }
int mbedtls_mpi_shift_l(mbedtls_mpi* X, size_t c) { return mm_set(X, mm_get(X) << c); }
int mbedtls_mpi_shift_r(mbedtls_mpi* X, size_t c)
{
    int64_t v = mm_get(X);
    return mm_set(X, (int64_t)vp_ite(v < 0, (uint64_t)-(int64_t)((uint64_t)-v >> c), (uint64_t)v >> c));
}
static int mm_prime(uint64_t v)
{
    if (v < 2)
        return 0;
    for (uint64_t d = 2; d * d <= v; d++)
        if (v % d == 0)
            return 0;
    return 1;
}
int mbedtls_mpi_is_prime(const mbedtls_mpi* X, int (*)(void*, unsigned char*, size_t), void*)
{
    return mm_prime(vp_concretize((uint64_t)mm_abs(mm_get(X)))) ? 0 : MBEDTLS_ERR_MPI_NOT_ACCEPTABLE;
}
int mbedtls_mpi_gen_prime(mbedtls_mpi* X, size_t nbits, int, int (*f_rng)(void*, unsigned char*, size_t), void* p_rng)
{
    uint8_t b[1];
    int     ret = f_rng(p_rng, b, 1);
    if (ret != 0)
        return ret;
    if (g_primes++ >= 4)
        vp_assume(b[0] == (g_primes & 1 ? 13 : 11));
    if (nbits % kScale || nbits / kScale < 3 || nbits / kScale > 7)
        return MBEDTLS_ERR_MPI_BAD_INPUT_DATA;
    uint64_t k = nbits / kScale, v = vp_concretize(b[0] & ((1u << k) - 1));
    vp_assume((v >> (k - 1)) == 1 && mm_prime(v));
    return mm_set(X, (int64_t)v);
}
}
