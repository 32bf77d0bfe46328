// C16: the trapdoor permutation, over the small-integer model of bignum.c
#include "mpimodel.hpp"
#include "mbedtls/rsa.h"
#include "mbedtls/rsa_io.h"
#include "prf.hpp"
#include "tdp.hpp"
#include "tdp_impl/tdp_impl.hpp"
#include "wrapper.hpp"
using namespace sse::crypto;
static const size_t K = Tdp::kMessageSize;
typedef std::array<uint8_t, K> Msg;

struct KeyDef { uint8_t p, q, e, maxpool; };
// moduli of 8 bits (kScale 256), then of 6 bits (kScale 341): 256 bytes for the code under test; maxpool is the largest k with e^k < n
static const KeyDef kKeys8[] = {{23, 11, 3, 5}, {13, 11, 7, 2}, {11, 17, 3, 4}, {17, 13, 5, 3}, {47, 5, 3, 4}, {5, 29, 9, 2}, {31, 7, 11, 2}, {19, 13, 5, 3}};
static const KeyDef  kKeys6[] = {{11, 5, 3, 3}, {7, 5, 5, 2}, {17, 3, 3, 3}, {3, 13, 5, 2}, {11, 3, 3, 3}, {3, 19, 5, 2}, {13, 3, 7, 1}, {5, 11, 7, 2}};
static const uint64_t kNKeys = 8;
static const KeyDef*  kKeys  = kKeys8;

static uint64_t inv(uint64_t a, uint64_t m)
{
    for (uint64_t i = 1; i < m; i++)
        if (a * i % m == 1 % m)
            return i;
    return 0;
}
static uint64_t lambda(const KeyDef& k) { return (uint64_t)(k.p - 1) * (k.q - 1) / mm_gcd(k.p - 1, k.q - 1); }
static void rsa_of(const KeyDef& k, mbedtls_rsa_context* c, int full)
{
    mbedtls_rsa_init(c, 0, 0);
    uint64_t phi = (uint64_t)(k.p - 1) * (k.q - 1), d = inv(k.e % phi, phi);
    mbedtls_mpi_lset(&c->N, (int64_t)k.p * k.q);
    mbedtls_mpi_lset(&c->E, k.e);
    c->len = mbedtls_mpi_size(&c->N);
    if (!full)
        return;
    mbedtls_mpi_lset(&c->D, (int64_t)d);
    mbedtls_mpi_lset(&c->P, k.p);
    mbedtls_mpi_lset(&c->Q, k.q);
    mbedtls_mpi_lset(&c->DP, (int64_t)(d % (k.p - 1)));
    mbedtls_mpi_lset(&c->DQ, (int64_t)(d % (k.q - 1)));
    mbedtls_mpi_lset(&c->QP, (int64_t)inv(k.q, k.p));
}
static std::string pem_of(const KeyDef& k, int priv)
{
    mbedtls_rsa_context c;
    rsa_of(k, &c, priv);
    static unsigned char buf[6000];
    int                  r = priv ? mbedtls_rsa_write_key_pem(&c, buf, sizeof(buf)) : mbedtls_rsa_write_pubkey_pem(&c, buf, sizeof(buf));
    vp_assert(r == 0, "key export failed");
    mbedtls_rsa_free(&c);
    return std::string((char*)buf);
}
static Msg msg(uint64_t v)
{
    Msg m;
    for (size_t i = 0; i < K; i++)
        m[K - 1 - i] = i < 2 ? (uint8_t)(v >> (8 * i)) : 0;
    return m;
}
static std::string str(const Msg& m) { return std::string(m.begin(), m.end()); }
// x^e mod n by table
static uint64_t o_pow(uint64_t x, uint64_t e, uint64_t n)
{
    std::vector<uint8_t> t(n);
    for (uint64_t i = 0; i < n; i++)
        t[i] = (uint8_t)mm_powmod(i, e, n);
    return vp_norm(vp_table(t.data(), n, x % n));
}
static uint64_t o_inv_exp(const KeyDef& k, uint64_t order) // exponent of the order-fold inverse, in [1, lambda]
{
    uint64_t l = lambda(k), d = inv(k.e % l, l);
    uint64_t r = mm_powmod(d, order, l);
    return r ? r : l;
}
static void same(const Msg& a, const Msg& b, const char* m) { vp_assert_eq(a.data(), b.data(), K, m); }
static void same(const std::string& a, const Msg& b, const char* m)
{
    vp_assert(a.size() == K, "result has the wrong size");
    if (a.size() == K)
        vp_assert_eq(a.data(), b.data(), K, m);
}
template<class F>
static int throws(F f)
{
    try {
        f();
    } catch (const std::exception&) {
        return 1;
    }
    return 0;
}
// the public permutation
template<class T>
static void check_public(const T& t, uint64_t x, const Msg& want, const char* m)
{
    Msg         in = msg(x);
    std::string out("stale");
    same(t.eval(in), want, m);
    same(t.eval(str(in)), want, m);
    t.eval(str(in), out);
    same(out, want, m);
}
static void check_inverse(const TdpInverse& t, uint64_t y, const Msg& want, const char* m)
{
    Msg         in = msg(y);
    std::string out("stale");
    same(t.invert(in), want, m);
    same(t.invert(str(in)), want, m);
    t.invert(str(in), out);
    same(out, want, m);
}
static void check_mult(const TdpInverse& t, uint64_t y, uint32_t order, const Msg& want, const char* m)
{
    Msg         in = msg(y);
    std::string out("stale");
    same(t.invert_mult(in, order), want, m);
    same(t.invert_mult(str(in), order), want, m);
    t.invert_mult(str(in), out, order);
    same(out, want, m);
}
static void check_pool(const TdpMultPool& t, uint64_t x, uint8_t order, const Msg& want, const char* m)
{
    Msg         in = msg(x);
    std::string out("stale");
    same(t.eval(in, order), want, m);
    same(t.eval(str(in), order), want, m);
    t.eval(str(in), out, order);
    same(out, want, m);
}
static uint64_t prf_mod(const uint8_t* key, const std::string& seed, uint64_t n)
{
    std::vector<uint8_t> r(Tdp::kRSAPrfSize);
    o_prf(key, u8(seed), seed.size(), r.data(), r.size());
    mbedtls_mpi m;
    mbedtls_mpi_init(&m);
    mbedtls_mpi_read_binary(&m, r.data(), r.size());
    uint64_t v = (uint64_t)mm_get(&m) % n;
    mbedtls_mpi_free(&m);
    return v;
}
template<class T>
static void check_gen(const T& t, uint64_t n)
{
    uint8_t kb[32];
    vp_sym(kb, 32, "key");
    Buf                    sb((size_t)vp_concretize(vp_range("seedlen", 0, 3)), "seed");
    std::string            seed = sb.str();
    Msg                    want = msg(prf_mod(kb, seed, n));
    Prf<Tdp::kRSAPrfSize> prf(mkkey<32>(kb));
    same(t.generate_array(prf, seed), want, "generate is not the PRF output modulo N");
    same(t.generate(prf, seed), want, "generate is not the PRF output modulo N");
    same(t.generate_array(mkkey<32>(kb), seed), want, "generate from a key is not the PRF output modulo N");
    same(t.generate(mkkey<32>(kb), seed), want, "generate from a key is not the PRF output modulo N");
    for (int i = 0; i < 2; i++) {
        uint64_t r0 = vp_rnd_count();
        Msg      s;
        if (i == 0)
            s = t.sample_array();
        else {
            std::string ss = t.sample();
            vp_assert(ss.size() == K, "sample has the wrong size");
            memcpy(s.data(), ss.data(), K);
        }
        vp_assert(vp_rnd_count() - r0 >= Tdp::kRSAPrfSize, "sample draws too little randomness");
        uint64_t v = (uint64_t)s[K - 2] << 8 | s[K - 1];
        vp_assert(v < n, "sample is not reduced modulo N");
        for (size_t j = 0; j + 2 < K; j++)
            if (s[j] != 0)
                vp_assert(0, "sample is not reduced modulo N");
    }
}
extern "C" void vp_main(void)
{
    uint64_t mode = vp_param("mode", 0);
    if (mode == 6) { // key generation
        mbedtls_rsa_context c;
        mbedtls_rsa_init(&c, 0, 0);
        uint64_t e = vp_param("e", 7), bits = vp_param("bits", 8);
        int      r = mbedtls_rsa_gen_key(
            &c,
            [](void*, unsigned char* b, size_t n) {
                vp_sym(b, n, "prime");
                return 0;
            },
            nullptr, (unsigned)(bits * kScale), (int)e);
        vp_assert(r == 0, "key generation failed");
        uint64_t N = (uint64_t)mm_get(&c.N), P = (uint64_t)mm_get(&c.P), Q = (uint64_t)mm_get(&c.Q), D = (uint64_t)mm_get(&c.D);
        vp_assert(P != Q && P * Q == N, "modulus is not the product of two distinct primes");
        vp_assert(mm_bits((int64_t)N) == bits && c.len * 8 == bits * kScale, "modulus has the wrong size");
        vp_assert((uint64_t)mm_get(&c.E) == e && e * D % ((P - 1) * (Q - 1)) == 1, "exponents do not match");
        vp_assert((uint64_t)mm_get(&c.DP) == D % (P - 1) && (uint64_t)mm_get(&c.DQ) == D % (Q - 1), "CRT exponents do not match");
        vp_assert((uint64_t)mm_get(&c.QP) * Q % P == 1 % P, "CRT coefficient does not match");
        mbedtls_rsa_free(&c);
        vp_cover("end");
        return;
    }
    if (mode == 8) {
        kScale = vp_param("scale", 256);
        kKeys  = kKeys6;
    } else if (vp_param("bits", 8) == 6) {
        kScale = 341;
        kKeys  = kKeys6;
    }
    uint64_t ki = vp_param("key", kNKeys);
    if (ki >= kNKeys)
        ki = vp_concretize(vp_range("keyindex", 0, kNKeys - 1));
    const KeyDef& k = kKeys[ki];
    uint64_t      n = (uint64_t)k.p * k.q, big = vp_param("big", 0);
    uint8_t       xb;
    vp_sym(&xb, 1, "message");
    uint64_t x = vp_norm((uint64_t)xb + big); // big: also messages that are not reduced modulo N
    if (!big)
        vp_assume(x < n);
    std::string sk = pem_of(k, 1), pk = pem_of(k, 0);
    if (mode == 0) { // evaluation and inversion
        TdpInverse inv(sk);
        Tdp        pub(pk);
        vp_assert(inv.public_key() == pk && pub.public_key() == pk && inv.private_key() == sk, "exported keys differ from the imported ones");
        uint64_t y = o_pow(x, k.e, n);
        check_public(pub, x, msg(y), "public evaluation is wrong");
        check_public(inv, x, msg(y), "public evaluation with the private key is wrong");
        if (x < n) {
            check_inverse(inv, y, msg(x), "inversion does not undo the evaluation");
            uint64_t z = o_pow(x, o_inv_exp(k, 1), n);
            check_inverse(inv, x, msg(z), "inversion is wrong");
            check_public(pub, z, msg(x), "evaluation does not undo the inversion");
            vp_cover("inv");
        } else {
            // not an element: either refused, or treated as its residue
            Msg in = msg(x), z;
            int ok = 1;
            try {
                z = inv.invert(in);
            } catch (const std::exception&) {
                ok = 0;
            }
            if (ok)
                same(z, msg(o_pow(x, o_inv_exp(k, 1), n)), "inversion of an unreduced message is wrong");
        }
    } else if (mode == 1) { // multiple inversions
        TdpInverse inv(sk);
        uint64_t   lo = vp_param("lo", 0), hi = vp_param("hi", 7), sh = vp_param("shift", 0);
        uint32_t   order = (uint32_t)(vp_concretize(vp_range("order", lo, hi)) << sh) + (uint32_t)vp_param("plus", 0);
        if (x < n || order) {
            Msg want = order ? msg(o_pow(x, o_inv_exp(k, order), n)) : msg(x);
            check_mult(inv, x, order, want, "inverting several times at once differs from successive inversions");
        }
        if (x < n && order <= 3) {
            Msg m = msg(x);
            for (uint32_t i = 0; i < order; i++)
                m = inv.invert(m);
            same(inv.invert_mult(msg(x), order), m, "inverting several times at once differs from successive inversions");
        }
    } else if (mode == 2) { // pools
        uint64_t size = vp_concretize(vp_range("size", 1, k.maxpool));
        TdpMultPool pool(pk, (uint8_t)size);
        Tdp         pub(pk);
        vp_assert(pool.maximum_order() == size, "pool reports the wrong maximum order");
        vp_assert(pool.public_key() == pk, "pool exports another key");
        uint64_t order = vp_concretize(vp_range("order", 1, size)), ex = 1;
        for (uint64_t i = 0; i < order; i++)
            ex *= k.e;
        Msg want = msg(o_pow(x, ex, n));
        check_pool(pool, x, (uint8_t)order, want, "pool evaluation differs from successive evaluations");
        check_public(pool, x, msg(o_pow(x, k.e, n)), "pool evaluation of order one is wrong");
        Msg m = msg(x);
        for (uint64_t i = 0; i < order; i++)
            m = pub.eval(m);
        same(m, want, "successive evaluations are wrong");
        TdpMultPool copy(pool);
        check_pool(copy, x, (uint8_t)order, want, "a copied pool computes something else");
        const KeyDef& k2 = kKeys[(ki + 1) % kNKeys];
        TdpMultPool   other(pem_of(k2, 0), (uint8_t)vp_concretize(vp_range("size2", 1, k2.maxpool)));
        other = pool;
        vp_assert(other.maximum_order() == size && other.public_key() == pk, "an assigned pool differs");
        check_pool(other, x, (uint8_t)order, want, "an assigned pool computes something else");
        TdpMultPool& alias = other;
        other              = alias;
        check_pool(other, x, (uint8_t)order, want, "a pool assigned to itself computes something else");
        check_pool(pool, x, (uint8_t)order, want, "copying a pool changed it");
        uint8_t bad = (uint8_t)vp_range("badorder", 0, 255);
        if (bad == 0 || bad > size) {
            Msg         in = msg(1);
            std::string out;
            vp_assert(throws([&] { pool.eval(in, bad); }), "pool accepts an unsupported order");
            vp_assert(throws([&] { pool.eval(str(in), bad); }), "pool accepts an unsupported order");
            vp_assert(throws([&] { copy.eval(str(in), out, bad); }), "pool accepts an unsupported order");
        }
        vp_assert(throws([&] { TdpMultPool z(pk, 0); }), "pool of size zero accepted");
    } else if (mode == 3) { // wrong sizes
        TdpInverse  inv(sk);
        Tdp         pub(pk);
        TdpMultPool pool(pk, k.maxpool);
        uint64_t    which = vp_concretize(vp_range("which", 0, 6));
        size_t      len   = which == 0 ? 0 : which == 1 ? 1 : which == 2 ? 255 : which == 3 ? 257 : which == 4 ? 512 : which == 5 ? 128 : 264;
        Buf         b(len, "in");
        std::string in = b.str(), out("kept");
        vp_assert(throws([&] { pub.eval(in); }) && throws([&] { pub.eval(in, out); }), "evaluation accepts a message of the wrong size");
        vp_assert(throws([&] { inv.eval(in); }) && throws([&] { inv.eval(in, out); }), "evaluation accepts a message of the wrong size");
        vp_assert(throws([&] { inv.invert(in); }) && throws([&] { inv.invert(in, out); }), "inversion accepts a message of the wrong size");
        for (uint32_t o = 0; o < 4; o++)
            vp_assert(throws([&] { inv.invert_mult(in, o); }) && throws([&] { inv.invert_mult(in, out, o); }), "multiple inversion accepts a message of the wrong size");
        vp_assert(throws([&] { pool.eval(in); }) && throws([&] { pool.eval(in, out); }), "pool accepts a message of the wrong size");
        vp_assert(throws([&] { pool.eval(in, k.maxpool); }) && throws([&] { pool.eval(in, out, 1); }), "pool accepts a message of the wrong size");
    } else if (mode == 4) { // copies, assignment, re-import
        const KeyDef& k2 = kKeys[(ki + 1) % kNKeys];
        Msg           want = msg(o_pow(x, k.e, n)), winv = msg(o_pow(x, o_inv_exp(k, 1), n)), winv2 = msg(o_pow(x, o_inv_exp(k, 2), n));
        TdpInverse    inv(sk);
        Tdp           a(inv.public_key()), b(a), c(pem_of(k2, 0));
        check_public(c, 2, msg(mm_powmod(2, k2.e, (uint64_t)k2.p * k2.q)), "evaluation is wrong");
        c = a;
        check_public(b, x, want, "a copied key computes something else");
        check_public(c, x, want, "an assigned key computes something else");
        vp_assert(b.public_key() == pk && c.public_key() == pk, "a copied key exports something else");
        Tdp& alias = c;
        c          = alias;
        check_public(c, x, want, "a key assigned to itself computes something else");
        {
            Tdp d(c), e2(b);
            d = e2;
        }
        check_public(c, x, want, "destroying a copy changed the original");
        inv.invert(msg(1)); // sets up blinding
        Tdp f(inv.public_key());
        check_public(f, x, want, "a re-imported public key computes something else");
        TdpInverse re(inv.private_key());
        same(re.invert(msg(x)), winv, "a re-imported private key computes something else");
        same(re.invert_mult(msg(x), 2), winv2, "a re-imported private key computes something else");
        TdpInverse mv(std::move(re));
        same(mv.invert(msg(x)), winv, "a moved private key computes something else");
        same(mv.eval(msg(x)), want, "a moved private key computes something else");
        same(inv.invert(msg(x)), winv, "a second inversion is wrong");
        vp_assert(mv.private_key() == sk && mv.public_key() == pk && inv.private_key() == sk, "a re-imported private key exports something else");
    } else if (mode == 5) { // generate, sample
        uint64_t w = vp_concretize(vp_range("class", 0, 2));
        if (w == 0)
            check_gen(Tdp(pk), n);
        else if (w == 1)
            check_gen(TdpInverse(sk), n);
        else
            check_gen(TdpMultPool(pk, k.maxpool), n);
    } else if (mode == 7) { // wrapping
        uint8_t kb[32];
        vp_sym(kb, 32, "wkey");
        Wrapper              w(mkkey<32>(kb));
        TdpInverse           inv(sk);
        std::vector<uint8_t> v = w.wrap(inv);
        TdpInverse           u = w.unwrap<TdpInverse>(v);
        vp_assert(u.private_key() == sk && u.public_key() == pk, "the unwrapped private key differs");
        same(u.invert(msg(x)), msg(o_pow(x, o_inv_exp(k, 1), n)), "the unwrapped private key computes something else");
        same(u.invert_mult(msg(x), 3), msg(o_pow(x, o_inv_exp(k, 3), n)), "the unwrapped private key computes something else");
    } else if (mode == 8) { // keys whose modulus does not have the size of a message: refused at once, or with every message
        vp_cover("key");
        Msg         in = msg(x);
        std::string si = str(in), out;
        try {
            Tdp pub(pk);
            vp_assert(throws([&] { pub.eval(in); }) && throws([&] { pub.eval(si); }), "evaluation with a key of another size");
        } catch (const std::exception&) {
        }
        try {
            TdpInverse t(sk);
            vp_assert(throws([&] { t.eval(in); }) && throws([&] { t.eval(si); }), "evaluation with a key of another size");
            vp_assert(throws([&] { t.invert(in); }) && throws([&] { t.invert(si); }), "inversion with a key of another size");
            vp_assert(throws([&] { t.invert_mult(in, 2); }) && throws([&] { t.invert_mult(si, 2); }), "multiple inversion with a key of another size");
        } catch (const std::exception&) {
        }
        try {
            TdpMultPool p(pk, k.maxpool);
            vp_assert(throws([&] { p.eval(in); }) && throws([&] { p.eval(si); }), "evaluation with a key of another size");
            vp_assert(throws([&] { p.eval(in, 1); }) && throws([&] { p.eval(si, 1); }), "evaluation with a key of another size");
        } catch (const std::exception&) {
        }
    }
    vp_cover("end");
}
