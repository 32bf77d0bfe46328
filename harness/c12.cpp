// C12 (key memory protection) and C13 (key ownership)
#include "oracle.hpp"
#include "cipher.hpp"
#include "hash.hpp"
#include "hash/sha512.hpp"
#include "hmac.hpp"
#include "prf.hpp"
#include "prg.hpp"
#include "prp.hpp"
#include "rcprf.hpp"
#include "utils.hpp"
#include "wrapper.hpp"
using namespace sse::crypto;
typedef std::vector<uint8_t> bytes;

template<class F>
static bool throws(F f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
// after an operation: `n` key blocks exist, none of them accessible
static void locked(uint64_t n, const char* msg)
{
    vp_assert(vp_sodium_unlocked() == 0, msg);
    vp_assert(vp_sodium_live() == n, "number of protected key blocks is not the number of live keys");
}
#define LOCKED(n, op) locked(n, op " leaves key memory accessible")
static void released(uint64_t before)
{
    vp_assert(vp_sodium_live() == before, "protected memory not released exactly once");
}
struct Stop : std::exception {};

static void k_cipher(size_t n)
{
    uint8_t k[32];
    vp_sym(k, 32, "key");
    {
        Cipher c(mkkey<32>(k));
        LOCKED(1, "constructing a cipher");
        Buf         m(n, "msg");
        std::string in((const char*)m.p, n), out, dec;
        bool        t = throws([&] { c.encrypt(in, out); });
        vp_assert(t == (n == 0), "encryption of a non-empty message fails");
        LOCKED(1, "encryption");
        if (n) {
            c.decrypt(out, dec);
            LOCKED(1, "decryption");
        }
        std::string forged(n + 30, 'x');
        Buf         f(n + 30, "forged");
        memcpy(&forged[0], f.p, n + 30);
        throws([&] { c.decrypt(forged, dec); });
        LOCKED(1, "decryption of an arbitrary ciphertext");
        std::array<uint8_t, 5>  ain;
        std::array<uint8_t, 37> aout;
        vp_sym(ain.data(), 5, "amsg");
        c.encrypt(ain, aout);
        LOCKED(1, "array encryption");
        vp_sym(aout.data(), 37, "aforged");
        throws([&] { c.decrypt(aout, ain); });
        LOCKED(1, "array decryption");
        Cipher d(std::move(c));
        LOCKED(1, "moving a cipher");
        throws([&] { c.encrypt(in, out); });
        LOCKED(1, "using a moved-from cipher");
        throws([&] { c.decrypt(forged, dec); });
        LOCKED(1, "using a moved-from cipher");
    }
    released(0);
}
template<uint16_t N>
static void k_prf(size_t n)
{
    uint8_t k[32];
    vp_sym(k, 32, "key");
    {
        Prf<N> p(mkkey<32>(k));
        LOCKED(1, "constructing a PRF");
        Buf m(n, "msg");
        p.prf(m.p, n);
        LOCKED(1, "PRF evaluation");
        throws([&] { p.prf(nullptr, n); });
        LOCKED(1, "PRF evaluation of a null input");
        {
            Key<N> d = p.derive_key(m.p, n);
            LOCKED(2, "PRF key derivation");
            std::string s((const char*)m.p, n);
            Key<N>      e = p.derive_key(s);
            LOCKED(3, "PRF key derivation");
            p.prf(s);
            LOCKED(3, "PRF string evaluation");
            throws([&] { Key<N> f = p.derive_key(nullptr, 3); });
            LOCKED(3, "PRF key derivation of a null input");
        }
        LOCKED(1, "releasing derived keys");
        Prf<N> q;
        LOCKED(2, "constructing a random PRF");
        q = std::move(p);
        LOCKED(1, "assigning a PRF");
        throws([&] { p.prf(m.p, n); });
        LOCKED(1, "using a moved-from PRF");
        throws([&] { Key<N> f = p.derive_key(m.p, n); });
        LOCKED(1, "deriving from a moved-from PRF");
    }
    released(0);
}
template<class H, uint16_t N>
static void k_hmac(size_t n)
{
    uint8_t k[N];
    vp_sym(k, N, "key");
    {
        HMac<H, N> h(mkkey<N>(k));
        LOCKED(1, "constructing an HMAC");
        Buf m(n, "msg"), out(64);
        h.hmac(m.p, n, out.p);
        LOCKED(1, "HMAC");
        throws([&] { h.hmac(nullptr, n, out.p); });
        LOCKED(1, "HMAC of null input");
        throws([&] { h.hmac(m.p, n, nullptr); });
        LOCKED(1, "HMAC to null output");
        uint64_t ol = vp_concretize(vp_range("outlen", 63, 66));
        throws([&] { h.hmac(m.p, n, out.p, ol); });
        LOCKED(1, "HMAC with a long output");
        h.hmac(std::string((const char*)m.p, n));
        LOCKED(1, "HMAC of a string");
        HMac<H, N> r;
        LOCKED(2, "constructing a random HMAC");
        r = std::move(h);
        LOCKED(1, "assigning an HMAC");
        throws([&] { h.hmac(m.p, n, out.p); });
        LOCKED(1, "using a moved-from HMAC");
        Key<N> e(mkkey<N>(k)), e2(std::move(e));
        LOCKED(2, "moving a key");
        throws([&] { HMac<H, N> bad(std::move(e)); });
        LOCKED(2, "constructing an HMAC from an empty key");
    }
    released(0);
}
static void k_prg(size_t n)
{
    uint8_t k[32];
    vp_sym(k, 32, "key");
    {
        Prg g(mkkey<32>(k));
        LOCKED(1, "constructing a PRG");
        Buf      out(n);
        uint64_t off = vp_concretize(vp_range("off", 0, 3)) * 50;
        g.derive(off, n, out.p);
        LOCKED(1, "PRG derivation");
        throws([&] { g.derive(off, n, (unsigned char*)nullptr); });
        LOCKED(1, "PRG derivation to null");
        std::string s;
        g.derive(off, n, s);
        LOCKED(1, "PRG string derivation");
        s = g.derive(off, n);
        LOCKED(1, "PRG string derivation");
        {
            Key<32> d = g.derive_key<32>((uint16_t)off);
            LOCKED(2, "PRG key derivation");
            auto v = g.derive_keys<32>((uint16_t)vp_concretize(vp_range("nkeys", 0, 3)), (uint16_t)off);
            locked(2 + v.size(), "PRG batch key derivation leaves key memory accessible");
            Key<32> o1 = Prg::derive_key<32>(std::move(d), 3);
            v.clear();
            LOCKED(2, "one-shot key derivation");
            auto v2 = Prg::derive_keys<32>(std::move(o1), 2, 1);
            LOCKED(3, "one-shot batch key derivation");
            Prg::derive(std::move(v2[0]), off, n, out.p);
            LOCKED(2, "one-shot derivation");
            throws([&] { Prg::derive(std::move(v2[1]), off, n, (unsigned char*)nullptr); });
            vp_assert(vp_sodium_unlocked() == 0, "one-shot derivation to null leaves key memory accessible");
        }
        LOCKED(1, "releasing derived keys");
        // empty keys
        Key<32> a(mkkey<32>(k)), b(std::move(a));
        throws([&] { Prg::derive(std::move(a), off, n, out.p); });
        LOCKED(2, "one-shot derivation from an empty key");
        throws([&] { Key<32> x = Prg::derive_key<32>(std::move(a), 3); });
        LOCKED(2, "one-shot key derivation from an empty key");
        throws([&] { auto x = Prg::derive_keys<32>(std::move(a), 3, 1); });
        LOCKED(2, "one-shot batch derivation from an empty key");
        Prg h(std::move(g));
        LOCKED(2, "moving a PRG");
        throws([&] { g.derive(off, n, out.p); });
        LOCKED(2, "using a moved-from PRG");
        throws([&] { Key<32> x = g.derive_key<32>(3); });
        LOCKED(2, "deriving a key from a moved-from PRG");
        throws([&] { auto x = g.derive_keys<32>(3, 1); });
        LOCKED(2, "deriving keys from a moved-from PRG");
    }
    released(0);
}
static void k_prp(size_t n)
{
    init_crypto_lib();
    uint8_t k[48];
    vp_sym(k, 48, "key");
    {
        Prp p(mkkey<48>(k));
        LOCKED(1, "constructing a PRP");
        Buf         m(n, "msg"), out(n);
        std::string in((const char*)m.p, n), o, o2;
        p.encrypt(m.p, (unsigned)n, out.p);
        LOCKED(1, "PRP encryption");
        p.decrypt(m.p, (unsigned)n, out.p);
        LOCKED(1, "PRP decryption");
        p.encrypt(in, o);
        LOCKED(1, "PRP string encryption");
        p.decrypt(in, o2);
        LOCKED(1, "PRP string decryption");
        p.encrypt(in);
        LOCKED(1, "PRP string encryption");
        p.encrypt((uint32_t)7);
        LOCKED(1, "PRP 32-bit encryption");
        p.decrypt((uint32_t)7);
        LOCKED(1, "PRP 32-bit decryption");
        p.encrypt_64((uint64_t)7);
        LOCKED(1, "PRP 64-bit encryption");
        p.decrypt_64((uint64_t)7);
        LOCKED(1, "PRP 64-bit decryption");
        Prp r;
        LOCKED(2, "constructing a random PRP");
        Prp q(std::move(p));
        LOCKED(2, "moving a PRP");
        throws([&] { p.encrypt(in, o); });
        LOCKED(2, "using a moved-from PRP");
        throws([&] { p.decrypt(in, o); });
        LOCKED(2, "using a moved-from PRP");
        Key<48> a(mkkey<48>(k)), b(std::move(a));
        throws([&] { Prp bad(std::move(a)); });
        LOCKED(3, "constructing a PRP from an empty key");
    }
    released(0);
}
static void k_rcprf(unsigned h)
{
    uint8_t k[32];
    vp_sym(k, 32, "key");
    {
        RCPrf<16> p(mkkey<32>(k), (uint8_t)h);
        LOCKED(1, "constructing an RC-PRF");
        uint64_t a = vp_concretize(vp_range("min", 0, top(h))), b = vp_concretize(vp_range("max", 0, top(h) + 1));
        throws([&] { p.eval(b); });
        LOCKED(1, "RC-PRF evaluation");
        uint64_t stop = vp_concretize(vp_range("stop", 0, 2));
        throws([&] {
            p.eval_range(a, b, [&](uint64_t, const std::array<uint8_t, 16>&) {
                if (stop-- == 0)
                    throw Stop();
            });
        });
        LOCKED(1, "RC-PRF range evaluation");
        throws([&] {
            auto c = p.constrain(a, b);
            vp_assert(vp_sodium_unlocked() == 0, "constraining leaves key memory accessible");
            c.eval(b);
            vp_assert(vp_sodium_unlocked() == 0, "evaluating a constrained key leaves key memory accessible");
            throws([&] { c.eval(b + 1); });
            vp_assert(vp_sodium_unlocked() == 0, "evaluating a constrained key outside leaves key memory accessible");
            stop = 1;
            throws([&] {
                c.eval_range(a, b, [&](uint64_t, const std::array<uint8_t, 16>&) {
                    if (stop-- == 0)
                        throw Stop();
                });
            });
            vp_assert(vp_sodium_unlocked() == 0, "evaluating a constrained key on a range leaves key memory accessible");
            throws([&] {
                auto d = c.constrain(a + 1, b);
                vp_assert(vp_sodium_unlocked() == 0, "re-constraining leaves key memory accessible");
                auto e = std::move(d);
                vp_assert(vp_sodium_unlocked() == 0, "moving a constrained key leaves key memory accessible");
            });
            vp_assert(vp_sodium_unlocked() == 0, "re-constraining leaves key memory accessible");
        });
        LOCKED(1, "constraining");
        RCPrf<16> q(std::move(p));
        LOCKED(1, "moving an RC-PRF");
        throws([&] { p.eval(0); });
        LOCKED(1, "using a moved-from RC-PRF");
        throws([&] { auto c = p.constrain(a, b); });
        LOCKED(1, "constraining a moved-from RC-PRF");
        Key<32> e(mkkey<32>(k)), e2(std::move(e));
        throws([&] { RCPrf<16> bad(mkkey<32>(k), 0); });
        LOCKED(2, "constructing an RC-PRF of invalid height");
        throws([&] { RCPrf<16> bad(std::move(e), (uint8_t)h); });
        vp_assert(vp_sodium_unlocked() == 0, "constructing an RC-PRF from an empty key leaves key memory accessible");
    }
    released(0);
}
template<class T>
static void wrapping(T&& obj, Wrapper& w, uint64_t n)
{
    typedef typename std::decay<T>::type Y;
    bytes r = w.wrap(obj), r2 = r;
    LOCKED(n, "wrapping");
    {
        Y o = w.template unwrap<Y>(r);
        vp_assert(vp_sodium_unlocked() == 0, "unwrapping leaves key memory accessible");
    }
    LOCKED(n, "releasing an unwrapped object");
    uint8_t d = (uint8_t)vp_range("flip", 1, 255);
    r2[vp_concretize(vp_range("pos", 0, 2)) * (r2.size() - 1) / 2] ^= d;
    throws([&] { Y o = w.template unwrap<Y>(r2); });
    LOCKED(n, "unwrapping a tampered object");
    bytes sh(5);
    throws([&] { Y o = w.template unwrap<Y>(sh); });
    LOCKED(n, "unwrapping a short object");
    Y moved(std::move(obj));
    throws([&] { bytes x = w.wrap(obj); });
    LOCKED(n, "wrapping a moved-from object");
}
static void k_wrapper(uint64_t ty)
{
    init_crypto_lib();
    uint8_t k[48], wk[32];
    vp_sym(k, 48, "key");
    vp_sym(wk, 32, "wkey");
    {
        Wrapper w(mkkey<32>(wk));
        LOCKED(2, "constructing a wrapper");
        switch (ty) {
        case 0: wrapping(Cipher(mkkey<32>(k)), w, 3); break;
        case 1: wrapping(Prf<20>(mkkey<32>(k)), w, 3); break;
        case 2: wrapping(Prg(mkkey<32>(k)), w, 3); break;
        case 3: wrapping(Prp(mkkey<48>(k)), w, 3); break;
        case 4: wrapping(RCPrf<16>(mkkey<32>(k), 5), w, 3); break;
        default: {   // a malformed but authentic payload
            uint8_t iv[16] = {9};
            bytes   pl(38, 0);
            vp_sym(pl.data(), 38, "payload");
            bytes r = o_wrap(wk, iv, bytes{6, 0, 16}, pl.data(), 38);
            throws([&] {
                auto c = w.unwrap<ConstrainedRCPrf<16>>(r);
                vp_assert(vp_sodium_unlocked() == 0, "unwrapping leaves key memory accessible");
            });
            bytes r3 = o_wrap(wk, iv, bytes{5, 0, 16}, pl.data(), 33);
            throws([&] {
                auto c = w.unwrap<RCPrf<16>>(r3);
                vp_assert(vp_sodium_unlocked() == 0, "unwrapping leaves key memory accessible");
            });
            break;
        }
        }
        LOCKED(2, "wrapper operations");
        Wrapper w2(std::move(w));
        LOCKED(2, "moving a wrapper");
        Prg g(mkkey<32>(k));
        throws([&] { bytes x = w.wrap(g); });
        LOCKED(3, "using a moved-from wrapper");
        bytes x = w2.wrap(g);
        throws([&] { Prg y = w.unwrap<Prg>(x); });
        LOCKED(3, "using a moved-from wrapper");
        Key<32> e(mkkey<32>(k)), e2(std::move(e));
        throws([&] { Wrapper bad(std::move(e)); });
        LOCKED(4, "constructing a wrapper from an empty key");
    }
    released(0);
}
template<size_t N>
static void k_key()
{
    uint8_t k[N];
    vp_sym(k, N, "key");
    {
        Key<N> a(k);
        LOCKED(1, "constructing a key");
        Key<N> b;
        LOCKED(2, "constructing a random key");
        Key<N> c(std::move(a));
        LOCKED(2, "moving a key");
        b = std::move(c);
        LOCKED(1, "assigning a key");
        b = std::move(*&b);
        LOCKED(1, "self-assigning a key");
        b.erase();
        LOCKED(0, "erasing a key");
        b.erase();
        LOCKED(0, "erasing a key twice");
        throws([&] { Key<N> d((uint8_t*)nullptr); });
        LOCKED(0, "constructing a key from null");
        b = Key<N>();
        LOCKED(1, "assigning over an erased key");
    }
    released(0);
}
// ---------------------------------------------------------------- C13
template<size_t N>
static bool holds(Key<N>&& k, const uint8_t* want)
{
    HMac<Hash, N> h(std::move(k));
    uint8_t       a[64], b[64], probe[3] = {1, 2, 3};
    h.hmac(probe, 3, a);
    o_hmac(0, want, N, probe, 3, b);
    vp_assert_eq(a, b, 64, "key does not hold exactly the expected bytes");
    return true;
}
template<size_t N>
static void unusable(Key<N>& k, const char* msg)   // every use of an emptied key
{
    vp_assert(throws([&] { HMac<Hash, N> h(std::move(k)); uint8_t o[64]; h.hmac(o, 1, o); }), msg);
}
static void unusable32(Key<32>& k)
{
    Buf out(40);
    unusable<32>(k, "HMAC computes with an absent key");
    vp_assert(throws([&] { Prg::derive(std::move(k), 0, 40, out.p); }), "one-shot PRG computes with an absent key");
    vp_assert(throws([&] { std::string s = Prg::derive(std::move(k), 0, 40); }), "one-shot PRG computes with an absent key");
    vp_assert(throws([&] { std::string s; Prg::derive(std::move(k), 40, s); }), "one-shot PRG computes with an absent key");
    vp_assert(throws([&] { Key<32> x = Prg::derive_key<32>(std::move(k), 1); }), "one-shot key derivation computes with an absent key");
    vp_assert(throws([&] { auto x = Prg::derive_keys<32>(std::move(k), 2, 1); }), "one-shot batch key derivation computes with an absent key");
    vp_assert(throws([&] { Prg g(std::move(k)); g.derive(0, 40, out.p); }), "PRG computes with an absent key");
    vp_assert(throws([&] { Prg g(std::move(k)); Key<32> x = g.derive_key<32>(0); }), "PRG key derivation computes with an absent key");
    vp_assert(throws([&] { Prf<20> p(std::move(k)); p.prf(out.p, 4); }), "PRF computes with an absent key");
    vp_assert(throws([&] { Prf<100> p(std::move(k)); p.prf(out.p, 4); }), "PRF computes with an absent key");
    vp_assert(throws([&] { Cipher c(std::move(k)); std::string i("abc"), o; c.encrypt(i, o); }), "cipher encrypts with an absent key");
    vp_assert(throws([&] { Cipher c(std::move(k)); std::string i(40, 'x'), o; c.decrypt(i, o); }), "cipher decrypts with an absent key");
    vp_assert(throws([&] { RCPrf<16> p(std::move(k), 4); p.eval(3); }), "RC-PRF computes with an absent key");
    vp_assert(throws([&] { RCPrf<16> p(std::move(k), 4); auto c = p.constrain(1, 2); }), "RC-PRF constrains with an absent key");
    vp_assert(throws([&] { Wrapper w(std::move(k)); uint8_t t[32] = {0}; Prg g((Key<32>(t))); bytes r = w.wrap(g); }), "wrapper wraps with an absent key");
}
template<size_t N>
static void o_key()
{
    Buf k(N, "key"), k2(N, "key2"), copy(N), copy2(N), rnd(N);
    memcpy(copy.p, k.p, N);
    memcpy(copy2.p, k2.p, N);
    {
        Key<N> a(k.p), b(k2.p);
        for (size_t i = 0; i < N; i++)
            vp_assert(k.p[i] == 0 && k2.p[i] == 0, "source buffer not erased");
        Key<N> c(std::move(a));
        unusable<N>(a, "moved-from key is usable");
        uint64_t live = vp_sodium_live();
        switch (vp_concretize(vp_range("op", 0, 5))) {
        case 0: holds<N>(std::move(c), copy.p); break;
        case 1:
            b = std::move(c);
            vp_assert(vp_sodium_live() == live - 1, "assignment does not destroy the replaced content");
            unusable<N>(c, "assigned-from key is usable");
            holds<N>(std::move(b), copy.p);
            break;
        case 2:
            c = std::move(*&c);
            holds<N>(std::move(c), copy.p);
            break;
        case 3:
            c.erase();
            vp_assert(vp_sodium_live() == live - 1, "erasing does not destroy the content");
            unusable<N>(c, "erased key is usable");
            c = std::move(b);
            holds<N>(std::move(c), copy2.p);
            unusable<N>(b, "assigned-from key is usable");
            break;
        case 4:
            a = std::move(b);   // over a moved-from key
            holds<N>(std::move(a), copy2.p);
            holds<N>(std::move(c), copy.p);
            break;
        default: {
            Key<N> d(std::move(a));   // moving emptiness
            unusable<N>(d, "key moved from an empty key is usable");
            b = std::move(a);
            unusable<N>(b, "key assigned from an empty key keeps stale content");
            holds<N>(std::move(c), copy.p);
        }
        }
        uint64_t r0 = vp_rnd_count();
        Key<N>   r;
        vp_assert(vp_rnd_count() == r0 + N, "default key does not draw all its bytes from the generator");
        vp_rnd_copy(rnd.p, r0, N);
        holds<N>(std::move(r), rnd.p);
        vp_assert(throws([&] { Key<N> d((uint8_t*)nullptr); }), "null key source accepted");
    }
    vp_assert(vp_sodium_live() == 0, "key content not released");
}
static void o_absent()
{
    uint8_t k[32], k48[48];
    vp_sym(k, 32, "key");
    Key<32> a(mkkey<32>(k)), b(std::move(a)), c(mkkey<32>(k));
    unusable32(a);
    c.erase();
    unusable32(c);
    init_crypto_lib();
    vp_sym(k48, 48, "key48");
    Key<48> p(mkkey<48>(k48)), q(std::move(p));
    vp_assert(throws([&] { Prp x(std::move(p)); x.encrypt((uint32_t)1); }), "PRP computes with an absent key");
    holds<32>(std::move(b), k);
}
// constructing an object takes the key over
static void o_consumed()
{
    uint8_t k[32], ref[64];
    vp_sym(k, 32, "key");
    Key<32> a(mkkey<32>(k));
    switch (vp_concretize(vp_range("obj", 0, 6))) {
    case 0: { Cipher x(std::move(a)); unusable32(a); break; }
    case 1: { Prf<20> x(std::move(a)); unusable32(a); break; }
    case 2: { Prg x(std::move(a)); unusable32(a); break; }
    case 3: { RCPrf<16> x(std::move(a), 4); unusable32(a); break; }
    case 4: { Wrapper x(std::move(a)); unusable32(a); break; }
    case 5: { std::string s = Prg::derive(std::move(a), 3, 20); unusable32(a); break; }
    default: {
        init_crypto_lib();
        uint8_t k48[48];
        vp_sym(k48, 48, "key48");
        Key<48> p(mkkey<48>(k48));
        Prp     x(std::move(p));
        vp_assert(throws([&] { Prp y(std::move(p)); y.encrypt((uint32_t)1); }), "key usable after building a PRP from it");
    }
    }
    (void)ref;
}
// moved-from and assigned objects
static void o_objects()
{
    uint8_t k[48], k2[48];
    vp_sym(k, 48, "key");
    vp_sym(k2, 48, "key2");
    Buf         m(6, "msg"), out(20), ref(20);
    std::string in((const char*)m.p, 6), o;
    switch (vp_concretize(vp_range("obj", 0, 7))) {
    case 0: {
        Prf<20> a(mkkey<32>(k)), b(mkkey<32>(k2));
        b = std::move(a);
        o_prf(k, m.p, 6, ref.p, 20);
        auto v = b.prf(m.p, 6);
        vp_assert_eq(v.data(), ref.p, 20, "assigned PRF does not compute with the new key");
        vp_assert(throws([&] { a.prf(m.p, 6); }), "moved-from PRF computes");
        vp_assert(throws([&] { Key<20> x = a.derive_key(m.p, 6); }), "moved-from PRF derives keys");
        Prf<20> c(std::move(b));
        v = c.prf(in);
        vp_assert_eq(v.data(), ref.p, 20, "moved PRF does not compute with its key");
        vp_assert(throws([&] { b.prf(in); }), "moved-from PRF computes");
        break;
    }
    case 1: {
        HMac<Hash, 24> a(mkkey<24>(k)), b(mkkey<24>(k2));
        uint8_t        r64[64], o64[64];
        b = std::move(a);
        o_hmac(0, k, 24, m.p, 6, r64);
        b.hmac(m.p, 6, o64);
        vp_assert_eq(o64, r64, 64, "assigned HMAC does not compute with the new key");
        vp_assert(throws([&] { a.hmac(m.p, 6, o64); }), "moved-from HMAC computes");
        break;
    }
    case 2: {
        Prg a(mkkey<32>(k)), b(std::move(a));
        o_stream(k, 5, 20, ref.p);
        b.derive(5, 20, out.p);
        vp_assert_eq(out.p, ref.p, 20, "moved PRG does not compute with its key");
        vp_assert(throws([&] { a.derive(5, 20, out.p); }), "moved-from PRG computes");
        vp_assert(throws([&] { std::string s = a.derive(5, 20); }), "moved-from PRG computes");
        vp_assert(throws([&] { Key<32> x = a.derive_key<32>(5); }), "moved-from PRG derives keys");
        vp_assert(throws([&] { auto x = a.derive_keys<32>(2, 5); }), "moved-from PRG derives keys");
        break;
    }
    case 3: {
        Cipher a(mkkey<32>(k)), b(std::move(a));
        b.encrypt(in, o);
        uint8_t d[6];
        vp_assert(o.size() == 38, "ciphertext length");
        vp_assert(o_decrypt(k, (const uint8_t*)o.data(), 38, d) == 0, "moved cipher does not encrypt with its key");
        vp_assert(throws([&] { std::string x; a.encrypt(in, x); }), "moved-from cipher encrypts");
        vp_assert(throws([&] { std::string x; a.decrypt(o, x); }), "moved-from cipher decrypts");
        break;
    }
    case 4: {
        init_crypto_lib();
        Prp a(mkkey<48>(k)), t(mkkey<48>(k)), b(std::move(a));
        std::string x, y;
        b.encrypt(in, x);
        t.encrypt(in, y);
        vp_assert(x.size() == 6 && y.size() == 6, "PRP length");
        vp_assert_eq(x.data(), y.data(), 6, "moved PRP does not compute with its key");
        vp_assert(throws([&] { a.encrypt(in, x); }), "moved-from PRP encrypts");
        vp_assert(throws([&] { a.decrypt(in, x); }), "moved-from PRP decrypts");
        vp_assert(throws([&] { a.encrypt_64(3); }), "moved-from PRP encrypts");
        break;
    }
    case 5: {
        RCPrf<16> a(mkkey<32>(k), 5), b(std::move(a));
        auto      v = b.eval(9);
        o_leaf<16>(k, 5, 9, ref.p);
        vp_assert_eq(v.data(), ref.p, 16, "moved RC-PRF does not compute with its key");
        vp_assert(throws([&] { a.eval(9); }), "moved-from RC-PRF computes");
        vp_assert(throws([&] { auto c = a.constrain(2, 9); }), "moved-from RC-PRF constrains");
        ConstrainedRCPrf<16> c(b.constrain(2, 9)), d(std::move(c));
        v = d.eval(9);
        vp_assert_eq(v.data(), ref.p, 16, "moved constrained RC-PRF does not compute with its key");
        vp_assert(throws([&] { c.eval(9); }), "moved-from constrained RC-PRF computes");
        break;
    }
    case 6: {
        Wrapper a(mkkey<32>(k)), a2(mkkey<32>(k2)), b(std::move(a));
        Prg     g(mkkey<32>(k2));
        bytes   r = b.wrap(g), w;
        w         = o_wrap(k, r.data(), bytes{3}, k2, 32);
        vp_assert(r.size() == 60, "wrapped size");
        vp_assert_eq(r.data(), w.data(), 60, "moved wrapper does not compute with its key");
        vp_assert(throws([&] { bytes x = a.wrap(g); }), "moved-from wrapper wraps");
        vp_assert(throws([&] { Prg x = a.unwrap<Prg>(r); }), "moved-from wrapper unwraps");
        a2 = std::move(b);
        r  = a2.wrap(g);
        w  = o_wrap(k, r.data(), bytes{3}, k2, 32);
        vp_assert_eq(r.data(), w.data(), 60, "assigned wrapper does not compute with the new key");
        Prg h(std::move(g));
        vp_assert(throws([&] { bytes x = a2.wrap(g); }), "moved-from PRG can be wrapped");
        break;
    }
    default: {   // default-constructed objects
        uint64_t r0 = vp_rnd_count();
        uint8_t  rnd[48], r64[64], o64[64];
        Prf<20>  p;
        vp_assert(vp_rnd_count() == r0 + 32, "random PRF does not draw its whole key");
        vp_rnd_copy(rnd, r0, 32);
        o_prf(rnd, m.p, 6, ref.p, 20);
        auto v = p.prf(m.p, 6);
        vp_assert_eq(v.data(), ref.p, 20, "random PRF does not use the drawn key");
        r0 = vp_rnd_count();
        HMac<Hash, 25> h;
        vp_assert(vp_rnd_count() == r0 + 25, "random HMAC does not draw its whole key");
        vp_rnd_copy(rnd, r0, 25);
        o_hmac(0, rnd, 25, m.p, 6, r64);
        h.hmac(m.p, 6, o64);
        vp_assert_eq(o64, r64, 64, "random HMAC does not use the drawn key");
        init_crypto_lib();
        r0 = vp_rnd_count();
        Prp q;
        vp_assert(vp_rnd_count() == r0 + 48, "random PRP does not draw its whole key");
        vp_rnd_copy(rnd, r0, 48);
        Prp         t(mkkey<48>(rnd));
        std::string x, y;
        q.encrypt(in, x);
        t.encrypt(in, y);
        vp_assert(x.size() == 6 && y.size() == 6, "PRP length");
        vp_assert_eq(x.data(), y.data(), 6, "random PRP does not use the drawn key");
    }
    }
}
extern "C" void vp_main(void)
{
    uint64_t mode = vp_param("mode", 0);
    size_t   n    = mode < 6 ? (size_t)vp_concretize(vp_range("n", vp_param("lo", 0), vp_param("hi", 20))) : 0;
    switch (mode) {
    case 0: k_cipher(n); break;
    case 1: k_prf<20>(n); k_prf<100>(n); break;
    case 2: k_hmac<Hash, 32>(n); k_hmac<hash::sha512, 25>(n); break;
    case 3: k_prg(n); break;
    case 4: k_prp(n); break;
    case 6: k_rcprf((unsigned)vp_param("h", 4)); break;
    case 7: k_wrapper(vp_param("type", 0)); break;
    case 8: k_key<1>(); k_key<16>(); k_key<32>(); k_key<48>(); k_key<100>(); break;
    case 10: o_key<16>(); break;
    case 11: o_key<32>(); break;
    case 12: o_key<48>(); break;
    case 13: o_key<128>(); break;
    case 14: o_absent(); break;
    case 15: o_consumed(); break;
    default: o_objects(); break;
    }
    vp_cover("end");
}
