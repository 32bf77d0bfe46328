// C01/C02: authenticated encryption
#include "oracle.hpp"
#include "cipher.hpp"
using namespace sse::crypto;

static void strings(const uint8_t* key, size_t n)
{
    Cipher      c(mkkey<32>(key));
    Buf         m(n, "msg");
    std::string msg = m.str(), ct("old"), pt("old content that has to disappear completely");
    for (int round = 0; round < 2; round++) {
        uint64_t r0 = vp_rnd_count();
        c.encrypt(msg, ct);
        vp_assert(vp_rnd_count() >= r0 + 16, "no fresh nonce drawn");
        vp_assert(ct.size() == n + 32, "ciphertext length is not message length + 32");
        vp_assert(msg.size() == n, "encryption changed the length of its input");
        vp_assert_eq(msg.data(), m.p, n, "encryption changed its input");
        uint8_t nonce[16];
        vp_rnd_copy(nonce, r0, 16);
        vp_assert_eq(ct.data(), nonce, 16, "ciphertext does not begin with the fresh nonce");
        Buf ref(n + 32);
        o_encrypt(key, nonce, m, n, ref);
        vp_assert_eq(ct.data(), ref.p, n + 32, "ciphertext is not the specified AEAD encryption");
        const std::string ct0 = ct;
        c.decrypt(ct, pt);
        vp_assert(pt.size() == n, "decrypted length differs");
        vp_assert_eq(pt.data(), m.p, n, "decryption does not return the message");
        vp_assert(ct.size() == ct0.size(), "decryption changed its input");
        vp_assert_eq(ct.data(), ct0.data(), ct.size(), "decryption changed its input");
        if (round == 0) {
            // another cipher object with the same key
            Cipher c2(mkkey<32>(key));
            std::string p2;
            c2.decrypt(ct, p2);
            vp_assert(p2.size() == n, "decrypted length differs (second object)");
            vp_assert_eq(p2.data(), m.p, n, "a second cipher object with the same key does not decrypt");
        }
    }
}
template<size_t N>
static void arrays(const uint8_t* key)
{
    const Cipher                 c(mkkey<32>(key));
    std::array<uint8_t, N>      m, p;
    std::array<uint8_t, N + 32> ct;
    vp_sym(m.data(), N, "msg");
    fill(p.data(), N, 0xa5);
    fill(ct.data(), N + 32, 0xa5);
    std::array<uint8_t, N> m0 = m;
    uint64_t               r0 = vp_rnd_count();
    c.encrypt(m, ct);
    vp_assert_eq(m.data(), m0.data(), N, "encryption changed its input");
    uint8_t nonce[16], ref[N + 32];
    vp_assert(vp_rnd_count() >= r0 + 16, "no fresh nonce drawn");
    vp_rnd_copy(nonce, r0, 16);
    o_encrypt(key, nonce, m0.data(), N, ref);
    vp_assert_eq(ct.data(), ref, N + 32, "array ciphertext is not the specified AEAD encryption");
    c.decrypt(ct, p);
    vp_assert_eq(p.data(), m0.data(), N, "array decryption does not return the message");
    // across interfaces
    Cipher      c2(mkkey<32>(key));
    std::string s, s2;
    c2.decrypt(std::string(reinterpret_cast<char*>(ct.data()), N + 32), s);
    vp_assert(s.size() == N, "string decryption of an array ciphertext has the wrong length");
    vp_assert_eq(s.data(), m0.data(), N, "string decryption of an array ciphertext differs");
    c2.encrypt(s, s2);
    std::array<uint8_t, N + 32> ct2;
    vp_assert(s2.size() == N + 32, "ciphertext length is not message length + 32");
    memcpy(ct2.data(), s2.data(), N + 32);
    fill(p.data(), N, 0xa5);
    c2.decrypt(ct2, p);
    vp_assert_eq(p.data(), m0.data(), N, "array decryption of a string ciphertext differs");
}
// arbitrary ciphertext: genuine one xor an arbitrary difference
template<class F>
static void tamper(const uint8_t* key, size_t n, const uint8_t* ct, F dec)
{
    // dec(out) -> true if it returned normally
    Buf out(n), ref(n);
    fill(out, n, 0x5a);
    fill(ref, n, 0);
    bool ok  = dec(out.p);
    int  bad = o_decrypt(key, ct, n + 32, ref);
    if (ok) {
        vp_cover("accepted");
        vp_assert(bad == 0, "unauthentic ciphertext accepted");
        vp_assert_eq(out.p, ref.p, n, "accepted plaintext is not the authenticated one");
    } else {
        vp_cover("rejected");
        vp_assert(bad != 0, "authentic ciphertext rejected");
    }
}
static void forge_string(const uint8_t* key, size_t n)
{
    Cipher c(mkkey<32>(key));
    Buf    m(n, "msg"), d(n + 32, "delta"), ct(n + 32);
    uint8_t nonce[16];
    vp_sym(nonce, 16, "nonce");
    o_encrypt(key, nonce, m, n, ct);
    const size_t w = vp_param("sparse", 0), N = n + 32;
    for (size_t i = 0; i < N; i++)
        if (!w || i < w || i >= N - w || (i >= N / 2 && i < N / 2 + w))
            ct[i] ^= d[i];
    std::string in = ct.str(), out("previous");
    bool        threw = false;
    tamper(key, n, ct, [&](uint8_t* o) {
        try {
            c.decrypt(in, out);
        } catch (const std::exception&) {
            threw = true;
            vp_assert(out == "previous", "failed decryption changed the output string");
            return false;
        }
        vp_assert(out.size() == n, "accepted plaintext has the wrong length");
        memcpy(o, out.data(), n);
        return true;
    });
    if (threw) {
        // still usable
        std::string ct2, p2;
        c.encrypt(m.str(), ct2);
        c.decrypt(ct2, p2);
        vp_assert(p2.size() == n, "cipher unusable after a rejected ciphertext");
        vp_assert_eq(p2.data(), m.p, n, "cipher unusable after a rejected ciphertext");
    }
}
template<size_t N>
static void forge_array(const uint8_t* key)
{
    Cipher  c(mkkey<32>(key));
    uint8_t m[N], d[N + 32], nonce[16];
    std::array<uint8_t, N + 32> ct;
    std::array<uint8_t, N>      p;
    vp_sym(m, N, "msg");
    vp_sym(d, N + 32, "delta");
    vp_sym(nonce, 16, "nonce");
    o_encrypt(key, nonce, m, N, ct.data());
    for (size_t i = 0; i < N + 32; i++)
        ct[i] ^= d[i];
    // the output buffer starts with values unrelated to the plaintext
    std::array<uint8_t, N> stale;
    vp_sym(stale.data(), N, "stale");
    p = stale;
    tamper(key, N, ct.data(), [&](uint8_t* o) {
        try {
            c.decrypt(ct, p);
        } catch (const std::exception&) {
            // nothing of the plaintext may be left in the caller's buffer: every byte is zero or what it was
            uint8_t zero = 0;
            for (size_t i = 0; i < N; i++)
                vp_assert(vp_eq(&p[i], &zero, 1) | vp_eq(&p[i], &stale[i], 1), "rejected ciphertext left plaintext in the caller's buffer");
            return false;
        }
        memcpy(o, p.data(), N);
        return true;
    });
}
static void too_short(const uint8_t* key, size_t len)
{
    Cipher      c(mkkey<32>(key));
    Buf         b(len, "short");
    std::string in = b.str(), out("previous");
    bool        threw = false;
    try {
        c.decrypt(in, out);
    } catch (const std::exception&) {
        threw = true;
    }
    vp_assert(threw, "ciphertext without room for nonce, tag and one byte accepted");
    vp_assert(out == "previous", "output changed for a too short ciphertext");
    vp_cover("end");
}
extern "C" void vp_main(void)
{
    uint8_t key[32];
    vp_sym(key, 32, "key");
    uint64_t mode = vp_param("mode", 0);
    uint64_t n    = vp_param("lo", 1);
    if (vp_param("hi", 0))
        n = vp_concretize(vp_range("len", n, vp_param("hi", 0)));
    if (mode == 0) {
        strings(key, n);
    } else if (mode == 1) {
        switch (n) {
        case 1: arrays<1>(key); break;
        case 2: arrays<15>(key); break;
        case 3: arrays<16>(key); break;
        case 4: arrays<33>(key); break;
        case 5: arrays<64>(key); break;
        case 6: arrays<65>(key); break;
        default: arrays<130>(key); break;
        }
    } else if (mode == 2) {
        forge_string(key, n);
    } else if (mode == 3) {
        switch (n) {
        case 1: forge_array<1>(key); break;
        case 2: forge_array<16>(key); break;
        case 3: forge_array<17>(key); break;
        default: forge_array<65>(key); break;
        }
    } else if (mode == 4) {
        too_short(key, n);
    } else {
        Cipher      c(mkkey<32>(key));
        std::string out("x");
        bool        threw = false;
        try {
            c.encrypt(std::string(), out);
        } catch (const std::exception&) {
            threw = true;
        }
        vp_assert(threw, "empty message accepted");
    }
    vp_cover("end");
}
