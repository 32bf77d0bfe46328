// C15: Prp (AEZ)
#include "oracle.hpp"
#include "prp.hpp"
#include "utils.hpp"
using namespace sse::crypto;

static void bij(const uint8_t* key, size_t n)
{
    Prp    p(mkkey<48>(key));
    size_t sh = vp_param("shift", 0);   // unaligned buffers
    Buf    in_(n + sh), out_(n + sh), back_(n + sh), orig(n);
    uint8_t *in = in_ + sh, *out = out_ + sh, *back = back_ + sh;
    vp_sym(orig, n, "in");
    memcpy(in, orig, n);
    fill(out, n, 0x11);
    fill(back, n, 0x22);
    if (vp_param("dir", 0) == 0) {
        p.encrypt(in, (unsigned)n, out);
        vp_assert_eq(in, orig.p, n, "encryption changed its input");
        p.decrypt(out, (unsigned)n, back);
        vp_assert_eq(back, orig.p, n, "decryption does not invert encryption");
    } else {
        p.decrypt(in, (unsigned)n, out);
        vp_assert_eq(in, orig.p, n, "decryption changed its input");
        p.encrypt(out, (unsigned)n, back);
        vp_assert_eq(back, orig.p, n, "encryption does not invert decryption");
    }
}
static void ifaces(const uint8_t* key, size_t n)
{
    Prp p(mkkey<48>(key)), q(mkkey<48>(key));
    Buf in(n, "in"), enc(n), dec(n);
    p.encrypt(in.p, (unsigned)n, enc.p);
    p.decrypt(in.p, (unsigned)n, dec.p);
    std::string s = in.str(), o("junk");
    q.encrypt(s, o);
    vp_assert(o.size() == n, "string encryption changes the length");
    vp_assert_eq(o.data(), enc.p, n, "string encryption differs from buffer encryption");
    vp_assert(s.size() == n, "encryption changed its input");
    vp_assert_eq(s.data(), in.p, n, "encryption changed its input");
    o = q.encrypt(s);
    vp_assert(o.size() == n, "string encryption changes the length");
    vp_assert_eq(o.data(), enc.p, n, "returned string encryption differs");
    o = "junk2";
    q.decrypt(s, o);
    vp_assert(o.size() == n, "string decryption changes the length");
    vp_assert_eq(o.data(), dec.p, n, "string decryption differs from buffer decryption");
    vp_assert_eq(s.data(), in.p, n, "decryption changed its input");
    o = q.decrypt(s);
    vp_assert(o.size() == n, "string decryption changes the length");
    vp_assert_eq(o.data(), dec.p, n, "returned string decryption differs");
    if (n == 4) {
        uint32_t v, e = 0, d = 0;
        memcpy(&v, in, 4);
        e = q.encrypt(v);
        d = q.decrypt(v);
        vp_assert_eq(&e, enc.p, 4, "32-bit encryption differs from buffer encryption");
        vp_assert_eq(&d, dec.p, 4, "32-bit decryption differs from buffer decryption");
        vp_assert(q.decrypt(e) == v, "32-bit decryption does not invert encryption");
    }
    if (n == 8) {
        uint64_t v, e = 0, d = 0;
        memcpy(&v, in, 8);
        e = q.encrypt_64(v);
        d = q.decrypt_64(v);
        vp_assert_eq(&e, enc.p, 8, "64-bit encryption differs from buffer encryption");
        vp_assert_eq(&d, dec.p, 8, "64-bit decryption differs from buffer decryption");
        vp_assert(q.decrypt_64(e) == v, "64-bit decryption does not invert encryption");
    }
}
extern "C" void vp_main(void)
{
    init_crypto_lib();
    uint8_t key[48];
    vp_sym(key, 48, "key");
    uint64_t mode = vp_param("mode", 0), n = vp_param("lo", 0);
    if (vp_param("hi", 0))
        n = vp_concretize(vp_range("len", n, vp_param("hi", 0)));
    if (mode == 0)
        bij(key, n);
    else
        ifaces(key, n);
    vp_cover("end");
    cleanup_crypto_lib();
}
