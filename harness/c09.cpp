// C09, C10, C11: wrapping
#include "oracle.hpp"
#include "cipher.hpp"
#include "prf.hpp"
#include "prg.hpp"
#include "prp.hpp"
#include "rcprf.hpp"
#include "utils.hpp"
#include "wrapper.hpp"
using namespace sse::crypto;
typedef std::vector<uint8_t> bytes;

static void random_iv_ok(const bytes& r, size_t rnd0)
{
    uint8_t iv[16];
    vp_assert(vp_rnd_count() == rnd0 + 16, "wrapping does not draw a fresh 16-byte IV");
    vp_rnd_copy(iv, rnd0, 16);
    vp_assert_eq(r.data(), iv, 16, "wrapped form does not start with the fresh IV");
}
// ---- the wrappable types: context, payload of the object under test, and a behavioural check
struct TCipher {
    typedef Cipher type;
    uint8_t        k[32];
    bytes ctx() { return bytes{1}; }
    Cipher make()
    {
        vp_sym(k, 32, "key");
        return Cipher(mkkey<32>(k));
    }
    bytes payload() { return bytes(k, k + 32); }
    void  same(Cipher& c)
    {
        uint8_t     nonce[16], ref[32 + 9];
        Buf         m(9, "msg");
        std::string out, in((const char*)m.p, 9);
        size_t      r0 = vp_rnd_count();
        c.encrypt(in, out);
        vp_rnd_copy(nonce, r0, 16);
        o_encrypt(k, nonce, m.p, 9, ref);
        vp_assert(out.size() == 41, "ciphertext length");
        vp_assert_eq(out.data(), ref, 41, "cipher behaves differently");
        std::string in2((const char*)ref, 41), out2;
        c.decrypt(in2, out2);
        vp_assert(out2.size() == 9, "plaintext length");
        vp_assert_eq(out2.data(), m.p, 9, "cipher decrypts differently");
    }
};
template<uint16_t N>
struct TPrf {
    typedef Prf<N> type;
    uint8_t        k[32];
    bytes  ctx() { return bytes{2, (uint8_t)(N >> 8), (uint8_t)N}; }
    Prf<N> make()
    {
        vp_sym(k, 32, "key");
        return Prf<N>(mkkey<32>(k));
    }
    bytes payload() { return bytes(k, k + 32); }
    void  same(Prf<N>& p)
    {
        Buf     m(7, "msg");
        uint8_t ref[N];
        auto    v = p.prf(m.p, 7);
        o_prf(k, m.p, 7, ref, N);
        vp_assert_eq(v.data(), ref, N, "PRF behaves differently");
    }
};
struct TPrg {
    typedef Prg type;
    uint8_t     k[32];
    bytes ctx() { return bytes{3}; }
    Prg   make()
    {
        vp_sym(k, 32, "key");
        return Prg(mkkey<32>(k));
    }
    bytes payload() { return bytes(k, k + 32); }
    void  same(Prg& p)
    {
        Buf     o(40);
        uint8_t ref[40];
        p.derive(100, 40, o.p);
        o_stream(k, 100, 40, ref);
        vp_assert_eq(o.p, ref, 40, "PRG behaves differently");
    }
};
struct TPrp {
    typedef Prp type;
    uint8_t     k[48];
    std::unique_ptr<Prp> twin;
    bytes ctx() { return bytes{4}; }
    Prp   make()
    {
        init_crypto_lib();
        vp_sym(k, 48, "key");
        twin.reset(new Prp(mkkey<48>(k)));
        return Prp(mkkey<48>(k));
    }
    bytes payload() { return bytes(); }   // the expanded context, not known here
    void  same(Prp& p)
    {
        Buf         m(21, "msg");
        std::string in((const char*)m.p, 21), a, b, c;
        p.encrypt(in, a);
        twin->encrypt(in, b);
        vp_assert(a.size() == 21 && b.size() == 21, "PRP output length");
        vp_assert_eq(a.data(), b.data(), 21, "PRP behaves differently");
        p.decrypt(a, c);
        vp_assert(c.size() == 21, "PRP output length");
        vp_assert_eq(c.data(), in.data(), 21, "PRP decrypts differently");
    }
};
template<uint16_t N>
struct TRCPrf {
    typedef RCPrf<N> type;
    uint8_t          k[32];
    unsigned         h;
    uint64_t         leaf;
    bytes    ctx() { return bytes{5, (uint8_t)(N >> 8), (uint8_t)N}; }
    RCPrf<N> make()
    {
        vp_sym(k, 32, "key");
        h    = (unsigned)vp_concretize(vp_range("height", 2, vp_param("hmax", 8)));
        leaf = vp_concretize(vp_range("leafsel", 0, 2));
        leaf = leaf == 0 ? 0 : leaf == 1 ? top(h) : top(h) / 3;
        return RCPrf<N>(mkkey<32>(k), (uint8_t)h);
    }
    bytes payload()
    {
        bytes b(1, (uint8_t)h);
        b.insert(b.end(), k, k + 32);
        return b;
    }
    void same(RCPrf<N>& p)
    {
        uint8_t ref[N];
        auto    v = p.eval(leaf);
        o_leaf<N>(k, h, leaf, ref);
        vp_assert_eq(v.data(), ref, N, "RC-PRF behaves differently");
        vp_assert(p.tree_height() == h, "RC-PRF height differs");
    }
};
template<uint16_t N>
struct TCRCPrf {
    typedef ConstrainedRCPrf<N> type;
    uint8_t                     k[32];
    unsigned                    h;
    uint64_t                    a, b, leaf;
    bytes               ctx() { return bytes{6, (uint8_t)(N >> 8), (uint8_t)N}; }
    ConstrainedRCPrf<N> make()
    {
        vp_sym(k, 32, "key");
        h          = (unsigned)vp_param("h", 4);
        uint64_t n = top(h);
        if (vp_param("far", 0)) {   // large trees: a few ranges with components of all sizes
            uint64_t s = vp_concretize(vp_range("rangesel", 0, 3));
            a = s == 0 ? 1 : s == 1 ? 0 : s == 2 ? n / 3 : n - 1;
            b = s == 0 ? n - 1 : s == 1 ? n - 1 : s == 2 ? n / 3 + 5 : n;
        } else {
            a = vp_concretize(vp_range("min", 0, n));
            b = a + vp_concretize(vp_range("len", 0, n - a));
        }
        vp_assume(!(a == 0 && b == n));
        uint64_t s = vp_param("oneleaf", 0) ? 2 : vp_concretize(vp_range("leafsel", 0, 2));
        leaf       = s == 0 ? a : s == 1 ? b : a + (b - a) / 2;
        return RCPrf<N>(mkkey<32>(k), (uint8_t)h).constrain(a, b);
    }
    bytes payload()   // greedy canonical cover, left to right
    {
        bytes    r(1, (uint8_t)h);
        uint32_t cnt = 0;
        r.resize(5);
        for (uint64_t lo = a; lo <= b;) {
            unsigned sh = 1;
            while (sh + 1 < h && (lo & top(sh + 1)) == 0 && top(sh + 1) <= b - lo)
                sh++;
            uint64_t hi = lo + top(sh);
            uint8_t  e[17 + 64];
            e[0] = (uint8_t)sh;
            memcpy(e + 1, &lo, 8);
            memcpy(e + 9, &hi, 8);
            if (sh == 1)
                o_leaf<N>(k, h, lo, e + 17);
            else
                o_node(k, h, lo, h - sh, e + 17);
            r.insert(r.end(), e, e + 17 + (sh == 1 ? N : 32));
            cnt++;
            lo = hi + 1;
        }
        memcpy(r.data() + 1, &cnt, 4);
        return r;
    }
    void same(ConstrainedRCPrf<N>& p)
    {
        vp_assert(p.min_leaf() == a && p.max_leaf() == b && p.tree_height() == h, "constrained RC-PRF range differs");
        uint8_t ref[N];
        auto    v = p.eval(leaf);
        o_leaf<N>(k, h, leaf, ref);
        vp_assert_eq(v.data(), ref, N, "constrained RC-PRF behaves differently");
    }
};
static bytes decrypt_payload(const uint8_t* wk, const bytes& r)
{
    uint8_t tk[32], ek[32];
    vp_assert(r.size() > 28, "wrapped form too short");
    bytes pl(r.size() - 28);
    o_wrap_keys(wk, tk, ek);
    crypto_stream_chacha20_ietf_xor(pl.data(), r.data() + 16, pl.size(), r.data() + 16 + pl.size(), ek);
    return pl;
}
template<class T>
static bytes payload_of(T& t, typename T::type& obj)
{
    bytes pl = t.payload();
    if (pl.empty()) {
        uint8_t wk[32] = {1, 2, 3};
        Wrapper w(mkkey<32>(wk));
        wk[0] = 1; wk[1] = 2; wk[2] = 3;
        pl = decrypt_payload(wk, w.wrap(obj));
    }
    return pl;
}
// ---- C09
static void erased(const bytes& r)
{
    for (size_t i = 0; i < r.size(); i++)
        vp_assert(r[i] == 0, "wrapped bytes not erased after a successful unwrap");
}
template<class T>
static void roundtrip()
{
    T       t;
    uint8_t wk[32], iv[16];
    vp_sym(wk, 32, "wkey");
    typename T::type obj = t.make();
    Wrapper          w(mkkey<32>(wk));
    size_t           rnd0 = vp_rnd_count();
    bytes            r    = w.wrap(obj);
    random_iv_ok(r, rnd0);
    bytes pl = t.payload();
    if (pl.empty())
        pl = decrypt_payload(wk, r);
    vp_assert(r.size() == pl.size() + 28, "wrapped form is not 28 bytes longer than the object");
    memcpy(iv, r.data(), 16);
    bytes ref = o_wrap(wk, iv, t.ctx(), pl.data(), pl.size());
    vp_assert_eq(r.data(), ref.data(), ref.size(), "wrapped form is not the authenticated encryption of the object as its type");
    t.same(obj);
    size_t           size = r.size();
    typename T::type obj2 = w.template unwrap<typename T::type>(r);
    vp_assert(r.size() <= size, "unwrapping grows its input");
    erased(r);
    t.same(obj2);
    rnd0     = vp_rnd_count();
    bytes r2 = w.wrap(obj2);
    random_iv_ok(r2, rnd0);
    Wrapper          w2(std::move(w));
    typename T::type obj3 = w2.template unwrap<typename T::type>(r2);
    erased(r2);
    t.same(obj3);
    t.same(obj);
}
// ---- C10: arbitrary bytes offered as a wrapped object of the type
template<class Y>
static void forged(const bytes& ctx, size_t fixed)
{
    uint8_t wk[32], tk[32], ek[32], tag[12];
    vp_sym(wk, 32, "wkey");
    size_t  n = (size_t)vp_concretize(vp_range("n", vp_param("lo", 0), vp_param("hi", 40)));
    Wrapper w(mkkey<32>(wk));
    bytes   blob(n + 28), pl(n);
    vp_sym(blob.data(), n + 28, "blob");
    bytes copy = blob;
    o_wrap_keys(wk, tk, ek);
    if (n)
        crypto_stream_chacha20_ietf_xor(pl.data(), blob.data() + 16, n, blob.data() + 16 + n, ek);
    o_wrap_tag(tk, blob.data(), ctx, pl.data(), n, tag);
    uint8_t diff = 0;
    for (int i = 0; i < 12; i++)
        diff = (uint8_t)(diff | (tag[i] ^ blob[16 + n + i]));
    bool   ok    = false;
    size_t live0 = vp_sodium_live();
    try {
        Y y = w.template unwrap<Y>(blob);
        ok  = true;
    } catch (const std::exception&) {
    }
    vp_assert(vp_sodium_live() == live0, "unwrapping leaks protected memory");
    if (ok) {
        vp_assert(diff == 0, "object accepted although the tag does not authenticate it as this type");
        vp_assert(fixed == 0 || n == fixed, "object of the wrong size accepted");
        vp_cover("accepted");
    } else {
        if (fixed && n == fixed)
            vp_assert(diff != 0, "authentic object rejected");
        vp_cover("rejected");
    }
    // the wrapper remains usable
    uint8_t k[32];
    vp_sym(k, 32, "okey");
    Prg   g(mkkey<32>(k));
    bytes r = w.wrap(g), ref;
    ref     = o_wrap(wk, r.data(), bytes{3}, k, 32);
    vp_assert(r.size() == ref.size(), "wrapped size");
    vp_assert_eq(r.data(), ref.data(), ref.size(), "wrapper unusable after unwrapping arbitrary bytes");
}
template<class Y>
static void too_short(const char*)
{
    uint8_t wk[32];
    vp_sym(wk, 32, "wkey");
    Wrapper w(mkkey<32>(wk));
    size_t  n = (size_t)vp_concretize(vp_range("n", 0, 28));
    bytes   blob(n);
    if (n)
        vp_sym(blob.data(), n, "blob");
    bool ok = false;
    try {
        Y y = w.template unwrap<Y>(blob);
        ok  = true;
    } catch (const std::exception&) {
    }
    vp_assert(!ok, "input not longer than the fixed overhead accepted");
}
// genuine wrapped form with some bytes changed, shortened or extended
template<class T>
static void tampered()
{
    T       t;
    uint8_t wk[32], iv[16];
    vp_sym(wk, 32, "wkey");
    vp_sym(iv, 16, "iv");
    typename T::type obj = t.make();
    bytes            pl  = payload_of(t, obj);
    bytes            r   = o_wrap(wk, iv, t.ctx(), pl.data(), pl.size());
    Wrapper          w(mkkey<32>(wk));
    bytes            d(r.size());
    vp_sym(d.data(), d.size(), "delta");
    uint8_t any = 0;
    for (size_t i = 0; i < r.size(); i++) {
        r[i] = (uint8_t)(r[i] ^ d[i]);
        any  = (uint8_t)(any | d[i]);
    }
    size_t n = r.size() - 28;
    uint8_t tk[32], ek[32], tag[12], diff = 0;
    bytes   q(n);
    o_wrap_keys(wk, tk, ek);
    crypto_stream_chacha20_ietf_xor(q.data(), r.data() + 16, n, r.data() + 16 + n, ek);
    o_wrap_tag(tk, r.data(), t.ctx(), q.data(), n, tag);
    for (int i = 0; i < 12; i++)
        diff = (uint8_t)(diff | (tag[i] ^ r[16 + n + i]));
    vp_assume(diff != 0);   // not a collision of the tag function
    bool ok = false;
    try {
        typename T::type y = w.template unwrap<typename T::type>(r);
        ok                 = true;
    } catch (const std::exception&) {
    }
    vp_assert(!ok, "tampered object accepted");
}
// the payload is intact but the tag is another one
template<class T>
static void retagged()
{
    T       t;
    uint8_t wk[32], iv[16], tk[32], ek[32], tag[12], d[12], any = 0;
    vp_sym(wk, 32, "wkey");
    vp_sym(iv, 16, "iv");
    typename T::type obj = t.make();
    bytes            pl  = payload_of(t, obj);
    o_wrap_keys(wk, tk, ek);
    o_wrap_tag(tk, iv, t.ctx(), pl.data(), pl.size(), tag);
    vp_sym(d, 12, "delta");
    for (int i = 0; i < 12; i++) {
        tag[i] = (uint8_t)(tag[i] ^ d[i]);
        any    = (uint8_t)(any | d[i]);
    }
    vp_assume(any != 0);
    bytes r(pl.size() + 28);
    memcpy(r.data(), iv, 16);
    crypto_stream_chacha20_ietf_xor(r.data() + 16, pl.data(), pl.size(), tag, ek);
    memcpy(r.data() + 16 + pl.size(), tag, 12);
    Wrapper w(mkkey<32>(wk));
    bool    ok = false;
    try {
        typename T::type y = w.template unwrap<typename T::type>(r);
        ok                 = true;
    } catch (const std::exception&) {
    }
    vp_assert(!ok, "object with a wrong tag accepted");
}
// wrapped as one type (or under one key), unwrapped as another
template<class X, class Y>
static void cross()
{
    X       x;
    Y       y;
    uint8_t wk[32], wk2[32], tk[32], ek[32], tag[12], diff = 0;
    vp_sym(wk, 32, "wkey");
    memcpy(wk2, wk, 32);
    if (vp_param("otherkey", 0))
        vp_sym(wk2, 32, "wkey2");
    Wrapper          w(mkkey<32>(wk)), w2(mkkey<32>(wk2));
    typename X::type obj = x.make();
    bytes            r   = w.wrap(obj);
    size_t           n   = r.size() - 28;
    bytes            q(n);
    o_wrap_keys(wk2, tk, ek);
    crypto_stream_chacha20_ietf_xor(q.data(), r.data() + 16, n, r.data() + 16 + n, ek);
    o_wrap_tag(tk, r.data(), y.ctx(), q.data(), n, tag);
    for (int i = 0; i < 12; i++)
        diff = (uint8_t)(diff | (tag[i] ^ r[16 + n + i]));
    vp_assume(diff != 0);   // not a collision of the tag function
    bool ok = false;
    try {
        typename Y::type o = w2.template unwrap<typename Y::type>(r);
        ok                 = true;
    } catch (const std::exception&) {
    }
    vp_assert(!ok, "object wrapped as another type or under another key accepted");
}
// an object wrapped by the library itself, with one byte changed (or none)
template<class T>
static void changed()
{
    T       t;
    uint8_t wk[32], tk[32], ek[32], tag[12], diff = 0;
    vp_sym(wk, 32, "wkey");
    typename T::type obj = t.make();
    Wrapper          w(mkkey<32>(wk));
    bytes            r = w.wrap(obj);
    vp_assert(r.size() > 28, "wrapped form too short");
    size_t n   = r.size() - 28;
    const size_t where[8] = {n + 28, 0, 15, 16, 16 + n / 2, n + 15, n + 16, n + 27};
    size_t       pos      = where[vp_concretize(vp_range("pos", 0, 7))];
    if (pos < r.size())
        r[pos] = (uint8_t)(r[pos] ^ vp_range("flip", 1, 255));
    bytes q(n);
    o_wrap_keys(wk, tk, ek);
    crypto_stream_chacha20_ietf_xor(q.data(), r.data() + 16, n, r.data() + 16 + n, ek);
    o_wrap_tag(tk, r.data(), t.ctx(), q.data(), n, tag);
    for (int i = 0; i < 12; i++)
        diff = (uint8_t)(diff | (tag[i] ^ r[16 + n + i]));
    if (pos < n + 28)
        vp_assume(diff != 0);   // not a collision of the tag function
    bool ok = false;
    try {
        typename T::type y = w.template unwrap<typename T::type>(r);
        ok                 = true;
    } catch (const std::exception&) {
    }
    if (ok)
        vp_assert(diff == 0, "object accepted although the tag does not authenticate it as this type");
    vp_assert(ok == (pos == n + 28), "unchanged object rejected or changed object accepted");
}
static void crossings()
{
    switch (vp_concretize(vp_range("pair", vp_param("p0", 0), vp_param("p1", 13)))) {
    case 0: cross<TCipher, TPrg>(); break;
    case 1: cross<TPrg, TCipher>(); break;
    case 2: cross<TCipher, TPrf<12>>(); break;
    case 3: cross<TPrf<12>, TPrg>(); break;
    case 4: cross<TPrf<12>, TPrf<64>>(); break;
    case 5: cross<TPrf<44>, TPrf<300>>(); break;    // same low byte of the size
    case 6: cross<TPrf<256>, TPrf<1>>(); break;     // same non-zero byte of the size
    case 7: cross<TRCPrf<16>, TRCPrf<32>>(); break;
    case 8: cross<TCRCPrf<11>, TRCPrf<11>>(); break;
    case 9: cross<TRCPrf<11>, TCRCPrf<11>>(); break;
    case 10: cross<TPrg, TPrf<32>>(); break;
    case 11: cross<TPrf<300>, TPrf<44>>(); break;
    case 12: cross<TCRCPrf<32>, TCRCPrf<16>>(); break;
    default: cross<TPrf<16>, TPrf<17>>(); break;
    }
}
// ---- C11: any payload, correctly authenticated, reaching object reconstruction
template<class Y>
static void payload_fixed(const bytes& ctx, size_t fixed)
{
    uint8_t wk[32], iv[16];
    vp_sym(wk, 32, "wkey");
    vp_sym(iv, 16, "iv");
    size_t n = (size_t)vp_concretize(vp_range("n", vp_param("lo", 1), vp_param("hi", 60)));
    bytes  pl(n);
    vp_sym(pl.data(), n, "payload");
    Wrapper w(mkkey<32>(wk));
    bytes   r     = o_wrap(wk, iv, ctx, pl.data(), n);
    size_t  live0 = vp_live(), sl0 = vp_sodium_live();
    bool    ok    = false;
    try {
        Y y = w.template unwrap<Y>(r);
        ok  = true;
        bytes again = w.wrap(y);
        vp_assert(again.size() == n + 28, "reconstructed object has another size");
        bytes ref = o_wrap(wk, again.data(), ctx, pl.data(), n);
        vp_assert_eq(again.data(), ref.data(), ref.size(), "reconstructed object is not the one of the payload");
        vp_cover("accepted");
    } catch (const std::exception&) {
    }
    vp_assert(ok == (n == fixed), "payload of the wrong size accepted, or of the right size rejected");
    vp_assert(vp_sodium_live() == sl0, "reconstruction leaks protected memory");
    vp_assert(vp_live() == live0, "reconstruction leaks memory");
}
template<uint16_t N>
static void payload_rc()
{
    uint8_t wk[32], iv[16];
    vp_sym(wk, 32, "wkey");
    vp_sym(iv, 16, "iv");
    size_t n = (size_t)vp_concretize(vp_range("n", vp_param("lo", 1), vp_param("hi", 60)));
    bytes  pl(n);
    vp_sym(pl.data(), n, "payload");
    Wrapper w(mkkey<32>(wk));
    bytes   ctx{5, (uint8_t)(N >> 8), (uint8_t)N};
    bytes   r     = o_wrap(wk, iv, ctx, pl.data(), n);
    size_t  live0 = vp_live(), sl0 = vp_sodium_live();
    bool    ok    = false;
    try {
        RCPrf<N> y = w.template unwrap<RCPrf<N>>(r);
        ok         = true;
        vp_assert(y.tree_height() == pl[0], "height differs from the payload's");
        bytes again = w.wrap(y);
        bytes ref   = o_wrap(wk, again.data(), ctx, pl.data(), n);
        vp_assert(again.size() == n + 28, "reconstructed object has another size");
        vp_assert_eq(again.data(), ref.data(), ref.size(), "reconstructed object is not the one of the payload");
        vp_cover("accepted");
    } catch (const std::exception&) {
    }
    vp_assert(ok == (n == 33 && pl[0] >= 2 && pl[0] <= 64), "ill-formed RC-PRF accepted, or well-formed one rejected");
    vp_assert(vp_sodium_live() == sl0, "reconstruction leaks protected memory");
    vp_assert(vp_live() == live0, "reconstruction leaks memory");
}
// constrained RC-PRF: n bytes, of which the counts, heights and ranges are arbitrary
template<uint16_t N>
static void payload_crc()
{
    uint8_t wk[32], iv[16];
    vp_sym(wk, 32, "wkey");
    vp_sym(iv, 16, "iv");
    size_t n = (size_t)vp_concretize(vp_range("n", vp_param("lo", 1), vp_param("hi", 60)));
    bytes  pl(n);
    vp_sym(pl.data(), n, "payload");
    Wrapper w(mkkey<32>(wk));
    bytes   ctx{6, (uint8_t)(N >> 8), (uint8_t)N};
    bytes   r     = o_wrap(wk, iv, ctx, pl.data(), n);
    size_t  live0 = vp_live(), sl0 = vp_sodium_live();
    bool    ok    = false;
    try {
        ConstrainedRCPrf<N> y = w.template unwrap<ConstrainedRCPrf<N>>(r);
        ok                    = true;
        // the payload must describe disjoint consecutive subtrees of one tree
        unsigned h = pl[0];
        vp_assert(h >= 2 && h <= 64, "accepted a tree of impossible height");
        uint32_t cnt;
        memcpy(&cnt, pl.data() + 1, 4);
        cnt = (uint32_t)vp_concretize(cnt);
        vp_assert(cnt >= 1, "accepted an empty key");
        size_t   pos  = 5;
        uint64_t lo[8], hi[8];
        vp_assert(cnt <= 8, "more components than the payload can hold");
        for (uint32_t i = 0; i < cnt; i++) {
            vp_assert(pos + 17 <= n, "accepted a truncated component");
            unsigned sh = pl[pos];
            memcpy(&lo[i], pl.data() + pos + 1, 8);
            memcpy(&hi[i], pl.data() + pos + 9, 8);
            vp_assert(sh >= 1 && sh < h, "accepted a component that is not a proper subtree");
            vp_assert(hi[i] - lo[i] == (((uint64_t)1) << (sh - 1)) - 1 && lo[i] <= hi[i], "accepted a component that does not span its subtree");
            vp_assert(hi[i] <= (((uint64_t)1) << (h - 1)) - 1, "accepted a component beyond the tree");
            vp_assert((lo[i] & (hi[i] - lo[i])) == 0, "accepted a component that is no subtree of the tree");
            size_t m = vp_concretize(sh == 1) ? N : 32;
            pos += 17 + m;
        }
        vp_assert(pos == n, "accepted a payload with missing or superfluous bytes");
        uint64_t mn = lo[0], mx = hi[0], total = 0;
        for (uint32_t i = 0; i < cnt; i++) {
            mn = vp_ite(lo[i] < mn, lo[i], mn);
            mx = vp_ite(hi[i] > mx, hi[i], mx);
            total += hi[i] - lo[i] + 1;
            for (uint32_t j = 0; j < i; j++)
                vp_assert(hi[i] < lo[j] || hi[j] < lo[i], "accepted overlapping components");
        }
        vp_assert(total == mx - mn + 1, "accepted non-consecutive components");
        vp_assert(y.min_leaf() == mn && y.max_leaf() == mx && y.tree_height() == h, "reconstructed range differs from the payload's");
        if (vp_param("evalh", 0)) {
            vp_assume(h == vp_param("evalh", 0));
            uint64_t leaf = vp_concretize(vp_range("leaf", 0, top((unsigned)vp_param("evalh", 0))));
            bool     got  = false;
            try {
                auto v = y.eval(leaf);
                got    = true;
                (void)v;
            } catch (const std::out_of_range&) {
            }
            vp_assert(got == (leaf >= mn && leaf <= mx), "reconstructed key does not evaluate exactly its range");
        }
        vp_cover("accepted");
    } catch (const std::exception&) {
    }
    vp_assert(vp_sodium_live() == sl0, "reconstruction leaks protected memory");
    vp_assert(vp_live() == live0, "reconstruction leaks memory");
    (void)ok;
}
template<class T>
static void truncated()   // genuine payloads, shortened or extended, then correctly authenticated
{
    T       t;
    uint8_t wk[32], iv[16];
    vp_sym(wk, 32, "wkey");
    vp_sym(iv, 16, "iv");
    size_t live0, sl0;
    {
        typename T::type obj = t.make();
        bytes            pl  = payload_of(t, obj);
        size_t           n   = (size_t)vp_concretize(vp_range("keep", 1, pl.size() + 3));
        vp_assume(n != pl.size());
        size_t old = pl.size();
        pl.resize(n);
        if (n > old)
            vp_sym(pl.data() + old, n - old, "extra");
        Wrapper w(mkkey<32>(wk));
        bytes   r = o_wrap(wk, iv, t.ctx(), pl.data(), n);
        live0     = vp_live();
        sl0       = vp_sodium_live();
        bool ok   = false;
        try {
            typename T::type y = w.template unwrap<typename T::type>(r);
            ok                 = true;
        } catch (const std::exception&) {
        }
        vp_assert(!ok, "truncated or extended object accepted");
        vp_assert(vp_sodium_live() == sl0, "reconstruction leaks protected memory");
        vp_assert(vp_live() == live0, "reconstruction leaks memory");
    }
}
extern "C" void vp_main(void)
{
    uint64_t mode = vp_param("mode", 0), ty = vp_param("type", 0);
    if (mode == 0 || mode == 2 || mode == 5 || mode == 6 || mode == 8) {
#define ALL(F)                                                                                              \
    switch (ty) {                                                                                           \
    case 0: F<TCipher>(); break;                                                                            \
    case 1: F<TPrf<12>>(); break;                                                                           \
    case 2: F<TPrf<300>>(); break;                                                                          \
    case 3: F<TPrg>(); break;                                                                               \
    case 4: F<TPrp>(); break;                                                                               \
    case 5: F<TRCPrf<16>>(); break;                                                                         \
    case 6: F<TRCPrf<32>>(); break;                                                                         \
    case 7: F<TCRCPrf<16>>(); break;                                                                        \
    case 8: F<TCRCPrf<32>>(); break;                                                                        \
    case 9: F<TRCPrf<11>>(); break;                                                                         \
    case 10: F<TCRCPrf<11>>(); break;                                                                       \
    case 11: F<TPrf<1>>(); break;                                                                           \
    default: F<TPrf<64>>(); break;                                                                          \
    }
        if (mode == 0) { ALL(roundtrip) }
        else if (mode == 2) { ALL(tampered) }
        else if (mode == 6) { ALL(retagged) }
        else if (mode == 8) { ALL(changed) }
        else { ALL(truncated) }
    } else if (mode == 1) {
        switch (ty) {
        case 0: forged<Cipher>(bytes{1}, 32); break;
        case 1: forged<Prf<12>>(bytes{2, 0, 12}, 32); break;
        case 2: forged<Prf<300>>(bytes{2, 1, 44}, 32); break;
        case 3: forged<Prg>(bytes{3}, 32); break;
        case 4: init_crypto_lib(); forged<Prp>(bytes{4}, 112); break;
        case 5: forged<RCPrf<16>>(bytes{5, 0, 16}, 0); break;
        case 6: forged<RCPrf<32>>(bytes{5, 0, 32}, 0); break;
        case 7: forged<ConstrainedRCPrf<16>>(bytes{6, 0, 16}, 0); break;
        default: forged<ConstrainedRCPrf<32>>(bytes{6, 0, 32}, 0); break;
        }
    } else if (mode == 7) {
        if (vp_param("otherkey", 0)) {
            switch (ty) {
            case 0: cross<TCipher, TCipher>(); break;
            case 4: cross<TPrp, TPrp>(); break;
            default: cross<TPrg, TPrg>(); break;
            }
        } else
            crossings();
    } else if (mode == 3) {
        switch (ty) {
        case 0: too_short<Cipher>(""); break;
        case 1: too_short<Prf<12>>(""); break;
        case 3: too_short<Prg>(""); break;
        case 4: init_crypto_lib(); too_short<Prp>(""); break;
        case 5: too_short<RCPrf<16>>(""); break;
        default: too_short<ConstrainedRCPrf<16>>(""); break;
        }
    } else if (mode == 4) {
        switch (ty) {
        case 0: payload_fixed<Cipher>(bytes{1}, 32); break;
        case 1: payload_fixed<Prf<12>>(bytes{2, 0, 12}, 32); break;
        case 3: payload_fixed<Prg>(bytes{3}, 32); break;
        case 4: init_crypto_lib(); payload_fixed<Prp>(bytes{4}, 112); break;
        case 5: payload_rc<16>(); break;
        case 7: payload_crc<16>(); break;
        case 8: payload_crc<32>(); break;
        default: payload_crc<11>(); break;
        }
    }
    vp_cover("end");
}
