// C14: SetHash
#include "oracle.hpp"
#include "set_hash.hpp"
#include "hash.hpp"
#include "ed_pairs.inc"
using namespace sse::crypto;
typedef std::array<uint8_t, 32> Pt;
static const uint8_t NEUTRAL[32] = {1};

static void point(const std::string& s, uint8_t* p)
{
    uint8_t h[64];
    o_hash(u8(s), s.size(), h);
    crypto_core_ed25519_from_uniform(p, h);
}
static void plus(uint8_t* acc, const uint8_t* p) { crypto_core_ed25519_add(acc, acc, p); }
static void minus(uint8_t* acc, const uint8_t* p) { crypto_core_ed25519_sub(acc, acc, p); }

static std::string elem(int i)
{
    size_t n = ((vp_param("lens", 0x5021) >> (4 * i)) & 15) + vp_param("longer", 0) * 64;
    Buf    x(n, "elem");
    return x.str();
}
// histories: L operations, each over one of three elements or over a set of two of them
static void history()
{
    std::string e[3] = {elem(0), elem(1), elem(3)};
    Pt          p[3];
    SetHash     pair[3];
    Pt          pp[3];
    for (int i = 0; i < 3; i++)
        point(e[i], p[i].data());
    for (int i = 0; i < 3; i++) {
        pair[i].add_element(e[i]);
        pair[i].add_element(e[(i + 1) % 3]);
        memcpy(pp[i].data(), NEUTRAL, 32);
        plus(pp[i].data(), p[(i + 1) % 3].data());
        plus(pp[i].data(), p[i].data());
        vp_assert_eq(pair[i].data().data(), pp[i].data(), 32, "set of two elements is not the group sum");
    }
    SetHash h;
    vp_assert_eq(h.data().data(), NEUTRAL, 32, "the empty set is not the neutral element");
    int      count[3] = {0, 0, 0};
    uint64_t L        = vp_param("L", 2);
    for (uint64_t k = 0; k < L; k++) {
        uint64_t op = vp_concretize(vp_range("op", 0, 11));
        int      i  = (int)(op % 3);
        switch (op / 3) {
        case 0:
            h.add_element(e[i]);
            count[i]++;
            break;
        case 1:
            h.remove_element(e[i]);
            count[i]--;
            break;
        case 2:
            h.add_set(pair[i]);
            count[i]++;
            count[(i + 1) % 3]++;
            break;
        default:
            h.remove_set(pair[i]);
            count[i]--;
            count[(i + 1) % 3]--;
        }
        vp_assert_eq(pair[i].data().data(), pp[i].data(), 32, "operation changed its argument");
    }
    // canonical order: the multiset alone
    uint8_t ref[32];
    memcpy(ref, NEUTRAL, 32);
    for (int i = 2; i >= 0; i--) {
        for (int c = count[i]; c > 0; c--)
            plus(ref, p[i].data());
        for (int c = count[i]; c < 0; c++)
            minus(ref, p[i].data());
    }
    vp_assert_eq(h.data().data(), ref, 32, "hash value depends on more than the resulting multiset");
}
static void ctor()
{
    std::vector<std::string> v;
    uint64_t                 n = vp_concretize(vp_range("n", 0, 4));
    uint8_t                  ref[32], q[32];
    memcpy(ref, NEUTRAL, 32);
    SetHash h;
    for (uint64_t i = 0; i < n; i++) {
        v.push_back(elem((int)i));
        point(v.back(), q);
        plus(ref, q);
        h.add_element(v.back());
    }
    SetHash g(v);
    vp_assert_eq(g.data().data(), ref, 32, "construction from a vector is not the group sum");
    vp_assert_eq(h.data().data(), ref, 32, "adding elements is not the group sum");
    vp_assert(g == h, "equal multisets compare different");
    vp_assert(!(g != h), "equal multisets compare different");
    SetHash c(g), d;
    d = g;
    vp_assert_eq(c.data().data(), ref, 32, "copy differs");
    vp_assert_eq(d.data().data(), ref, 32, "assigned copy differs");
    SetHash m(std::move(c));
    vp_assert_eq(m.data().data(), ref, 32, "moved value differs");
    // the copy is independent
    d.add_element("x");
    vp_assert_eq(g.data().data(), ref, 32, "changing a copy changed the original");
    // self operations
    m.remove_set(m);
    vp_assert_eq(m.data().data(), NEUTRAL, 32, "removing a set from itself does not give the empty set");
    m.add_set(g);
    m.add_set(m);
    uint8_t twice[32];
    memcpy(twice, ref, 32);
    plus(twice, ref);
    vp_assert_eq(m.data().data(), twice, 32, "adding a set to itself is not the group sum");
}
static bool make(const Pt& b, Pt& out)
{
    try {
        SetHash h(b);
        out = h.data();
    } catch (const std::exception&) {
        return false;
    }
    return true;
}
static void reconstruct()
{
    Pt b, out;
    vp_sym(b.data(), 32, "bytes");
    bool ok   = make(b, out);
    int  good = (crypto_core_ed25519_is_valid_point(b.data()) == 1) | vp_eq(b.data(), NEUTRAL, 32);
    if (ok) {
        vp_cover("accepted");
        vp_assert(good, "bytes that are neither a valid point nor the neutral value accepted");
        vp_assert_eq(out.data(), b.data(), 32, "reconstruction changes the value");
    } else {
        vp_cover("rejected");
        vp_assert(!good, "valid value rejected");
    }
    memcpy(b.data(), NEUTRAL, 32);
    vp_assert(make(b, out), "the neutral value is rejected");
    vp_assert_eq(out.data(), NEUTRAL, 32, "reconstruction changes the neutral value");
    // export of a genuine value
    SetHash h;
    h.add_element(elem(1));
    SetHash g(h.data());
    vp_assert_eq(g.data().data(), h.data().data(), 32, "export and reconstruction differ");
    vp_assert(g == h, "export and reconstruction compare different");
}
static void equality()
{
    // P and -P
    std::string e = elem(1);
    SetHash     a, b;
    a.add_element(e);
    b.remove_element(e);
    int same = vp_eq(a.data().data(), b.data().data(), 32);
    vp_assert((a == b) == (same != 0), "== does not compare the complete value");
    vp_assert((a != b) == (same == 0), "!= does not compare the complete value");
    // pairs of points whose encodings differ in one byte
    uint64_t j = vp_concretize(vp_range("byte", 0, 31));
    Pt       x, y;
    memcpy(x.data(), ed_pairs[j][0], 32);
    memcpy(y.data(), ed_pairs[j][1], 32);
    vp_assume(crypto_core_ed25519_is_valid_point(x.data()) == 1);
    vp_assume(crypto_core_ed25519_is_valid_point(y.data()) == 1);
    SetHash p(x), q(y), r(x);
    vp_assert(!(p == q), "values differing in one byte compare equal");
    vp_assert(p != q, "values differing in one byte compare equal");
    vp_assert(p == r, "identical values compare different");
    vp_assert(!(p != r), "identical values compare different");
    vp_assert_eq(p.data().data(), x.data(), 32, "reconstruction changes the value");
    q.add_set(p);
    crypto_core_ed25519_add(y.data(), y.data(), x.data());
    vp_assert_eq(q.data().data(), y.data(), 32, "sum of reconstructed values is not the group sum");
}
extern "C" void vp_main(void)
{
    switch (vp_param("mode", 0)) {
    case 0: history(); break;
    case 1: ctor(); break;
    case 2: reconstruct(); break;
    default: equality(); break;
    }
    vp_cover("end");
}
