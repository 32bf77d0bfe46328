// C06, C07, C08: range-constrained PRF
#include "oracle.hpp"
#include "rcprf.hpp"
#include "wrapper.hpp"
using namespace sse::crypto;


enum Outcome { VALUE, OUT_OF_RANGE, INVALID, OTHER };
template<class F>
static Outcome attempt(F f)
{
    try {
        f();
    } catch (const std::out_of_range&) {
        return OUT_OF_RANGE;
    } catch (const std::invalid_argument&) {
        return INVALID;
    } catch (const std::exception&) {
        return OTHER;
    }
    return VALUE;
}
template<class P, size_t NB>
static Outcome try_eval(const P& p, uint64_t leaf, std::array<uint8_t, NB>& out)
{
    return attempt([&] { out = p.eval(leaf); });
}
template<class P>
static Outcome try_constrain(const P& p, uint64_t a, uint64_t b)
{
    return attempt([&] { auto c = p.constrain(a, b); });
}
template<class P, size_t NB>
static Outcome try_range(const P& p, uint64_t a, uint64_t b, uint64_t& calls)
{
    return attempt([&] { p.eval_range(a, b, [&](uint64_t, const std::array<uint8_t, NB>&) { calls++; }); });
}
// an arbitrary point: anything when wide, otherwise within the window [base, base+W)
struct Space {
    unsigned h;
    uint64_t base, W;
    uint64_t pick(const char* n) const { return base + vp_concretize(vp_range(n, 0, W - 1)); }
};
static Space space()
{
    Space    s;
    s.h         = (unsigned)vp_param("h", 4);
    if (vp_param("h1", 0))
        s.h = (unsigned)vp_concretize(vp_range("height", s.h, vp_param("h1", 0)));
    uint64_t n  = top(s.h);
    s.W         = vp_param("W", 0);
    if (s.W == 0 || s.W > n) {
        s.base = 0;
        s.W    = n + 1;
        return s;
    }
    switch (vp_param("where", 0)) {
    case 0: s.base = 0; break;
    case 1: s.base = n + 1 - s.W; break;                                   // end of the tree
    case 2: s.base = (n >> 1) + 1 - s.W / 2; break;                        // around the root's middle
    case 3: s.base = (0x5555555555555555ULL & n) - s.W / 2; break;
    default: s.base = ((n >> 2) + 1) * 3 - s.W / 2; break;                 // around three quarters
    }
    return s;
}
// ---- C06
template<size_t NB>
static void full_eval(const uint8_t* key)
{
    Space                     s = space();
    uint64_t                  leaf = vp_range("leaf", 0, top(s.h));
    RCPrf<NB>                 p(mkkey<32>(key), (uint8_t)s.h);
    std::array<uint8_t, NB>   v;
    uint8_t                   ref[NB];
    vp_assert(try_eval(p, leaf, v) == VALUE, "full key rejects a leaf of its tree");
    o_leaf<NB>(key, s.h, leaf, ref);
    vp_assert_eq(v.data(), ref, NB, "value is not the one at the leaf's tree position");
    vp_assert(p.tree_height() == s.h, "height not reported");
}
template<size_t NB>
static void check_inside(const ConstrainedRCPrf<NB>& c, const uint8_t* key, unsigned h, uint64_t leaf)
{
    std::array<uint8_t, NB> v;
    uint8_t                 ref[NB];
    v.fill(0x77);
    vp_assert(try_eval(c, leaf, v) == VALUE, "constrained key rejects a leaf of its range");
    o_leaf<NB>(key, h, leaf, ref);
    vp_assert_eq(v.data(), ref, NB, "constrained key evaluates differently from the full key");
}
template<size_t NB>
static void constrained_eval(const uint8_t* key, unsigned levels)
{
    Space     s = space();
    RCPrf<NB> p(mkkey<32>(key), (uint8_t)s.h);
    uint64_t  a = s.pick("min"), b = s.pick("max");
    vp_assume(a <= b);
    if (vp_param("span", 0)) {   // ranges over the whole tree: from the window at the start to its mirror image
        b = top(s.h) - (b - s.base);
        a = a - s.base;
        vp_assume(a <= b);
    }
    vp_assume(!(a == 0 && b == top(s.h)));
    ConstrainedRCPrf<NB> c = p.constrain(a, b);
    for (unsigned i = 1; i < levels; i++) {
        uint64_t na = a + vp_concretize(vp_range("nmin", 0, b - a)), nb = na + vp_concretize(vp_range("nlen", 0, b - na));
        c = c.constrain(na, nb);
        a = na;
        b = nb;
    }
    uint64_t leaf;
    if (vp_param("span", 0)) {
        uint64_t k = vp_concretize(vp_range("leafsel", 0, 3 * s.h + 5)), mid = s.h - 2;
        // both ends, and the positions next to every power of two
        if (k < 3) leaf = a + k;
        else if (k < 6) leaf = b - (k - 3);
        else leaf = (((uint64_t)1) << ((k - 6) / 3 < mid ? (k - 6) / 3 : mid)) - 1 + (k - 6) % 3;
        vp_assume(a <= leaf && leaf <= b);
    } else
        leaf = a + vp_concretize(vp_range("leaf", 0, b - a));
    check_inside<NB>(c, key, s.h, leaf);
    // the full key still works
    std::array<uint8_t, NB> v;
    uint8_t                 ref[NB];
    vp_assert(try_eval(p, leaf, v) == VALUE, "full key rejects a leaf of its tree");
    o_leaf<NB>(key, s.h, leaf, ref);
    vp_assert_eq(v.data(), ref, NB, "full key evaluates differently after constraining");
    // moving
    ConstrainedRCPrf<NB> m(std::move(c));
    check_inside<NB>(m, key, s.h, leaf);
}
// ---- C07
template<size_t NB>
static void coverage(const uint8_t* key, unsigned levels)
{
    Space     s = space();
    RCPrf<NB> p(mkkey<32>(key), (uint8_t)s.h);
    uint64_t  a = s.pick("min"), b = s.pick("max");
    if (vp_param("span", 0)) {
        b = top(s.h) - (b - s.base);
        a = a - s.base;
    }
    vp_assume(a <= b);
    vp_assume(!(a == 0 && b == top(s.h)));
    ConstrainedRCPrf<NB> c = p.constrain(a, b);
    for (unsigned i = 1; i < levels; i++) {
        uint64_t na = a + vp_concretize(vp_range("nmin", 0, b - a)), nb = na + vp_concretize(vp_range("nlen", 0, b - na));
        c = c.constrain(na, nb);
        a = na;
        b = nb;
    }
    vp_assert(!c.is_empty(), "constrained key is empty");
    vp_assert(c.min_leaf() == a, "constrained key does not report its minimum");
    vp_assert(c.max_leaf() == b, "constrained key does not report its maximum");
    vp_assert(c.tree_height() == s.h, "constrained key does not report its height");
    // everything outside is rejected, whatever the 64-bit request
    std::array<uint8_t, NB> v;
    uint64_t                x = vp_range("outside", 0, ~(uint64_t)0), y = vp_range("outside2", 0, ~(uint64_t)0), calls = 0;
    vp_assume(x < a || x > b);
    vp_assert(try_eval(c, x, v) == OUT_OF_RANGE, "leaf outside the range not rejected");
    switch (vp_concretize(vp_range("kind", 0, 3))) {
    case 0:
        vp_assume(x <= y);
        break;
    case 1:
        vp_assume(y <= x);
        x = y;
        y = vp_range("outside3", 0, ~(uint64_t)0);
        vp_assume(y > b && x <= y);
        break;
    case 2:
        vp_assume(x > y);                 // inverted and outside
        break;
    default:                              // inverted inside
        vp_assume(a < b);
        y = a + vp_concretize(vp_range("iy", 0, b - a - 1));
        x = y + 1 + vp_concretize(vp_range("ix", 0, b - y - 1));
        break;
    }
    vp_assert(try_constrain(c, x, y) != VALUE, "constraint leaving the range (or inverted) not rejected");
    Outcome o = try_range<ConstrainedRCPrf<NB>, NB>(c, x, y, calls);
    vp_assert(o != VALUE, "range evaluation leaving the range (or inverted) not rejected");
    vp_assert(calls == 0, "callback invoked for a rejected range");
}
// the serialised contents hold exactly the node keys of the cover (seen through the wrapped form)
template<size_t NB>
static void material(const uint8_t* key, unsigned levels)
{
    Space     s = space();
    RCPrf<NB> p(mkkey<32>(key), (uint8_t)s.h);
    uint64_t  a = s.pick("min"), b = s.pick("max");
    if (vp_param("span", 0)) {
        b = top(s.h) - (b - s.base);
        a = a - s.base;
    }
    vp_assume(a <= b);
    vp_assume(!(a == 0 && b == top(s.h)));
    ConstrainedRCPrf<NB> c = p.constrain(a, b);
    for (unsigned i = 1; i < levels; i++) {
        uint64_t na = a + vp_concretize(vp_range("nmin", 0, b - a)), nb = na + vp_concretize(vp_range("nlen", 0, b - na));
        c = c.constrain(na, nb);
        a = na;
        b = nb;
    }
    uint8_t              wk[32], tk[32], ek[32];
    vp_sym(wk, 32, "wkey");
    Wrapper              w(mkkey<32>(wk));
    std::vector<uint8_t> r = w.wrap(c);
    vp_assert(r.size() > 28 + 5, "wrapped constrained key too short");
    size_t               n = r.size() - 28;
    std::vector<uint8_t> pl(n);
    o_wrap_keys(wk, tk, ek);
    crypto_stream_chacha20_ietf_xor(pl.data(), r.data() + 16, n, r.data() + 16 + n, ek);
    uint32_t cnt = 0;
    vp_assert(pl[0] == s.h, "height not serialised");
    memcpy(&cnt, pl.data() + 1, 4);
    size_t   pos  = 5;
    uint64_t next = a, k;
    for (k = 0; k < vp_concretize(cnt); k++) {
        uint64_t lo, hi;
        uint8_t  ref[64];
        vp_assert(pos + 17 <= n, "truncated component");
        unsigned sh = pl[pos];
        memcpy(&lo, pl.data() + pos + 1, 8);
        memcpy(&hi, pl.data() + pos + 9, 8);
        pos += 17;
        vp_assert(lo == next, "components are not consecutive");
        vp_assert(sh >= 1 && sh < s.h && hi - lo == top(sh) && (lo & top(sh)) == 0 && hi <= b, "component is not a subtree inside the range");
        lo = vp_concretize(lo);
        sh = (unsigned)vp_concretize(sh);
        size_t m = sh == 1 ? NB : 32;
        if (sh == 1)
            o_leaf<NB>(key, s.h, lo, ref);
        else
            o_node(key, s.h, lo, s.h - sh, ref);
        vp_assert(pos + m <= n, "truncated component");
        vp_assert_eq(pl.data() + pos, ref, m, "component holds other key material than its own subtree's");
        pos += m;
        next = hi + 1;
    }
    vp_assert(next == b + 1, "components do not reach the end of the range");
    vp_assert(pos == n, "constrained key holds more than its components");
}
template<size_t NB>
static void full_rejects(const uint8_t* key)
{
    Space     s = space();
    RCPrf<NB> p(mkkey<32>(key), (uint8_t)s.h);
    uint64_t  x = vp_range("x", 0, ~(uint64_t)0), y = vp_range("y", 0, ~(uint64_t)0), calls = 0;
    std::array<uint8_t, NB> v;
    switch (vp_concretize(vp_range("kind", 0, 3))) {
    case 0:
        vp_assume(x > top(s.h));
        vp_assert(try_eval(p, x, v) == OUT_OF_RANGE, "leaf beyond the tree not rejected");
        break;
    case 1:
        vp_assume(x > y);
        vp_assert(try_constrain(p, x, y) != VALUE, "inverted constraint not rejected");
        vp_assert((try_range<RCPrf<NB>, NB>(p, x, y, calls)) != VALUE, "inverted range evaluation not rejected");
        vp_assert(calls == 0, "callback invoked for a rejected range");
        break;
    case 2:
        vp_assume(x <= y && y > top(s.h));
        vp_assert(try_constrain(p, x, y) == OUT_OF_RANGE, "constraint beyond the tree not rejected");
        vp_assert((try_range<RCPrf<NB>, NB>(p, x, y, calls)) == OUT_OF_RANGE, "range evaluation beyond the tree not rejected");
        vp_assert(calls == 0, "callback invoked for a rejected range");
        break;
    default:
        vp_assert(try_constrain(p, 0, top(s.h)) == OUT_OF_RANGE, "complete range not rejected");
        {
            uint64_t h = vp_range("badheight", 0, 255);
            vp_assume(h <= 1 || h > 64);
            vp_assert(attempt([&] { RCPrf<NB> q(mkkey<32>(key), (uint8_t)h); }) == INVALID, "invalid height not rejected");
        }
        break;
    }
}
// ---- C08
template<size_t NB, class P>
static void check_range(const P& p, const uint8_t* key, unsigned h, uint64_t a, uint64_t b)
{
    std::vector<uint64_t>                idx;
    std::vector<std::array<uint8_t, NB>> val;
    p.eval_range(a, b, [&](uint64_t i, const std::array<uint8_t, NB>& v) {
        idx.push_back(i);
        val.push_back(v);
    });
    vp_assert(idx.size() == b - a + 1, "callback not invoked exactly once per leaf");
    for (size_t i = 0; i < idx.size() && i <= b - a; i++) {
        uint8_t ref[NB];
        vp_assert(idx[i] == a + i, "leaves not visited in increasing order");
        o_leaf<NB>(key, h, a + i, ref);
        vp_assert_eq(val[i].data(), ref, NB, "range evaluation differs from the value of the leaf");
        std::array<uint8_t, NB> v;
        vp_assert(try_eval(p, a + i, v) == VALUE, "leaf of the range rejected");
        vp_assert_eq(v.data(), ref, NB, "single-leaf evaluation differs from range evaluation");
    }
}
template<size_t NB>
static void ranges(const uint8_t* key, int constrained)
{
    Space     s = space();
    RCPrf<NB> p(mkkey<32>(key), (uint8_t)s.h);
    uint64_t  a = s.pick("min"), b = s.pick("max");
    vp_assume(a <= b);
    if (!constrained) {
        check_range<NB>(p, key, s.h, a, b);
        return;
    }
    vp_assume(!(a == 0 && b == top(s.h)));
    ConstrainedRCPrf<NB> c  = p.constrain(a, b);
    uint64_t             na = a + vp_concretize(vp_range("nmin", 0, b - a)), nb = na + vp_concretize(vp_range("nlen", 0, b - na));
    if (constrained == 2)
        c = c.constrain(na, nb);
    check_range<NB>(c, key, s.h, na, nb);
}
template<size_t NB>
static void all(uint64_t mode, const uint8_t* key)
{
    switch (mode) {
    case 0: full_eval<NB>(key); break;
    case 1: constrained_eval<NB>(key, (unsigned)vp_param("levels", 1)); break;
    case 2: coverage<NB>(key, (unsigned)vp_param("levels", 1)); break;
    case 3: material<NB>(key, (unsigned)vp_param("levels", 1)); break;
    case 4: full_rejects<NB>(key); break;
    default: ranges<NB>(key, (int)vp_param("constrained", 0)); break;
    }
}
extern "C" void vp_main(void)
{
    uint8_t key[32];
    vp_sym(key, 32, "key");
    if (vp_param("nb", 16) == 16)
        all<16>(vp_param("mode", 0), key);
    else
        all<32>(vp_param("mode", 0), key);
    vp_cover("end");
}
