// C17: the big-integer arithmetic of src/mbedtls/bignum.c, against limb-wise definitions.
// With LIMB8 the same source is encoded with 8-bit limbs (symbolic run only); a counterexample is lifted to the 64-bit limbs of
// the real build in many ways, and only counts if one of the lifted ones fails there.
#include "vp.h"
#include <cstdlib>
#include <cstring>

#include "mbedtls/bignum.h"

typedef mbedtls_mpi_uint L;
static const unsigned LB = 8 * sizeof(L);
static const size_t   MAXN = 13;
#ifdef LIMB8
typedef unsigned int DL;
#else
typedef unsigned __int128 DL;
#endif
static size_t g_w = MAXN; // limbs that the definitions below work on; all higher ones are zero
struct Num {
    int    s;
    size_t n;
    L      p[MAXN];
};
// ---- inputs -------------------------------------------------------------------------------------------------------------
static uint64_t g_lift = 0, g_rnd = 0;
static uint64_t rnd()
{
    g_rnd ^= g_rnd << 13, g_rnd ^= g_rnd >> 7, g_rnd ^= g_rnd << 17;
    return g_rnd;
}
static uint64_t lift1(uint8_t v, unsigned how)
{
    uint64_t hi = (uint64_t)(v >> 4) << 60, lo = v & 15, mid = 0x0ffffffffffffff0ull;
    switch (how) {
    case 0: return hi | lo | ((v & 0x10) ? mid : 0);
    case 1: return hi | lo | ((v & 0x08) ? mid : 0);
    case 2: return hi | lo;
    case 3: return hi | lo | mid;
    case 4: return (uint64_t)v << 56;
    case 5: return v;
    case 6: return 0x0101010101010101ull * v;
    case 7: return ((uint64_t)v << 56) | 0x00ffffffffffffffull;
    default: return hi | lo | (rnd() & mid);
    }
}
static const uint64_t kLifts = 400;
#ifdef LIMB8
static L in_limb()
{
    uint8_t v;
    vp_sym(&v, 1, "limb");
    return (L)v;
}
#else
static uint8_t g_raw[64];
static size_t  g_nraw = 0, g_iraw = 0;
static int     g_limb8 = 0;
static L       in_limb()
{
    if (!g_limb8) {
        uint64_t v;
        vp_sym(&v, 8, "limb");
        return (L)v;
    }
    uint8_t b = 0;
    if (g_lift == 0) {
        vp_sym(&b, 1, "limb");
        g_raw[g_nraw++] = b;
    } else if (g_iraw < g_nraw)
        b = g_raw[g_iraw++];
    return (L)lift1(b, g_lift < 8 ? (unsigned)g_lift : (unsigned)(rnd() % 9));
}
#endif
static L known(uint8_t v) // a literal limb, lifted like the others
{
#ifdef LIMB8
    return (L)v;
#else
    return (L)lift1(v, g_lift < 8 ? (unsigned)g_lift : (unsigned)(rnd() % 9));
#endif
}
static uint64_t P(const char* n, uint64_t d) { return vp_param(n, d); }
// choices that a replay has to draw only once
static uint64_t g_ch[16];
static size_t   g_nch = 0;
static uint64_t choice(const char* name, uint64_t lo, uint64_t hi)
{
    if (g_lift == 0 && g_nch < 16)
        g_ch[g_nch] = lo == hi ? lo : vp_concretize(vp_range(name, lo, hi));
    return g_ch[g_nch++];
}
static Num input(size_t n, int sign)
{
    Num r;
    r.n = n;
    r.s = sign;
    for (size_t i = 0; i < MAXN; i++)
        r.p[i] = i < n ? in_limb() : (L)0;
    return r;
}
static void set(mbedtls_mpi* X, const Num& v)
{
    if (v.n)
        vp_assert(mbedtls_mpi_grow(X, v.n) == 0, "grow failed");
    for (size_t i = 0; i < v.n; i++)
        X->p[i] = v.p[i];
    for (size_t i = v.n; i < X->n; i++)
        X->p[i] = 0;
    X->s = v.s;
}
// ---- definitions on limb arrays -----------------------------------------------------------------------------------------------
static Num o_zero()
{
    Num r;
    r.s = 1;
    r.n = MAXN;
    for (size_t i = 0; i < MAXN; i++)
        r.p[i] = 0;
    return r;
}
static L mask(int c) { return (L)(0 - (L)(c != 0)); }
static Num o_addabs(const Num& a, const Num& b)
{
    Num r = o_zero();
    DL  c = 0;
    for (size_t i = 0; i < g_w; i++) {
        c += (DL)a.p[i] + (DL)b.p[i];
        r.p[i] = (L)c;
        c >>= LB;
    }
    return r;
}
static Num o_subabs(const Num& a, const Num& b, int* borrow)
{
    Num r = o_zero();
    DL  c = 0;
    for (size_t i = 0; i < g_w; i++) {
        DL t = ((DL)1 << LB) + (DL)a.p[i] - (DL)b.p[i] - c;
        r.p[i] = (L)t;
        c = 1 - (t >> LB);
    }
    *borrow = c != 0;
    return r;
}
static int o_zero_p(const Num& a)
{
    L x = 0;
    for (size_t i = 0; i < MAXN; i++)
        x |= a.p[i];
    return x == 0;
}
static int o_less(const Num& a, const Num& b) // |a| < |b|
{
    int br;
    o_subabs(a, b, &br);
    return br;
}
static Num o_sel(int c, const Num& a, const Num& b)
{
    Num r = o_zero();
    L   m = mask(c);
    for (size_t i = 0; i < MAXN; i++)
        r.p[i] = (L)((a.p[i] & m) | (b.p[i] & ~m));
    r.s = (int)(int64_t)vp_ite(c, (uint64_t)(int64_t)a.s, (uint64_t)(int64_t)b.s);
    return r;
}
static Num o_add(const Num& a, const Num& b)
{
    if (a.s == b.s) {
        Num r = o_addabs(a, b);
        r.s   = a.s;
        return r;
    }
    int br, br2;
    Num x = o_subabs(a, b, &br), y = o_subabs(b, a, &br2);
    x.s   = a.s;
    y.s   = b.s;
    return o_sel(br, y, x);
}
static Num o_mul(const Num& a, const Num& b)
{
    Num r = o_zero();
    r.s   = a.s * b.s;
    DL lo = 0;
    // by columns, each accumulated in two words
    L  carry[MAXN + 2];
    for (size_t i = 0; i < MAXN + 2; i++)
        carry[i] = 0;
    DL acc = 0;
    for (size_t k = 0; k < MAXN; k++) {
        DL col = acc, ov = 0;
        for (size_t i = 0; i <= k; i++) {
            if (i >= a.n || k - i >= b.n)
                continue;
            DL pr = (DL)a.p[i] * (DL)b.p[k - i];
            col += (DL)(L)pr;
            ov += pr >> LB;
        }
        r.p[k] = (L)col;
        acc    = ov + (col >> LB);
    }
    (void)lo;
    return r;
}
static Num o_mul_rows(const Num& a, const Num& b) // the same by rows, most significant one first
{
    Num r = o_zero();
    r.s   = a.s * b.s;
    for (size_t j = b.n; j-- > 0;) {
        L c = 0;
        for (size_t i = 0; i + j < MAXN; i++) {
            DL t = (DL)r.p[i + j] + (DL)c;
            if (i < a.n)
                t += (DL)a.p[i] * (DL)b.p[j];
            r.p[i + j] = (L)t;
            c          = (L)(t >> LB);
        }
    }
    return r;
}
static Num o_shl(const Num& a, size_t c)
{
    Num    r = o_zero();
    size_t w = c / LB, b = c % LB;
    for (size_t i = w; i < MAXN; i++) {
        r.p[i] = (L)(a.p[i - w] << b);
        if (b && i > w)
            r.p[i] = (L)(r.p[i] | (L)(a.p[i - w - 1] >> (LB - b)));
    }
    r.s = a.s;
    return r;
}
static Num o_shr(const Num& a, size_t c)
{
    Num    r = o_zero();
    size_t w = c / LB, b = c % LB;
    for (size_t i = 0; i + w < MAXN; i++) {
        r.p[i] = (L)(a.p[i + w] >> b);
        if (b && i + w + 1 < MAXN)
            r.p[i] = (L)(r.p[i] | (L)(a.p[i + w + 1] << (LB - b)));
    }
    r.s = a.s;
    return r;
}
static int o_bit(const Num& a, size_t i) { return (int)(a.p[i / LB] >> (i % LB)) & 1; }
static Num o_small(uint64_t v, int s)
{
    Num r  = o_zero();
    r.p[0] = (L)v;
    r.s    = s;
    return r;
}
// remainder by shifting and subtracting (native replay of lifted counterexamples, and concrete values)
static Num o_mod(const Num& a, const Num& m)
{
    Num r = o_zero();
    for (size_t i = MAXN * LB; i-- > 0;) {
        r = o_shl(r, 1);
        r.p[0] = (L)(r.p[0] | (L)o_bit(a, i));
        int br;
        Num d = o_subabs(r, m, &br);
        if (!br)
            r = d;
    }
    r.s = 1;
    return r;
}
static uint64_t o_u64(const Num& a) // value of a number of at most 64 bits (LIMB8)
{
    uint64_t v = 0;
    for (size_t i = 0; i < MAXN && i * LB < 64; i++)
        v |= (uint64_t)a.p[i] << (i * LB);
    return v;
}
// ---- observations ---------------------------------------------------------------------------------------------------------------
static Num get(const mbedtls_mpi* X)
{
    Num r = o_zero();
    r.s   = X->s;
    vp_assert(X->p != nullptr || X->n == 0, "number without limbs");
    vp_assert(X->s == 1 || X->s == -1, "sign is neither 1 nor -1");
    for (size_t i = 0; i < X->n; i++)
        if (i < MAXN)
            r.p[i] = X->p[i];
        else
            vp_assert(X->p[i] == 0, "result is too large");
    return r;
}
static int same_abs(const Num& a, const Num& b)
{
    L x = 0;
    for (size_t i = 0; i < MAXN; i++)
        x |= (L)(a.p[i] ^ b.p[i]);
    return x == 0;
}
static void check(const mbedtls_mpi* X, const Num& want, const char* m)
{
    Num g = get(X);
    for (size_t i = 0; i < MAXN; i++)
        vp_assert(g.p[i] == want.p[i], m);
    vp_assert((int)vp_ite(g.s == want.s, 1, (uint64_t)o_zero_p(want)), "result has the wrong sign");
}
static void unchanged(const mbedtls_mpi* X, const Num& v, const char* m)
{
    check(X, v, m);
    vp_assert(X->s == v.s, m);
}

// ---- jobs -----------------------------------------------------------------------------------------------------------------------
// aliasing patterns: 0 all distinct (result holds old limbs), 1 X is A, 2 X is B, 3 A is B, 4 all the same
struct Ops {
    mbedtls_mpi x, a, b;
    mbedtls_mpi *X, *A, *B;
    Num         va, vb;
    int         alias;
    Ops(size_t na, size_t nb, size_t nx, int sa, int sb, int al) : alias(al)
    {
        mbedtls_mpi_init(&x);
        mbedtls_mpi_init(&a);
        mbedtls_mpi_init(&b);
        va = input(na, sa);
        vb = al >= 3 ? va : input(nb, sb);
        A  = &a;
        B  = al >= 3 ? &a : &b;
        X  = al == 0 || al == 3 ? &x : al == 2 ? &b : &a;
        set(&a, va);
        if (al < 3)
            set(&b, vb);
        if (X == &x && nx) {
            Num old = o_zero();
            old.n   = nx;
            old.s   = -1;
            for (size_t i = 0; i < nx; i++)
                old.p[i] = (L)(0x5a5a5a5a5a5a5a5aull);
            set(&x, old);
        }
    }
    void operands()
    {
        if (X != A)
            unchanged(A, va, "an operand was changed");
        if (X != B)
            unchanged(B, vb, "an operand was changed");
    }
    void release()
    {
        mbedtls_mpi_free(&x);
        mbedtls_mpi_free(&a);
        mbedtls_mpi_free(&b);
    }
};
static Ops mk()
{
    uint64_t na = choice("na", P("na0", 0), P("na1", 2)), nb = choice("nb", P("nb0", 0), P("nb1", 2)), nx = choice("nx", 0, P("nx", 1)) * P("nxsize", 4);
    uint64_t al = choice("alias", P("al0", 0), P("al1", 4)), sg = choice("signs", P("sg0", 0), P("sg1", 3));
    if (al >= 3 && ((sg & 1) != (sg >> 1) || nb != P("nb0", 0)))
        vp_assume(0);
    return Ops(na, nb, al == 0 || al == 3 ? nx : (nx ? (vp_assume(0), 0) : 0), sg & 1 ? -1 : 1, sg & 2 ? -1 : 1, (int)al);
}
static void op_addsub(int sub)
{
    Ops o  = mk();
    g_w    = (o.va.n > o.vb.n ? o.va.n : o.vb.n) + 1;
    Num nb = o.vb;
    if (sub)
        nb.s = -nb.s;
    int r = sub ? mbedtls_mpi_sub_mpi(o.X, o.A, o.B) : mbedtls_mpi_add_mpi(o.X, o.A, o.B);
    vp_assert(r == 0, "addition or subtraction failed");
    check(o.X, o_add(o.va, nb), sub ? "difference is wrong" : "sum is wrong");
    o.operands();
    o.release();
}
static void op_abs(int sub)
{
    Ops o = mk();
    g_w   = (o.va.n > o.vb.n ? o.va.n : o.vb.n) + 1;
    Num a = o.va, b = o.vb;
    a.s = b.s = 1;
    if (!sub) {
        vp_assert(mbedtls_mpi_add_abs(o.X, o.A, o.B) == 0, "unsigned addition failed");
        check(o.X, o_addabs(a, b), "unsigned sum is wrong");
    } else {
        int br;
        Num d = o_subabs(a, b, &br);
        int r = mbedtls_mpi_sub_abs(o.X, o.A, o.B);
        if (br) {
            vp_assert(r != 0, "unsigned subtraction below zero was not reported");
        } else {
            vp_assert(r == 0, "unsigned subtraction failed");
            check(o.X, d, "unsigned difference is wrong");
        }
    }
    o.operands();
    o.release();
}
static void op_cmp()
{
    Ops o  = mk();
    g_w    = (o.va.n > o.vb.n ? o.va.n : o.vb.n) + 1;
    int lt = o_less(o.va, o.vb), gt = o_less(o.vb, o.va), za = o_zero_p(o.va), zb = o_zero_p(o.vb);
    int rabs = mbedtls_mpi_cmp_abs(o.A, o.B);
    vp_assert((rabs < 0) == lt && (rabs > 0) == gt, "unsigned comparison is wrong");
    Num nb = o.vb;
    nb.s   = -nb.s;
    Num d  = o_add(o.va, nb);
    int zd = o_zero_p(d), r = mbedtls_mpi_cmp_mpi(o.A, o.B);
    vp_assert((r == 0) == zd, "comparison is wrong");
    vp_assert((int)vp_ite(zd, 1, (uint64_t)((r < 0) == (d.s < 0))), "comparison is wrong");
    (void)za;
    (void)zb;
    o.operands();
    o.release();
}
static void op_int(int which) // 0 cmp_int 1 add_int 2 sub_int 3 mul_int
{
    uint64_t al = choice("alias", 0, which == 0 ? 0 : 1), na = choice("na", 0, P("na1", 3)), sg = choice("signs", 0, 1);
    Ops      o(na, 0, al ? 0 : 2, sg ? -1 : 1, 1, al ? 1 : 0);
    L        z = in_limb();
    g_w        = na + 2;
    mbedtls_mpi_sint b = (mbedtls_mpi_sint)z;
    if (which == 3) {
        vp_assert(mbedtls_mpi_mul_int(o.X, o.A, z) == 0, "multiplication failed");
        Num zb = o_zero();
        zb.n   = 1;
        zb.p[0] = z;
        check(o.X, o_mul(o.va, zb), "product is wrong");
    } else {
        int neg = (int)((z >> (LB - 1)) & 1);
        Num zb = o_zero();
        zb.s   = (int)(int64_t)vp_ite(neg, (uint64_t)(int64_t)-1, 1);
        L m    = mask(neg);
        zb.p[0] = (L)(((L)(0 - z) & m) | (z & ~m));
        Num nz = zb;
        nz.s   = -nz.s;
        int flip = which == 1 ? zb.s : nz.s;
        (void)flip;
        // signed addition without deciding on the sign of b
        Num pa = o_zero(), na2 = o_zero();
        Num pb = zb;
        pb.s   = 1;
        Num qb = zb;
        qb.s   = -1;
        pa     = o_add(o.va, pb);
        na2    = o_add(o.va, qb);
        int minus = which == 1 ? neg : !neg;
        Num want  = o_sel(minus, na2, pa);
        if (which == 0) {
            int r = mbedtls_mpi_cmp_int(o.A, b), zd = o_zero_p(want);
            vp_assert((r == 0) == zd, "comparison with an integer is wrong");
            vp_assert((int)vp_ite(zd, 1, (uint64_t)((r < 0) == (want.s < 0))), "comparison with an integer is wrong");
        } else {
            vp_assert((which == 1 ? mbedtls_mpi_add_int(o.X, o.A, b) : mbedtls_mpi_sub_int(o.X, o.A, b)) == 0, "addition of an integer failed");
            check(o.X, want, which == 1 ? "sum with an integer is wrong" : "difference with an integer is wrong");
        }
    }
    o.operands();
    o.release();
}
static void op_shift(int right)
{
    uint64_t    na = choice("na", P("na0", 0), P("na1", 3)), sg = choice("signs", 0, 1), c = choice("count", P("c0", 0), P("c1", 200));
    static const uint8_t kCounts[16] = {0, 1, 2, 31, 63, 64, 65, 66, 100, 127, 128, 129, 130, 191, 192, 193};
    if (P("few", 0)) // the counts around limb boundaries
        c = kCounts[c];
    Num         v = input(na, sg ? -1 : 1);
    mbedtls_mpi X;
    mbedtls_mpi_init(&X);
    set(&X, v);
    vp_assert((right ? mbedtls_mpi_shift_r(&X, c) : mbedtls_mpi_shift_l(&X, c)) == 0, "shift failed");
    check(&X, right ? o_shr(v, c) : o_shl(v, c), right ? "right shift is wrong" : "left shift is wrong");
    mbedtls_mpi_free(&X);
}
static void op_copy(int which)
{
    uint64_t    na = choice("na", 0, P("na1", 2)), nx = choice("nx", 0, P("nx1", 3)), sg = choice("signs", 0, 3);
    Num         a = input(na, sg & 1 ? -1 : 1), x = input(nx, sg & 2 ? -1 : 1);
    mbedtls_mpi A, X;
    mbedtls_mpi_init(&A);
    mbedtls_mpi_init(&X);
    set(&A, a);
    set(&X, x);
    uint8_t c;
    vp_sym(&c, 1, "cond");
    if (which == 0) {
        vp_assert(mbedtls_mpi_copy(&A, &A) == 0, "copy failed");
        unchanged(&A, a, "copying onto itself changed the number");
        mbedtls_mpi_swap(&A, &X);
        unchanged(&A, x, "swap is wrong");
        unchanged(&X, a, "swap is wrong");
        mbedtls_mpi_swap(&A, &X);
        vp_assert(mbedtls_mpi_safe_cond_swap(&A, &X, c) == 0, "conditional swap failed");
        check(&A, o_sel(c != 0, x, a), "conditional swap is wrong");
        check(&X, o_sel(c != 0, a, x), "conditional swap is wrong");
        mbedtls_mpi_free(&A);
        mbedtls_mpi_free(&X);
        return;
    }
    if (which == 1) {
        vp_assert(mbedtls_mpi_safe_cond_assign(&X, &A, c) == 0, "conditional assignment failed");
        check(&X, o_sel(c != 0, a, x), "conditional assignment is wrong");
        unchanged(&A, a, "conditional assignment changed its source");
        mbedtls_mpi_free(&A);
        mbedtls_mpi_free(&X);
        return;
    }
    vp_assert(mbedtls_mpi_shrink(&X, choice("shrink", 0, 2)) == 0, "shrink failed");
    unchanged(&X, x, "shrinking changed the number");
    vp_assert(mbedtls_mpi_grow(&X, 6) == 0, "grow failed");
    unchanged(&X, x, "growing changed the number");
    vp_assert(mbedtls_mpi_copy(&X, &A) == 0, "copy failed");
    check(&X, a, "copy is wrong");
    unchanged(&A, a, "copying changed its source");
    // independence
    if (X.n && A.n) {
        X.p[0] = (L)(X.p[0] ^ 1);
        check(&A, a, "a copy shares limbs with its source");
    }
    L z = in_limb();
    vp_assert(mbedtls_mpi_lset(&X, (mbedtls_mpi_sint)z) == 0, "assignment of an integer failed");
    int neg = (int)((z >> (LB - 1)) & 1);
    Num w   = o_small(0, 1);
    L   m   = mask(neg);
    w.p[0]  = (L)(((L)(0 - z) & m) | (z & ~m));
    w.s     = (int)(int64_t)vp_ite(neg, (uint64_t)(int64_t)-1, 1);
    check(&X, w, "assignment of an integer is wrong");
    mbedtls_mpi_free(&A);
    mbedtls_mpi_free(&X);
}
static void op_bits()
{
    uint64_t    na = choice("na", P("na0", 0), P("na1", 2)), sg = choice("signs", 0, 1);
    Num         a = input(na, sg ? -1 : 1);
    mbedtls_mpi A;
    mbedtls_mpi_init(&A);
    set(&A, a);
    uint64_t len = 0, lsb = 0;
    for (size_t i = 0; i < na * LB; i++)
        len = vp_ite(o_bit(a, i), i + 1, len);
    for (size_t i = na * LB; i-- > 0;)
        lsb = vp_ite(o_bit(a, i), i, lsb);
    vp_assert(mbedtls_mpi_bitlen(&A) == len, "bit length is wrong");
    vp_assert(mbedtls_mpi_size(&A) == (len + 7) / 8, "byte length is wrong");
    vp_assert(mbedtls_mpi_lsb(&A) == lsb, "number of trailing zero bits is wrong");
    mbedtls_mpi_free(&A);
}
static void op_bit()
{
    uint64_t    na = choice("na", 0, 3), pos = choice("pos", P("c0", 0), P("c1", 200)), val = choice("val", 0, 3);
    Num         a = input(na, 1);
    mbedtls_mpi A;
    mbedtls_mpi_init(&A);
    set(&A, a);
    vp_assert(mbedtls_mpi_get_bit(&A, pos) == o_bit(a, pos), "bit is wrong");
    int r = mbedtls_mpi_set_bit(&A, pos, (unsigned char)(val == 3 ? 255 : val));
    if (val > 1) {
        vp_assert(r != 0, "a bit value other than 0 and 1 was accepted");
        check(&A, a, "rejected bit value changed the number");
    } else {
        vp_assert(r == 0, "setting a bit failed");
        Num w = a;
        L   m = (L)((L)1 << (pos % LB));
        w.p[pos / LB] = (L)(val ? (w.p[pos / LB] | m) : (w.p[pos / LB] & ~m));
        check(&A, w, "setting a bit is wrong");
    }
    mbedtls_mpi_free(&A);
}
static void op_read()
{
    uint64_t n = choice("len", P("c0", 0), P("c1", 26)), nx = choice("nx", 0, 1) * 5;
    uint8_t* buf = (uint8_t*)malloc(n ? n : 1);
    vp_sym(buf, n, "buf");
    Num w = o_zero();
    for (size_t i = 0; i < n; i++) {
        size_t bit = 8 * i;
        w.p[bit / LB] = (L)(w.p[bit / LB] | (L)((L)buf[n - 1 - i] << (bit % LB)));
    }
    Num old = o_zero();
    old.n   = nx;
    old.s   = -1;
    for (size_t i = 0; i < nx; i++)
        old.p[i] = (L)0x77;
    mbedtls_mpi X;
    mbedtls_mpi_init(&X);
    set(&X, old);
    vp_assert(mbedtls_mpi_read_binary(&X, n ? buf : buf + 1, n) == 0, "import failed");
    check(&X, w, "imported number is wrong");
    mbedtls_mpi_free(&X);
    free(buf);
}
static void op_write()
{
    uint64_t    na = choice("na", P("na0", 0), P("na1", 2)), sg = choice("signs", 0, 1), n = choice("len", P("c0", 0), P("c1", 26));
    Num         a = input(na, sg ? -1 : 1);
    mbedtls_mpi A;
    mbedtls_mpi_init(&A);
    set(&A, a);
    uint8_t* buf = (uint8_t*)malloc(n + 2);
    memset(buf, 0xA5, n + 2);
    int r = mbedtls_mpi_write_binary(&A, buf + 1, n);
    uint8_t over = 0;
    for (size_t i = n; i < na * sizeof(L); i++)
        over |= (uint8_t)(a.p[i * 8 / LB] >> (i * 8 % LB));
    if (over != 0) {
        vp_assert(r != 0, "export into a buffer that is too small succeeded");
    } else {
        vp_assert(r == 0, "export failed");
        for (size_t i = 0; i < n; i++)
            vp_assert(buf[1 + n - 1 - i] == (i < na * sizeof(L) ? (uint8_t)(a.p[i * 8 / LB] >> (i * 8 % LB)) : 0), "exported byte is wrong");
    }
    vp_assert(buf[0] == 0xA5 && buf[n + 1] == 0xA5, "export wrote outside its buffer");
    unchanged(&A, a, "export changed the number");
    mbedtls_mpi_free(&A);
    free(buf);
}
static void op_mul()
{
    Ops o = mk();
    vp_assert(mbedtls_mpi_mul_mpi(o.X, o.A, o.B) == 0, "multiplication failed");
    check(o.X, P("rows", 0) ? o_mul_rows(o.va, o.vb) : o_mul(o.va, o.vb), "product is wrong");
    o.operands();
    o.release();
}
// restricts a number to the given symbolic bits of each limb (w high and w low bits, the rest 0 or 1), so that the solver can decide division
static void narrow(Num& v)
{
    uint64_t hi = P("hi", 64), lo = P("lo", 0);
    if (hi + lo >= LB)
        return;
    for (size_t i = 0; i < v.n; i++) {
        L keep = (L)((L)((L)((L)1 << lo) - 1) | (L)(~(L)0 << (LB - hi)));
        L fill = mask((int)(v.p[i] >> lo) & 1);
        v.p[i] = (L)((v.p[i] & keep) | (fill & ~keep));
    }
}
static void op_div(int which) // 0 div_mpi, 1 mod_mpi, 2 div_int, 3 mod_int
{
    uint64_t na = choice("na", P("na0", 0), P("na1", 2)), nb = which >= 2 ? 1 : choice("nb", P("nb0", 0), P("nb1", 1));
    uint64_t sg = choice("signs", P("sg0", 0), P("sg1", 3));
    // aliasing: 0 none, 1 Q is A, 2 Q is B, 3 R is A, 4 R is B, 5 Q is A and R is B, 6 Q is B and R is A, 7 no Q, 8 no R
    uint64_t al = choice("alias", P("al0", 0), P("al1", 0));
    Num      a = input(na, sg & 1 ? -1 : 1), b = input(nb, sg & 2 ? -1 : 1);
    narrow(a);
    narrow(b);
    if (uint64_t bv = P("bval", 0))
        for (size_t i = 0; i < nb; i++)
            b.p[i] = known((uint8_t)(bv >> (8 * i)));
    mbedtls_mpi A, B, X, Y;
    mbedtls_mpi_init(&A);
    mbedtls_mpi_init(&B);
    mbedtls_mpi_init(&X);
    mbedtls_mpi_init(&Y);
    set(&A, a);
    set(&B, b);
    mbedtls_mpi *Q = al == 1 || al == 5 ? &A : al == 2 || al == 6 ? &B : al == 7 ? nullptr : &X, *R = al == 3 || al == 6 ? &A : al == 4 || al == 5 ? &B : al == 8 ? nullptr : &Y;
    int r;
    Num q = o_zero(), m = o_zero();
    int zb = o_zero_p(b);
    mbedtls_mpi_uint ri = 0;
    if (which == 3) {
        mbedtls_mpi_sint bi = (mbedtls_mpi_sint)b.p[0];
        int neg = (int)((b.p[0] >> (LB - 1)) & 1);
        r = mbedtls_mpi_mod_int(&ri, &A, bi);
        if (zb || neg) {
            vp_assert(r != 0, zb ? "division by zero was not reported" : "a negative modulus was accepted");
            goto done;
        }
        vp_assert(r == 0, "modular reduction failed");
        m.p[0] = ri;
        b.s = 1;
    } else if (which == 1) {
        Q = nullptr;
        R = al == 3 ? &A : al == 4 ? &B : &Y;
        r = mbedtls_mpi_mod_mpi(R, &A, &B);
        if (zb || b.s < 0) {
            vp_assert(r != 0, zb ? "division by zero was not reported" : "a negative modulus was accepted");
            goto done;
        }
        vp_assert(r == 0, "modular reduction failed");
    } else if (which == 2) {
        if (Q == &B) Q = &X;
        if (R == &B) R = &Y;
        mbedtls_mpi_sint bi = (mbedtls_mpi_sint)b.p[0];
        int neg = (int)((b.p[0] >> (LB - 1)) & 1);
        r = mbedtls_mpi_div_int(Q, R, &A, bi);
        if (zb) {
            vp_assert(r != 0, "division by zero was not reported");
            goto done;
        }
        L mk2 = mask(neg);
        b.p[0] = (L)(((L)(0 - b.p[0]) & mk2) | (b.p[0] & ~mk2));
        b.s = neg ? -1 : 1;
        vp_assert(r == 0, "division failed");
    } else {
        r = mbedtls_mpi_div_mpi(Q, R, &A, &B);
        if (zb) {
            vp_assert(r != 0, "division by zero was not reported");
            goto done;
        }
        vp_assert(r == 0, "division failed");
    }
    if (Q)
        q = get(Q), q.n = a.n;
    if (R && which != 3)
        m = get(R);
    vp_assert(o_less(m, b), "remainder is not smaller than the divisor");
    if (which == 1 || which == 3) {
        vp_assert((int)vp_ite(m.s > 0, 1, (uint64_t)o_zero_p(m)), "remainder is negative");
        // |A| mod b, or its complement
#ifdef LIMB8
        uint32_t va = (uint32_t)o_u64(a), vb = (uint32_t)o_u64(b), vm = va % vb;
        if (a.s < 0)
            vm = (uint32_t)vp_ite(vm != 0, vb - vm, 0);
        vp_assert((uint32_t)o_u64(m) == vm, "remainder is wrong");
        for (size_t i = 4; i < MAXN; i++)
            vp_assert(m.p[i] == 0, "remainder is wrong");
#else
        Num w = o_mod(a, b);
        if (a.s < 0 && !o_zero_p(w)) {
            int br;
            w = o_subabs(b, w, &br);
        }
        vp_assert(same_abs(m, w), "remainder is wrong");
#endif
    } else {
        // |A| = |Q| |B| + |R|, signs by truncation
        if (Q && R) {
            b.n = nb;
            Num s = o_addabs(o_mul(q, b), m);
            for (size_t i = 0; i < MAXN; i++)
                vp_assert(s.p[i] == (i < a.n ? a.p[i] : 0), "quotient times divisor plus remainder is not the dividend");
            for (size_t i = q.n; i < MAXN; i++)
                vp_assert(q.p[i] == 0, "quotient is too large");
        } else {
#ifdef LIMB8
            uint32_t va = (uint32_t)o_u64(a), vb = (uint32_t)o_u64(b);
            vp_assert(Q ? (uint32_t)o_u64(q) == va / vb : (uint32_t)o_u64(m) == va % vb, "quotient or remainder is wrong");
#else
            Num w = o_mod(a, b);
            if (R)
                vp_assert(same_abs(m, w), "quotient or remainder is wrong");
            else {
                Num s = o_addabs(o_mul(q, b), w);
                vp_assert(same_abs(s, a), "quotient or remainder is wrong");
            }
#endif
        }
        if (Q)
            vp_assert((int)vp_ite(q.s == a.s * b.s, 1, (uint64_t)o_zero_p(q)), "quotient has the wrong sign");
        if (R)
            vp_assert((int)vp_ite(m.s == a.s, 1, (uint64_t)o_zero_p(m)), "remainder has the wrong sign");
    }
done:
    if (Q != &A && R != &A)
        unchanged(&A, a, "division changed its dividend");
    mbedtls_mpi_free(&A);
    mbedtls_mpi_free(&B);
    mbedtls_mpi_free(&X);
    mbedtls_mpi_free(&Y);
}
static Num o_mulmod(const Num& a, const Num& b, const Num& n)
{
    Num x = a, y = b;
    x.n = y.n = MAXN / 2;
    return o_mod(o_mul(x, y), n);
}
static void op_exp()
{
    // base of na limbs, modulus of nb limbs, concrete exponent
    uint64_t    na = choice("na", P("na0", 1), P("na1", 1)), nb = choice("nb", P("nb0", 1), P("nb1", 1)), sg = choice("signs", P("sg0", 0), P("sg1", 1)), al = choice("alias", 0, 1), cache = choice("cache", 0, P("cache", 1));
    uint64_t    e = choice("e", P("e0", 0), P("e1", 5)), ne = choice("ne", 0, P("ne", 1));
    Num         a = input(na, sg ? -1 : 1), n = input(nb, 1);
    uint64_t cn = P("modulus", 0);
    if (cn)
        for (size_t i = 0; i < nb; i++)
            n.p[i] = known((uint8_t)(cn >> (8 * i)));
    uint64_t hib = P("abits", 64); // only this many low bits of the base are arbitrary
    if (hib < na * LB)
        for (size_t i = 0; i < na; i++)
            if (i * LB >= hib)
                a.p[i] = 0;
            else if (hib - i * LB < LB)
                a.p[i] = (L)(a.p[i] & (L)(((L)1 << (hib - i * LB)) - 1));
    mbedtls_mpi A, N, X, E, RR;
    mbedtls_mpi_init(&A);
    mbedtls_mpi_init(&N);
    mbedtls_mpi_init(&X);
    mbedtls_mpi_init(&E);
    mbedtls_mpi_init(&RR);
    set(&A, a);
    set(&N, n);
    Num ve = o_zero();
    ve.n   = ne;
    for (size_t i = 0; i * LB < 64; i++)
        if (e >> (i * LB)) {
            ve.p[i] = (L)(e >> (i * LB));
            ve.n    = i + 1;
        }
    set(&E, ve);
    for (int round = 0; round < (cache ? 2 : 1); round++) {
        mbedtls_mpi* R = al ? &A : &X;
        if (al)
            set(&A, a);
        int r = mbedtls_mpi_exp_mod(R, &A, &E, &N, cache ? &RR : nullptr);
        if ((n.p[0] & 1) == 0) {
            vp_assert(r != 0, "an even modulus was accepted");
            continue;
        }
        vp_assert(r == 0, "modular exponentiation failed");
        Num g = get(R);
        vp_assert(g.s == 1 || o_zero_p(g), "power is negative");
        vp_assert(o_less(g, n), "power is not reduced");
#ifdef LIMB8
        uint32_t m = (uint32_t)o_u64(n), b = (uint32_t)o_u64(a) % m, w = 1 % m;
        if (a.s < 0)
            b = (uint32_t)vp_ite(b != 0, m - b, 0);
        for (int i = 40; i >= 0; i--) {
            if (e >> (i + 1))
                w = w * w % m;
            if ((e >> i) & 1)
                w = w * b % m;
        }
        vp_assert((uint32_t)o_u64(g) == w, "power is wrong");
#else
        Num b = o_mod(a, n), w = o_mod(o_small(1, 1), n);
        if (a.s < 0 && !o_zero_p(b)) {
            int br;
            b = o_subabs(n, b, &br);
        }
        for (int i = 63; i >= 0; i--) {
            w = o_mulmod(w, w, n);
            if ((e >> i) & 1)
                w = o_mulmod(w, b, n);
        }
        vp_assert(same_abs(g, w), "power is wrong");
#endif
        unchanged(&N, n, "exponentiation changed the modulus");
        check(&E, ve, "exponentiation changed the exponent");
    }
    mbedtls_mpi_free(&A);
    mbedtls_mpi_free(&N);
    mbedtls_mpi_free(&X);
    mbedtls_mpi_free(&E);
    mbedtls_mpi_free(&RR);
}
static Num o_gcd(Num a, Num b) // native
{
    while (!o_zero_p(b)) {
        Num r = o_mod(a, b);
        a = b;
        b = r;
    }
    a.s = 1;
    return a;
}
static void op_gcd(int inverse)
{
    uint64_t    na = choice("na", P("na0", 0), P("na1", 1)), nb = choice("nb", P("nb0", 0), P("nb1", 1)), sg = choice("signs", P("sg0", 0), P("sg1", 3)), al = choice("alias", P("al0", 0), P("al1", 2));
    Num         a = input(na, sg & 1 ? -1 : 1), b = input(nb, sg & 2 ? -1 : 1);
    narrow(a);
    if (uint64_t bv = P("bval", 0))
        for (size_t i = 0; i < nb; i++)
            b.p[i] = known((uint8_t)(bv >> (8 * i)));
    if (uint64_t av = P("aval", 0))
        for (size_t i = 0; i < na; i++)
            a.p[i] = known((uint8_t)(av >> (8 * i)));
    mbedtls_mpi A, B, X;
    mbedtls_mpi_init(&A);
    mbedtls_mpi_init(&B);
    mbedtls_mpi_init(&X);
    set(&A, a);
    set(&B, b);
    mbedtls_mpi* R = al == 1 ? &A : al == 2 ? &B : &X;
    int          r = inverse ? mbedtls_mpi_inv_mod(R, &A, &B) : mbedtls_mpi_gcd(R, &A, &B);
    Num          g = get(R);
#ifdef LIMB8
    // Euclid on bounded integers
    uint32_t x = (uint32_t)o_u64(a), y = (uint32_t)o_u64(b), x0 = x, y0 = y;
    for (int i = 0; i < 4 + (int)(na + nb) * 12 && (y != 0); i++) {
        uint32_t t = x % y;
        x = y;
        y = t;
    }
    if (!inverse) {
        vp_assert(r == 0, "gcd failed");
        vp_assert((uint32_t)o_u64(g) == x, "gcd is wrong");
        vp_assert(g.s == 1 || o_zero_p(g), "gcd is negative");
    } else if (b.s < 0 || y0 <= 1 || x != 1) {
        vp_assert(r != 0, "a number without inverse was accepted");
    } else {
        vp_assert(r == 0, "modular inverse failed");
        uint32_t m = (uint32_t)o_u64(g);
        vp_assert(g.s == 1 && m < y0, "modular inverse is not reduced");
        uint32_t am = x0 % y0;
        if (a.s < 0)
            am = am ? y0 - am : 0;
        vp_assert(m * am % y0 == 1, "modular inverse is wrong");
    }
#else
    Num d = o_gcd(a, b);
    if (!inverse) {
        vp_assert(r == 0, "gcd failed");
        vp_assert(same_abs(g, d), "gcd is wrong");
        vp_assert(g.s == 1 || o_zero_p(g), "gcd is negative");
    } else if (b.s < 0 || !same_abs(d, o_small(1, 1)) || same_abs(b, o_small(1, 1))) {
        vp_assert(r != 0, "a number without inverse was accepted");
    } else {
        vp_assert(r == 0, "modular inverse failed");
        vp_assert(g.s == 1 && o_less(g, b), "modular inverse is not reduced");
        Num am = o_mod(a, b);
        if (a.s < 0 && !o_zero_p(am)) {
            int br;
            am = o_subabs(b, am, &br);
        }
        vp_assert(same_abs(o_mulmod(g, am, b), o_small(1, 1)), "modular inverse is wrong");
    }
#endif
    if (R != &A)
        unchanged(&A, a, "an operand was changed");
    if (R != &B)
        unchanged(&B, b, "an operand was changed");
    mbedtls_mpi_free(&A);
    mbedtls_mpi_free(&B);
    mbedtls_mpi_free(&X);
}
static void op_unset() // numbers that were never given a value are zero
{
    mbedtls_mpi Z, X, Y;
    mbedtls_mpi_init(&Z);
    mbedtls_mpi_init(&X);
    mbedtls_mpi_init(&Y);
    L v = in_limb();
    (void)mbedtls_mpi_lset(&X, (mbedtls_mpi_sint)(v & 0x7f));
    mbedtls_mpi_uint r = 5;
    vp_assert(mbedtls_mpi_exp_mod(&Y, &X, &X, &Z, nullptr) != 0, "a zero modulus was accepted");
    vp_assert(mbedtls_mpi_mod_int(&r, &Z, 2) == 0 && r == 0, "zero modulo 2 is not zero");
    vp_assert(mbedtls_mpi_mod_int(&r, &Z, 3) == 0 && r == 0, "zero modulo 3 is not zero");
    vp_assert(mbedtls_mpi_div_mpi(&Y, nullptr, &X, &Z) != 0, "division by zero was not reported");
    vp_assert(mbedtls_mpi_mod_mpi(&Y, &X, &Z) != 0, "division by zero was not reported");
    vp_assert(mbedtls_mpi_inv_mod(&Y, &X, &Z) != 0, "inversion modulo zero was not reported");
    vp_assert(mbedtls_mpi_cmp_int(&Z, 0) == 0 && mbedtls_mpi_bitlen(&Z) == 0 && mbedtls_mpi_size(&Z) == 0, "an unset number is not zero");
    vp_assert(mbedtls_mpi_shift_r(&Z, 3) == 0 && mbedtls_mpi_cmp_int(&Z, 0) == 0, "an unset number is not zero");
    mbedtls_mpi_free(&Z);
    mbedtls_mpi_free(&X);
    mbedtls_mpi_free(&Y);
}
static void run_op()
{
    g_nch = 0;
    g_w   = MAXN;
    switch (P("op", 0)) {
    case 0: op_addsub(0); break;
    case 1: op_addsub(1); break;
    case 2: op_abs(0); break;
    case 3: op_abs(1); break;
    case 4: op_cmp(); break;
    case 5: op_int((int)P("which", 0)); break;
    case 6: op_shift(0); break;
    case 7: op_shift(1); break;
    case 8: op_copy((int)P("which", 0)); break;
    case 9: op_bits(); break;
    case 10: op_bit(); break;
    case 11: op_read(); break;
    case 12: op_write(); break;
    case 13: op_mul(); break;
    case 14: op_div((int)P("which", 0)); break;
    case 15: op_exp(); break;
    case 16: op_gcd(0); break;
    case 17: op_gcd(1); break;
    case 18: op_unset(); break;
    }
}
void vp_main()
{
    uint64_t live = vp_live();
#ifndef LIMB8
    g_limb8 = (int)P("limb8", 0);
    if (g_limb8 && !vp_symbolic()) {
        for (g_lift = 0; g_lift < kLifts; g_lift++) {
            g_rnd  = 0x9e3779b97f4a7c15ull + g_lift * 977;
            g_iraw = 0;
            run_op();
        }
        vp_assert(vp_live() == live, "memory was leaked");
        return;
    }
#endif
    run_op();
    vp_assert(vp_live() == live, "memory was leaked");
    vp_cover("end");
}
