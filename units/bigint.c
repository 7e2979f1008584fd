/* C07/C08: BigInt arithmetic.  The oracle is the 128-bit machine integer: operands have at most L limbs. */
#include "vf.h"
#define memcpy vf_memcpy
static void vf_memcpy(void *d, const void *s, size_t n);
#define rjs_throw_range_error vf_throw_range_error
#define rjs_throw_type_error vf_throw_type_error
#include "lib/rjs_big_int_internal_opt.c"
#undef memcpy
#define VF_THINGS 4
#include "vf_rt.h"
#include "vf_spec.h"
#ifndef L
#define L 3
#endif
//@assume allocation succeeds (a failed allocation throws; those paths are outside)
//@default props=C07 unwind=10 calls=VF_BOX,rjs_realloc:vf_realloc,rjs_alloc_assert:vf_alloc bounded="operands of at most 3 limbs (96 bits), any limb contents and signs"
typedef __int128 W;
typedef unsigned __int128 U;
static RJS_BigInt A, B; static uint32_t la[L], lb[L];
static W ga, gb_; static int g_thrown; static uint64_t gu;
static RJS_Value va, vb;
static void vf_memcpy(void *d, const void *s, size_t n)
{ size_t i; uint32_t *p = d; const uint32_t *q = s; for (i = 0; i < n / 4; i ++) p[i] = q[i]; }
RJS_Result vf_throw_range_error (RJS_Runtime *rt, const char *f, ...) { g_thrown = 2; return RJS_ERR; }
RJS_Result vf_throw_type_error (RJS_Runtime *rt, const char *f, ...) { g_thrown = 1; return RJS_ERR; }
#ifndef VF_NATIVE
static uint32_t p0[8], p1[8], p2[8], p3[8], p4[8], p5[8], p6[8]; static int g_np;
static RJS_BigInt D; static int g_nd;
void *vf_realloc (RJS_Runtime *rt, void *p, size_t os, size_t ns)
{
    if (!ns) return NULL;
    CHECK("vf: limb pool large enough", ns <= 32);
    if (p) return p;
    switch (g_np ++) { case 0: return p0; case 1: return p1; case 2: return p2; case 3: return p3; case 4: return p4; case 5: return p5; case 6: return p6; }
    CHECK("vf: limb pools enough", 0);
    return NULL;
}
void *vf_alloc (RJS_Runtime *rt, size_t n) { CHECK("vf: one result", g_nd == 0); g_nd ++; return &D; }
void rjs_gc_add (RJS_Runtime *rt, void *ptr, const RJS_GcThingOps *ops) { }
#endif
static W sp_val(RJS_BI *b)
{
    int n = b->size < 0 ? -b->size : b->size, i; U v = 0;
    for (i = 0; i < 4; i ++) if (i < n) v |= ((U)b->n[i]) << (32 * i);
    return b->size < 0 ? -(W)v : (W)v;
}
static int sp_canon(RJS_BI *b)
{ int n = b->size < 0 ? -b->size : b->size; return n <= 4 && (n == 0 || b->n[n - 1] != 0); }
/* the result: a BigInt, canonical, of value e */
static int sp_is(RJS_Value v, W e)
{ RJS_BigInt *b; if (vf_tag(v) != RJS_VALUE_TAG_BIG_INT) return 0; b = VF_THING(v); return sp_canon(&b->bi) && sp_val(&b->bi) == e; }
static W mk(RJS_BigInt *b, uint32_t *l, int in, int max)
{
    int i, s = (int)IN_RANGE(in, 0, 2 * max) - max, n = s < 0 ? -s : s; U v = 0;
    for (i = 0; i < L; i ++) { l[i] = IN64(in + 1 + i); if (i >= n) l[i] = 0; else v |= ((U)l[i]) << (32 * i); if (i == n - 1) ASSUME(l[i] != 0); }
    b->bi.n = l; b->bi.size = s; b->bi.cap = L;
    return s < 0 ? -(W)v : (W)v;
}
static RJS_Runtime *world(int m1, int m2)
{
    RJS_Runtime *rt = vf_rt();
    ga = mk(&A, la, 0, m1); gb_ = mk(&B, lb, 8, m2); g_thrown = 0;
#ifndef VF_NATIVE
    g_np = 0; g_nd = 0; D.bi.size = 0;
#endif
    va = vf_new_thing(RJS_VALUE_TAG_BIG_INT, &A); vb = vf_new_thing(RJS_VALUE_TAG_BIG_INT, &B);
    return rt;
}
#define FRAME ASG(*rv, g_thrown, p0, p1, p2, p3, p4, p5, p6, g_np, g_nd, D, vf_things, vf_nthings)
#define UN(nm, e, m1) \
CONTRACT(RJS_Result rjs_big_int_##nm (RJS_Runtime *rt, RJS_Value *v, RJS_Value *rv) FRAME \
ENS(__CPROVER_return_value == RJS_OK && !g_thrown && sp_is(*rv, e));) \
void h_bi_##nm(void) { RJS_Runtime *rt = world(m1, 0); RJS_Value rv; int r; rv = VF_UNDEF; r = rjs_big_int_##nm(rt, &va, &rv); \
    NCHECK(#nm, r == RJS_OK && !g_thrown && sp_is(rv, e)); REACH(); }
#define BIN(nm, e, m1, m2) \
CONTRACT(RJS_Result rjs_big_int_##nm (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value *rv) FRAME \
ENS(__CPROVER_return_value == RJS_OK && !g_thrown && sp_is(*rv, e));) \
void h_bi_##nm(void) { RJS_Runtime *rt = world(m1, m2); RJS_Value rv; int r; rv = VF_UNDEF; r = rjs_big_int_##nm(rt, &va, &vb, &rv); \
    NCHECK(#nm, r == RJS_OK && !g_thrown && sp_is(rv, e)); REACH(); }

//@unit name=bi_unary_minus enforce=rjs_big_int_unary_minus fns=rjs_big_int_unary_minus,bi_dup
UN(unary_minus, -ga, L)
//@unit name=bi_inc enforce=rjs_big_int_inc fns=rjs_big_int_inc,bi_add_int,bi_sub_int,bi_end,bi_set_item,bi_set_cap
UN(inc, ga + 1, L)
//@unit name=bi_dec enforce=rjs_big_int_dec
UN(dec, ga - 1, L)
//@unit name=bi_bitwise_not props=C08 enforce=rjs_big_int_bitwise_not
UN(bitwise_not, ~ga, L)
//@unit name=bi_add enforce=rjs_big_int_add fns=rjs_big_int_add,bi_add,bi_sub,bi_sub_greater,bi_compare_abs
BIN(add, ga + gb_, L, L)
//@unit name=bi_subtract enforce=rjs_big_int_subtract
BIN(subtract, ga - gb_, L, L)
//@unit name=bi_bitwise_and props=C08 enforce=rjs_big_int_bitwise_and fns=rjs_big_int_bitwise_and,bi_bit_op,bi_complement,bi_self_add_int
BIN(bitwise_and, ga & gb_, L, L)
//@unit name=bi_bitwise_or props=C08 enforce=rjs_big_int_bitwise_or
BIN(bitwise_or, ga | gb_, L, L)
//@unit name=bi_bitwise_xor props=C08 enforce=rjs_big_int_bitwise_xor
BIN(bitwise_xor, ga ^ gb_, L, L)

/* comparison */
static int ncmp(W a, W b) { return a < b ? RJS_COMPARE_LESS : a > b ? RJS_COMPARE_GREATER : RJS_COMPARE_EQUAL; }
CONTRACT(RJS_Result rjs_big_int_compare (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2) ASG()
ENS(__CPROVER_return_value == (ga < gb_ ? RJS_COMPARE_LESS : ga > gb_ ? RJS_COMPARE_GREATER : RJS_COMPARE_EQUAL));)
//@unit name=bi_compare enforce=rjs_big_int_compare fns=rjs_big_int_compare,bi_compare,bi_compare_abs
void h_bi_compare(void) { RJS_Runtime *rt = world(L, L); int r = rjs_big_int_compare(rt, &va, &vb); NCHECK("compare", r == ncmp(ga, gb_)); REACH(); }
CONTRACT(RJS_Bool rjs_big_int_same_value (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2) ASG() ENS((__CPROVER_return_value != 0) == (ga == gb_));)
//@unit name=bi_same enforce=rjs_big_int_same_value
void h_bi_same(void) { RJS_Runtime *rt = world(L, L); int r = rjs_big_int_same_value(rt, &va, &vb); NCHECK("same", (r != 0) == (ga == gb_)); REACH(); }
CONTRACT(RJS_Bool rjs_big_int_is_0 (RJS_Runtime *rt, RJS_Value *v) ASG() ENS((__CPROVER_return_value != 0) == (ga == 0));)
//@unit name=bi_is_0 enforce=rjs_big_int_is_0
void h_bi_is_0(void) { RJS_Runtime *rt = world(L, 0); int r = rjs_big_int_is_0(rt, &va); NCHECK("is_0", (r != 0) == (ga == 0)); REACH(); }

/* 64-bit conversions */
CONTRACT(RJS_Result rjs_big_int_to_int64 (RJS_Runtime *rt, RJS_Value *v, int64_t *pi) ASG(*pi) ENS(__CPROVER_return_value == RJS_OK && *pi == (int64_t)ga);)
//@unit name=bi_to_int64 props=C08,C05 enforce=rjs_big_int_to_int64
void h_bi_to_int64(void) { RJS_Runtime *rt = world(L, 0); int64_t i; int r = rjs_big_int_to_int64(rt, &va, &i); NCHECK("to_int64", r == RJS_OK && i == (int64_t)ga); REACH(); }
CONTRACT(RJS_Result rjs_big_int_to_uint64 (RJS_Runtime *rt, RJS_Value *v, uint64_t *pi) ASG(*pi) ENS(__CPROVER_return_value == RJS_OK && *pi == (uint64_t)ga);)
//@unit name=bi_to_uint64 props=C08,C05 enforce=rjs_big_int_to_uint64
void h_bi_to_uint64(void) { RJS_Runtime *rt = world(L, 0); uint64_t i; int r = rjs_big_int_to_uint64(rt, &va, &i); NCHECK("to_uint64", r == RJS_OK && i == (uint64_t)ga); REACH(); }
#define FROM(nm, ty, un) \
CONTRACT(RJS_Result rjs_big_int_from_##nm (RJS_Runtime *rt, RJS_Value *rv, ty i) FRAME ENS(__CPROVER_return_value == RJS_OK && sp_is(*rv, (W)(ty)gu));) \
void h_bi_from_##nm(void) { RJS_Runtime *rt = world(0, 0); RJS_Value rv; int r; rv = VF_UNDEF; gu = IN64(20); r = rjs_big_int_from_##nm(rt, &rv, (ty)gu); \
    NCHECK("from " #nm, r == RJS_OK && sp_is(rv, (W)(ty)gu)); REACH(); }
//@unit name=bi_from_int64 props=C08,C05 enforce=rjs_big_int_from_int64 bounded=
FROM(int64, int64_t, 0)
//@unit name=bi_from_uint64 props=C08,C05 enforce=rjs_big_int_from_uint64 bounded=
FROM(uint64, uint64_t, 1)
//@unit name=bi_from_int props=C07 enforce=rjs_big_int_from_int bounded=
FROM(int, int, 0)

/* asIntN, asUintN */
static int64_t gbits;
static int sp_asu(RJS_Value v) { U m = gbits >= 128 ? ~(U)0 : (((U)1) << gbits) - 1; return sp_is(v, (W)((U)ga & m)); }
static int sp_asi(RJS_Value v)
{ U m = gbits >= 128 ? ~(U)0 : (((U)1) << gbits) - 1, x = (U)ga & m; if (gbits > 0 && gbits <= 127 && (x >> (gbits - 1)) & 1) x |= ~m; return sp_is(v, (W)x); }
CONTRACT(RJS_Result rjs_big_int_as_uint_n (RJS_Runtime *rt, int64_t bits, RJS_Value *v, RJS_Value *rv) FRAME ENS(__CPROVER_return_value == RJS_OK && sp_asu(*rv));)
//@unit name=bi_as_uint_n props=C08 enforce=rjs_big_int_as_uint_n fns=rjs_big_int_as_uint_n,bi_bits bounded="operands of at most 3 limbs, widths 0..126"
void h_bi_as_uint_n(void) { RJS_Runtime *rt = world(L, 0); RJS_Value rv; int r; rv = VF_UNDEF; gbits = IN_RANGE(20, 0, 126); r = rjs_big_int_as_uint_n(rt, gbits, &va, &rv); NCHECK("asUintN", r == RJS_OK && sp_asu(rv)); REACH(); }
CONTRACT(RJS_Result rjs_big_int_as_int_n (RJS_Runtime *rt, int64_t bits, RJS_Value *v, RJS_Value *rv) FRAME ENS(__CPROVER_return_value == RJS_OK && sp_asi(*rv));)
//@unit name=bi_as_int_n props=C08 enforce=rjs_big_int_as_int_n bounded="operands of at most 3 limbs, widths 0..126"
void h_bi_as_int_n(void) { RJS_Runtime *rt = world(L, 0); RJS_Value rv; int r; rv = VF_UNDEF; gbits = IN_RANGE(20, 0, 126); r = rjs_big_int_as_int_n(rt, gbits, &va, &rv); NCHECK("asIntN", r == RJS_OK && sp_asi(rv)); REACH(); }

/* shifts: gb_ is the count (one limb), left shifts stay within 127 bits */
#define SHL(k) ((k) >= 0 ? (W)((U)ga << ((k) > 127 ? 127 : (k))) : ga >> (-(k) > 127 ? 127 : -(k)))
static int sp_shl(RJS_Value v) { return sp_is(v, SHL(gb_)); }
static int sp_shr(RJS_Value v) { return sp_is(v, SHL(-gb_)); }
#define SHIFT(nm, sp) \
CONTRACT(RJS_Result rjs_big_int_##nm (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value *rv) FRAME \
ENS(__CPROVER_return_value == RJS_OK && !g_thrown && sp(*rv));) \
static void do_##nm(RJS_Runtime *rt) { RJS_Value rv; int r; rv = VF_UNDEF; r = rjs_big_int_##nm(rt, &va, &vb, &rv); \
    NCHECK(#nm, r == RJS_OK && !g_thrown && sp(rv)); REACH(); }
SHIFT(left_shift, sp_shl)
SHIFT(signed_right_shift, sp_shr)
//@unit name=bi_shl props=C08 enforce=rjs_big_int_left_shift fns=rjs_big_int_left_shift,bi_shift bounded="left operand at most 2 limbs, counts -2^32 .. 60"
void h_bi_shl(void) { RJS_Runtime *rt = world(2, 1); ASSUME(gb_ <= 60); do_left_shift(rt); }
//@unit name=bi_shr props=C08 enforce=rjs_big_int_signed_right_shift fns=rjs_big_int_signed_right_shift,bi_shift bounded="left operand at most 3 limbs, counts -28 .. 2^32"
void h_bi_shr(void) { RJS_Runtime *rt = world(3, 1); ASSUME(gb_ >= -28); do_signed_right_shift(rt); }
/* a count of more than one limb */
static int shbig(RJS_Value v, RJS_Result r, int left)
{ if ((gb_ > 0) == (left != 0)) return r == RJS_ERR && g_thrown == 2; return r == RJS_OK && !g_thrown && sp_is(v, ga < 0 ? -1 : 0); }
//@unit name=bi_sh_big props=C08 bounded="left operand at most 2 limbs, count of 2 or 3 limbs" fns=bi_shift dfcc=0
void h_bi_sh_big(void) { RJS_Runtime *rt = world(2, 3); RJS_Value rv; int r, left = IN_RANGE(20, 0, 1); ASSUME(gb_ > 0xffffffffll || gb_ < -0xffffffffll);
    rv = VF_UNDEF; r = left ? rjs_big_int_left_shift(rt, &va, &vb, &rv) : rjs_big_int_signed_right_shift(rt, &va, &vb, &rv);
    CHECK("shift by a count beyond 32 bits", shbig(rv, r, left)); REACH(); }

/* Number -> BigInt, BigInt <=> Number */
static double gd;
static uint64_t sp_bits(double d) { union { double d; uint64_t u; } x; x.d = d; return x.u; }
static W sp_dint(double d)  /* |d| < 2^120 */
{ uint64_t m = (sp_bits(d) & 0xfffffffffffffull) | 0x10000000000000ull; int e = sp_exp(d) - 1023; U v;
  if (e < 0) return 0; v = e >= 52 ? ((U)m) << (e - 52) : (U)(m >> (52 - e)); return sp_bits(d) >> 63 ? -(W)v : (W)v; }
static int sp_n2b(RJS_Value v) { return sp_is(v, sp_dint(gd)); }
CONTRACT(RJS_Result rjs_number_to_big_int (RJS_Runtime *rt, RJS_Number n, RJS_Value *rv) FRAME ENS(__CPROVER_return_value == RJS_OK && sp_n2b(*rv));)
//@unit name=bi_from_num enforce=rjs_number_to_big_int fns=rjs_number_to_big_int,bi_set_number bounded="Numbers below 2^127" unwind=12
void h_bi_from_num(void) { RJS_Runtime *rt = world(0, 0); RJS_Value rv; int r; rv = VF_UNDEF; gd = IN_DBL(20); ASSUME(gd == trunc(gd) && fabs(gd) < 0x1p127);
    r = rjs_number_to_big_int(rt, gd, &rv); NCHECK("BigInt(number)", r == RJS_OK && sp_n2b(rv)); REACH(); }
static int sp_bcn(void)
{
    W t; uint64_t fr; int e = sp_exp(gd) - 1023;
    if (sp_isnan(gd)) return RJS_COMPARE_UNDEFINED;
    if (e >= 120) return sp_bits(gd) >> 63 ? RJS_COMPARE_GREATER : RJS_COMPARE_LESS;
    t = sp_dint(gd);
    if (ga != t) return ga < t ? RJS_COMPARE_LESS : RJS_COMPARE_GREATER;
    /* equal integral parts: the fraction decides */
    if (e >= 52) return RJS_COMPARE_EQUAL;
    if (e < 0) fr = sp_bits(gd) << 1; else fr = sp_bits(gd) << (12 + e);
    if (!fr) return RJS_COMPARE_EQUAL;
    return sp_bits(gd) >> 63 ? RJS_COMPARE_GREATER : RJS_COMPARE_LESS;
}
CONTRACT(RJS_Result rjs_big_int_compare_number (RJS_Runtime *rt, RJS_Value *v, RJS_Number n) ASG(g_thrown, p0, p1, p2, p3, p4, p5, p6, g_np) ENS(__CPROVER_return_value == sp_bcn());)
//@unit name=bi_cmp_num props=C07,C02 enforce=rjs_big_int_compare_number fns=rjs_big_int_compare_number,bi_compare,bi_set_number bounded="BigInts of at most 3 limbs; Numbers below 2^127, infinities and NaN" unwind=12
void h_bi_cmp_num(void) { RJS_Runtime *rt = world(L, 0); int r; gd = IN_DBL(20); ASSUME(!(fabs(gd) >= 0x1p127 && fabs(gd) < __builtin_inf()));
    r = rjs_big_int_compare_number(rt, &va, gd); NCHECK("compare BigInt with Number", r == sp_bcn()); REACH(); }

/* multiplication, modularly: bi_mul_int against the schoolbook carry chain; bi_mul with bi_mul_int replaced by
 * its contract (an arbitrary product per limb, so no multiplier remains) */
static RJS_BI mi_dst; static uint32_t mi_n; static int mi_shift; static int g_r;
static int sp_mulint(void)
{   /* |dst| == |src| * n << 32 shift, and its sign is plus */
    U c = 0; int i, n = mi_n ? (A.bi.size < 0 ? -A.bi.size : A.bi.size) : 0, sh = mi_n ? mi_shift : 0, k = n + sh;
    for (i = 0; i < L; i ++) if (i < n) { c += (uint64_t)mi_n * la[i]; if (i + sh >= mi_dst.size || mi_dst.n[i + sh] != (uint32_t)c) return 0; c >>= 32; }
    for (i = 0; i < 2; i ++) if (i < sh && (i >= mi_dst.size || mi_dst.n[i] != 0)) return 0;
    if (c) return mi_dst.size == k + 1 && mi_dst.n[k] == (uint32_t)c;
    return mi_dst.size == k;
}
CONTRACT(static RJS_Result bi_mul_int (RJS_Runtime *rt, RJS_BI *src, uint32_t n, RJS_BI *dst, int shift)
ASG(mi_dst, p0, p1, p2, p3, p4, p5, p6, g_np, g_thrown) ENS(__CPROVER_return_value == RJS_OK && sp_mulint());)
//@unit name=bi_mul_int enforce=bi_mul_int bounded="at most 3 limbs, shift 0..2"
void h_bi_mul_int(void) { RJS_Runtime *rt = world(L, 0); mi_dst.n = NULL; mi_dst.size = 0; mi_dst.cap = 0; mi_n = IN64(20); mi_shift = IN_RANGE(21, 0, 2);
    ASSUME(ga != 0);
    g_r = bi_mul_int(rt, &A.bi, mi_n, &mi_dst, mi_shift); NCHECK("limb multiplication", g_r == RJS_OK && sp_mulint()); REACH(); }

#ifdef MUL2
static U mprod[L]; static int mcnt; static RJS_BI *msrc2;
RJS_Result vf_mul_int (RJS_Runtime *rt, RJS_BI *src, uint32_t n, RJS_BI *dst, int shift)
{
    U v; int i, k;
    CHECK("first factor passed whole", src == &A.bi);
    CHECK("limbs taken in order, each with its own weight", mcnt < L && shift == mcnt && n == lb[mcnt] && dst->size >= 0);
    v = mprod[mcnt ++];
    bi_set_0(dst);
    for (i = 0; i < shift; i ++) bi_set_item(rt, dst, i, 0);
    for (k = 0; k < 4; k ++) if (v >> (32 * k)) bi_set_item(rt, dst, i + k, v >> (32 * k));
    if (!v) bi_set_0(dst);
    return RJS_OK;
}
#endif
/* |a| * |b| as the sum of the limb products */
static int sp_mul(RJS_Value v)
{
#ifdef MUL2
    U s = 0; int i, nb = B.bi.size < 0 ? -B.bi.size : B.bi.size;
    if (ga == 0 || gb_ == 0) return sp_is(v, 0);
    if (ga == 1 || ga == -1) return sp_is(v, ga * gb_);
    if (gb_ == 1 || gb_ == -1) return sp_is(v, gb_ < 0 ? -ga : ga);
    for (i = 0; i < L; i ++) if (i < nb) s += mprod[i] << (32 * i);
    return sp_is(v, (ga < 0) == (gb_ < 0) ? (W)s : -(W)s);
#else
    return sp_is(v, ga * gb_);
#endif
}
CONTRACT(RJS_Result rjs_big_int_multiply (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value *rv)
FRAME
#ifdef MUL2
ASG(mcnt)
#endif
ENS(__CPROVER_return_value == RJS_OK && !g_thrown && sp_mul(*rv));)
//@unit name=bi_mul enforce=rjs_big_int_multiply fns=rjs_big_int_multiply,bi_mul,bi_self_add defs="-DMUL2 -DL=2" calls=VF_BOX,rjs_realloc:vf_realloc,rjs_alloc_assert:vf_alloc,bi_mul_int:vf_mul_int bounded="factors of at most 2 limbs, product below 2^127; limb products arbitrary (their contract is proved in bi_mul_int)"
void h_bi_mul(void) { RJS_Runtime *rt = world(L, L); RJS_Value rv; int r;
#ifdef MUL2
    int i; mcnt = 0;
    for (i = 0; i < L; i ++) { U p = ((U)IN64(22 + 2 * i) << 64) | IN64(23 + 2 * i); ASSUME((p == 0) == (lb[i] == 0) && p < ((U)1 << (A.bi.size < 0 ? -32 * A.bi.size + 32 : 32 * A.bi.size + 32)));
        if (lb[i] == 1) ASSUME(p == (U)(ga < 0 ? -ga : ga)); if (lb[i]) ASSUME(p >= (U)(ga < 0 ? -ga : ga)); mprod[i] = p; }
    ASSUME(!((mprod[1] << 32) >> 126) && !(mprod[1] >> 92));
#endif
    rv = VF_UNDEF; r = rjs_big_int_multiply(rt, &va, &vb, &rv); NCHECK("multiply", r == RJS_OK && !g_thrown && sp_mul(rv)); REACH(); }


/* division: one limb by one limb with limbs k or k<<27 (k < 32), and longer operands with limbs from a table of
 * boundary values.  The oracle is a == q*b + r with |r| < |b| and r of a's sign. */
#define QS(a) ((a) < 0 ? -(U)(a) : (U)(a))
static U gq, gr;   /* ghost: |a| / |b| and |a| % |b| */
static int sp_quot(RJS_Value v) { return sp_is(v, (ga < 0) != (gb_ < 0) ? -(W)gq : (W)gq); }
static int sp_rem(RJS_Value v) { return sp_is(v, ga < 0 ? -(W)gr : (W)gr); }

/* in-place helpers of the division, against the same 128-bit oracle */
static RJS_BI acc; static uint32_t lacc[8]; static W gacc;
static void mkacc(RJS_BigInt *b, uint32_t *l)
{ int i; for (i = 0; i < 8; i ++) lacc[i] = i < L ? l[i] : 0; acc.n = lacc; acc.cap = 8; acc.size = b->bi.size; }
static int sp_acc(W e) { return sp_canon(&acc) && sp_val(&acc) == e; }
CONTRACT(static RJS_Result bi_self_add (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2) ASG(acc, __CPROVER_object_whole(lacc), g_thrown)
ENS(__CPROVER_return_value == RJS_OK && sp_acc(ga + gb_));)
//@unit name=bi_self_add enforce=bi_self_add
void h_bi_self_add(void) { RJS_Runtime *rt = world(L, L); ASSUME(ga >= 0 && gb_ >= 0); mkacc(&A, la);
    g_r = bi_self_add(rt, &acc, &B.bi); NCHECK("sum in place", g_r == RJS_OK && sp_acc(ga + gb_)); REACH(); }
CONTRACT(static RJS_Result bi_self_sub_greater (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2) ASG(acc, __CPROVER_object_whole(lacc), g_thrown)
ENS(__CPROVER_return_value == RJS_OK && sp_acc(ga - gb_));)
//@unit name=bi_self_sub enforce=bi_self_sub_greater
void h_bi_self_sub(void) { RJS_Runtime *rt = world(L, L); ASSUME(gb_ >= 0 && ga >= gb_); mkacc(&A, la);
    g_r = bi_self_sub_greater(rt, &acc, &B.bi); NCHECK("difference in place", g_r == RJS_OK && sp_acc(ga - gb_)); REACH(); }
#ifndef DT
#define DT U
#endif
#ifndef DL
#define DL L
#endif
#ifdef DIVU
/* their contracts, as used by bi_div */
static W sv(RJS_BI *b) { int n = b->size < 0 ? -b->size : b->size, i; U v = 0; for (i = 0; i < 4; i ++) if (i < n) v |= ((U)b->n[i]) << (32 * i); return b->size < 0 ? -(W)v : (W)v; }
static void sput(RJS_Runtime *rt, RJS_BI *b, U v)
{ int i; for (i = 0; i < 4; i ++) b->n[i] = v >> (32 * i);
  b->size = (v >> 96) ? 4 : (v >> 64) ? 3 : (v >> 32) ? 2 : v ? 1 : 0; }
void vf_d_init (RJS_BI *b) { b->n = rjs_realloc(NULL, NULL, 0, 32); b->cap = 8; b->size = 0; }
RJS_Result vf_d_mul_int (RJS_Runtime *rt, RJS_BI *src, uint32_t n, RJS_BI *dst, int shift)
{ CHECK("vf: no shift", shift == 0 && src->size >= 0); { U v = 0; int i; for (i = 0; i < DL; i ++) if (i < src->size) v += ((U)((uint64_t)n * src->n[i])) << (32 * i); CHECK("vf: limbs", src->size <= DL); sput(rt, dst, v); } return RJS_OK; }
RJS_Result vf_d_add (RJS_Runtime *rt, RJS_BI *a, RJS_BI *b)
{ CHECK("sum of magnitudes", a->size >= 0 && b->size >= 0); sput(rt, a, (U)sv(a) + (U)sv(b)); return RJS_OK; }
RJS_Result vf_d_sub (RJS_Runtime *rt, RJS_BI *a, RJS_BI *b)
{ CHECK("remainder never falls below zero", a->size >= 0 && b->size >= 0 && sv(a) >= sv(b)); sput(rt, a, (U)sv(a) - (U)sv(b)); return RJS_OK; }
RJS_Result vf_d_dup (RJS_Runtime *rt, RJS_BI *d, RJS_BI *s)
{ int sz = s->size; sput(rt, d, sv(s) < 0 ? -(U)sv(s) : (U)sv(s)); d->size = sz; return RJS_OK; }
#endif
static uint32_t tab(int k) { static const uint32_t t[] = { 0, 1, 0xffffffffu, 0x80000000u, 0x7fffffffu, 2, 0xfffffffeu, 3 }; return t[k]; }
static W tmk(RJS_BigInt *b, uint32_t *l, int in, int n, int nt)
{
    int i, neg = IN_RANGE(in, 0, 1); U v = 0;
    for (i = 0; i < L; i ++) { l[i] = i < n ? tab(IN_RANGE(in + 1 + i, 0, nt - 1)) : 0; v |= ((U)l[i]) << (32 * i); }
    ASSUME(l[n - 1] != 0);
    b->bi.n = l; b->bi.cap = L; b->bi.size = n; if (neg) b->bi.size = -n;
    return neg ? -(W)v : (W)v;
}
#ifndef SB
#define SB 5
#endif
static uint32_t small(int in) { uint32_t k = IN_RANGE(in, 0, (1 << SB) - 1); return IN_RANGE(in + 1, 0, 1) ? k << (32 - SB) : k; }
static RJS_Runtime *dworld(void)
{
    RJS_Runtime *rt = world(0, 0);
#ifdef TD
    ga = tmk(&A, la, 0, TA, TN); gb_ = tmk(&B, lb, 8, TB, TN);
    ASSUME(lb[TB - 1] >= 0x7fffffff);
#else
    { int n1 = IN_RANGE(0, 0, 1), n2 = IN_RANGE(8, 0, 1); la[0] = small(1); lb[0] = small(9);
      ASSUME(la[0] && lb[0]); A.bi.n = la; B.bi.n = lb; A.bi.size = 1; B.bi.size = 1; if (n1) A.bi.size = -1; if (n2) B.bi.size = -1; ga = n1 ? -(W)la[0] : la[0]; gb_ = n2 ? -(W)lb[0] : lb[0]; }
#endif
    if (gb_ != 0) { gq = (DT)QS(ga) / (DT)QS(gb_); gr = (DT)QS(ga) % (DT)QS(gb_); }
    return rt;
}
void h_bi_div(void) { RJS_Runtime *rt = dworld(); RJS_Value rv; int r; rv = VF_UNDEF; r = rjs_big_int_divide(rt, &va, &vb, &rv);
    CHECK("divide", gb_ == 0 ? r == RJS_ERR && g_thrown == 2 : r == RJS_OK && !g_thrown && sp_quot(rv)); REACH(); }
void h_bi_rem(void) { RJS_Runtime *rt = dworld(); RJS_Value rv; int r; rv = VF_UNDEF; r = rjs_big_int_remainder(rt, &va, &vb, &rv);
    CHECK("remainder", gb_ == 0 ? r == RJS_ERR && g_thrown == 2 : r == RJS_OK && !g_thrown && sp_rem(rv)); REACH(); }
//@unit name=bi_div_1 entry=h_bi_div dfcc=0 calls=VF_BOX,rjs_realloc:vf_realloc,rjs_alloc_assert:vf_alloc,bi_mul_int:vf_d_mul_int,bi_self_add:vf_d_add,bi_self_sub_greater:vf_d_sub,bi_dup:vf_d_dup,bi_init:vf_d_init fns=rjs_big_int_divide,bi_div  bounded="one limb by one limb, limbs k or k<<27 with 0<k<32, both signs" defs="-DDIVU -DL=2 -DDL=1 -DDT=uint32_t" unwind=3 unwindset=sv.0:5,sput.0:5,sp_val.0:5,world.0:5
//@unit name=bi_div_21 entry=h_bi_div dfcc=0 calls=VF_BOX,rjs_realloc:vf_realloc,rjs_alloc_assert:vf_alloc,bi_mul_int:vf_d_mul_int,bi_self_add:vf_d_add,bi_self_sub_greater:vf_d_sub,bi_dup:vf_d_dup,bi_init:vf_d_init fns=rjs_big_int_divide,bi_div  bounded="2 limbs by 1 limb, limbs from {0,1,2^32-1,2^31,2^31-1}, divisor at least 2^31-1" defs="-DDIVU -DDT=uint64_t -DL=2 -DTD -DTA=2 -DTB=1 -DTN=5" unwind=5
//@unit name=bi_div_32 entry=h_bi_div dfcc=0 calls=VF_BOX,rjs_realloc:vf_realloc,rjs_alloc_assert:vf_alloc,bi_mul_int:vf_d_mul_int,bi_self_add:vf_d_add,bi_self_sub_greater:vf_d_sub,bi_dup:vf_d_dup,bi_init:vf_d_init fns=rjs_big_int_divide,bi_div  bounded="3 limbs by 2 limbs, limbs from {0,1,2^32-1}, divisor top limb 2^32-1" defs="-DDIVU -DL=3 -DDT=U -DTD -DTA=3 -DTB=2 -DTN=3" unwind=5
//@unit name=bi_rem_1 entry=h_bi_rem dfcc=0 calls=VF_BOX,rjs_realloc:vf_realloc,rjs_alloc_assert:vf_alloc,bi_mul_int:vf_d_mul_int,bi_self_add:vf_d_add,bi_self_sub_greater:vf_d_sub,bi_dup:vf_d_dup,bi_init:vf_d_init fns=rjs_big_int_remainder,bi_div  bounded="one limb by one limb, limbs k or k<<27 with 0<k<32, both signs" defs="-DDIVU -DL=2 -DDL=1 -DDT=uint32_t" unwind=3 unwindset=sv.0:5,sput.0:5,sp_val.0:5,world.0:5
//@unit name=bi_rem_21 entry=h_bi_rem dfcc=0 calls=VF_BOX,rjs_realloc:vf_realloc,rjs_alloc_assert:vf_alloc,bi_mul_int:vf_d_mul_int,bi_self_add:vf_d_add,bi_self_sub_greater:vf_d_sub,bi_dup:vf_d_dup,bi_init:vf_d_init fns=rjs_big_int_remainder,bi_div  bounded="2 limbs by 1 limb, limbs from {0,1,2^32-1,2^31,2^31-1}, divisor at least 2^31-1" defs="-DDIVU -DDT=uint64_t -DL=2 -DTD -DTA=2 -DTB=1 -DTN=5" unwind=5
//@unit name=bi_rem_32 entry=h_bi_rem dfcc=0 calls=VF_BOX,rjs_realloc:vf_realloc,rjs_alloc_assert:vf_alloc,bi_mul_int:vf_d_mul_int,bi_self_add:vf_d_add,bi_self_sub_greater:vf_d_sub,bi_dup:vf_d_dup,bi_init:vf_d_init fns=rjs_big_int_remainder,bi_div  bounded="3 limbs by 2 limbs, limbs from {0,1,2^32-1}, divisor top limb 2^32-1" defs="-DDIVU -DL=3 -DDT=U -DTD -DTA=3 -DTB=2 -DTN=3" unwind=5
