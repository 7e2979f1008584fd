/* C03: arithmetic operators on Numbers (and their dispatch to BigInt) and the exact Math functions. */
#include "vf.h"
#define rjs_throw_type_error  vf_throw_type_error
#define rjs_object_to_primitive vf_object_to_primitive
#define rjs_object_to_number  vf_object_to_number
#define rjs_string_to_number  vf_string_to_number
#define rjs_big_int_unary_minus vf_big_int_unary_minus
#define rjs_big_int_inc vf_big_int_inc
#define rjs_big_int_dec vf_big_int_dec
#define rjs_big_int_add vf_big_int_add
#define rjs_big_int_subtract vf_big_int_subtract
#define rjs_big_int_multiply vf_big_int_multiply
#define rjs_big_int_divide vf_big_int_divide
#define rjs_big_int_remainder vf_big_int_remainder
#define rjs_big_int_exponentiate vf_big_int_exponentiate
/* the two library functions whose own accuracy is trusted */
#include <math.h>
#include <stdlib.h>
static double (*const vf_real_fmod)(double, double) = fmod;
static double (*const vf_real_pow)(double, double) = pow;
double vf_fmod(double, double);
double vf_pow(double, double);
int vf_rand(void);
#define fmod vf_fmod
#define pow vf_pow
#define rand vf_rand
#include "lib/rjs_number.c"
#include "lib/rjs_bc_call.c"
#include "lib/rjs_math_object_inc.c"
#include "vf_rt.h"
#include "vf_spec.h"

//@trust libm fmod and pow (finite operands) and rand return the correctly computed value: the contract checks that they are called on the operands and that the result is returned
//@trust rjs_throw_type_error, ToPrimitive of objects and StringToNumber are arbitrary-result stubs
//@assume BigInt operands: the contract fixes which BigInt routine is called on which operands; the routines themselves are C07/C08
//@default props=C03 unwind=40

static int vf_thrown;
RJS_Result vf_throw_type_error (RJS_Runtime *rt, const char *fmt, ...) { vf_thrown = 1; return RJS_ERR; }
static double vf_strnum[2];
static RJS_Value vf_prim[2]; static int vf_primthrow[2];
#define SVAL(i) ((((RJS_Value)RJS_VALUE_TAG_STRING) << 48) | (0x1000 + 16 * (i)))
#define OVAL(i) ((((RJS_Value)RJS_VALUE_TAG_OBJECT) << 48) | (0x2000 + 16 * (i)))
#define BVAL(i) ((((RJS_Value)RJS_VALUE_TAG_BIG_INT) << 48) | (0x3000 + 16 * (i)))
static RJS_Value rd(RJS_Runtime *rt, RJS_Value *v) { return *rjs_value_get_pointer(rt, v); }
RJS_Number vf_string_to_number (RJS_Runtime *rt, RJS_Value *s) { return vf_strnum[rd(rt, s) == SVAL(1)]; }
RJS_Result vf_object_to_primitive (RJS_Runtime *rt, RJS_Value *v, RJS_Value *prim, RJS_ValueType type)
{
    int i = rd(rt, v) == OVAL(1);
    if (vf_primthrow[i]) { vf_thrown = 1; return RJS_ERR; }
    *rjs_value_get_pointer(rt, prim) = vf_prim[i];
    return RJS_OK;
}
RJS_Result vf_object_to_number (RJS_Runtime *rt, RJS_Value *v, RJS_Number *pn)
{ vf_thrown = 1; return RJS_ERR; }
/* library calls */
static double vf_lib_a, vf_lib_b, vf_lib_r; static int vf_lib_f;   /* 1 fmod 2 pow */
double vf_fmod(double a, double b)
{
    vf_lib_a = a; vf_lib_b = b; vf_lib_f = 1;
#ifdef VF_NATIVE
    vf_lib_r = vf_real_fmod(a, b);
#endif
    return vf_lib_r;
}
double vf_pow(double a, double b)
{
    vf_lib_a = a; vf_lib_b = b; vf_lib_f = 2;
#ifdef VF_NATIVE
    vf_lib_r = vf_real_pow(a, b);
#endif
    return vf_lib_r;
}
static int vf_randv;
int vf_rand(void) { return vf_randv; }
/* BigInt routines: record which was called on what, return a recognisable BigInt */
enum { B_NONE, B_NEG, B_INC, B_DEC, B_ADD, B_SUB, B_MUL, B_DIV, B_MOD, B_POW };
static int vf_bop, vf_berr; static RJS_Value vf_ba, vf_bb;
#define BRES (BVAL(0) + 0x500)
static RJS_Result bcall(RJS_Runtime *rt, int op, RJS_Value a, RJS_Value b, RJS_Value *rv)
{
    vf_bop = op; vf_ba = a; vf_bb = b;
    if (vf_berr && (op == B_DIV || op == B_MOD || op == B_POW)) { vf_thrown = 1; return RJS_ERR; }
    *rjs_value_get_pointer(rt, rv) = BRES;
    return RJS_OK;
}
#define B1(n, op) RJS_Result vf_big_int_##n (RJS_Runtime *rt, RJS_Value *v, RJS_Value *rv) { return bcall(rt, op, rd(rt, v), 0, rv); }
#define B2(n, op) RJS_Result vf_big_int_##n (RJS_Runtime *rt, RJS_Value *a, RJS_Value *b, RJS_Value *rv) { return bcall(rt, op, rd(rt, a), rd(rt, b), rv); }
B1(unary_minus, B_NEG)
B1(inc, B_INC) B1(dec, B_DEC)
B2(add, B_ADD) B2(subtract, B_SUB) B2(multiply, B_MUL) B2(divide, B_DIV) B2(remainder, B_MOD) B2(exponentiate, B_POW)

/* the Number routines as called by the operators (verifier only: natively the
 * real ones run and the result itself is compared) */
static int vf_nop; static RJS_Value vf_na, vf_nb, vf_nres;
#define N2(n, op) void vf_number_##n (RJS_Runtime *rt, RJS_Value *a, RJS_Value *b, RJS_Value *rv) \
{ vf_nop = op; vf_na = rd(rt, a); vf_nb = rd(rt, b); *rjs_value_get_pointer(rt, rv) = vf_nres; }
N2(add, B_ADD) N2(subtract, B_SUB) N2(multiply, B_MUL) N2(divide, B_DIV) N2(remainder, B_MOD) N2(exponentiate, B_POW)

/* kinds: 0 number 1 undefined 2 null 3 boolean 4 symbol 5,6 BigInt 7 index string 8,9 string 10,11 object */
static RJS_Value in_val(int slot, int maxkind)
{
    int k = IN_RANGE(slot, 0, maxkind);
    uint64_t x = IN64(slot + 1);
    switch (k) {
    case 1: return VF_UNDEF;
    case 2: return VF_NULL;
    case 3: return (((RJS_Value)RJS_VALUE_TAG_BOOLEAN) << 48) | (x & 1);
    case 4: return (((RJS_Value)RJS_VALUE_TAG_SYMBOL) << 48) | 0x1000;
    case 5: case 6: return BVAL(k - 5);
    case 7: return (((RJS_Value)RJS_VALUE_TAG_INDEX_STRING) << 48) | (x & 0xffffffff);
    case 8: case 9: return SVAL(k - 8);
    case 10: case 11: return OVAL(k - 10);
    default: {
        RJS_Value v = x;
        ASSUME(vf_num_ok(v));
        return v; }
    }
}
static RJS_Runtime *world(void)
{
    RJS_Runtime *rt = vf_rt();
    int i;
    vf_thrown = 0; vf_bop = 0; vf_lib_f = 0; vf_nop = 0;
    vf_nres = IN64(30); ASSUME(vf_is_num(vf_nres));
    for (i = 0; i < 2; i ++) {
        vf_strnum[i] = IN_DBL(20 + i); ASSUME(vf_strnum[i] == vf_strnum[i]);
        vf_prim[i] = in_val(22 + 2 * i, 9);
        vf_primthrow[i] = IN_RANGE(26 + i, 0, 1);
    }
    vf_lib_r = IN_DBL(28); ASSUME(vf_lib_r == vf_lib_r);
    vf_berr = IN_RANGE(29, 0, 1);
    return rt;
}
/* ---- specification ---- */
#define S_THROW 0
#define S_NUM 1
#define S_BIG 2
/* ToNumeric of an operand after ToPrimitive */
static int sp_numeric(RJS_Value v, double *d, RJS_Value *big)
{
    if (vf_tag(v) == RJS_VALUE_TAG_OBJECT) {
        int i = v == OVAL(1);
        if (vf_primthrow[i]) return S_THROW;
        v = vf_prim[i];
    }
    switch (vf_tag(v)) {
    case RJS_VALUE_TAG_UNDEFINED: *d = 0.0 / 0.0; return S_NUM;
    case RJS_VALUE_TAG_NULL: *d = 0; return S_NUM;
    case RJS_VALUE_TAG_BOOLEAN: *d = (v & 1) ? 1 : 0; return S_NUM;
    case RJS_VALUE_TAG_SYMBOL: return S_THROW;
    case RJS_VALUE_TAG_BIG_INT: *big = v; return S_BIG;
    case RJS_VALUE_TAG_INDEX_STRING: *d = (double)(uint32_t)v; return S_NUM;
    case RJS_VALUE_TAG_STRING: *d = vf_strnum[v == SVAL(1)]; return S_NUM;
    default: *d = vf_num(v); return S_NUM;
    }
}
static int sp_numis(RJS_Value got, double e)
{ return vf_is_num(got) && (sp_isnan(e) ? sp_isnan(vf_num(got)) : got == vf_dbits(e)); }
/* ECMAScript Number::exponentiate special cases: returns 1 and *e, or 0 when pow decides */
static int sp_exp_special(double b, double x, double *e)
{
    uint64_t bb = vf_dbits(b), ab = bb & 0x7fffffffffffffffull; int neg = bb >> 63;
    uint64_t xb = vf_dbits(x), ax = xb & 0x7fffffffffffffffull; int xneg = xb >> 63;
    double inf = 1.0 / 0.0;
    if (sp_isnan(x)) { *e = x; return 1; }
    if (ax == 0) { *e = 1; return 1; }
    if (sp_isnan(b)) { *e = b; return 1; }
    if (ab == 0x7ff0000000000000ull) {
        if (!neg) *e = xneg ? 0.0 : inf;
        else if (!xneg) *e = sp_isodd(x) ? -inf : inf;
        else *e = sp_isodd(x) ? -0.0 : 0.0;
        return 1;
    }
    if (ab == 0) {
        if (!neg) *e = xneg ? inf : 0.0;
        else if (!xneg) *e = sp_isodd(x) ? -0.0 : 0.0;
        else *e = sp_isodd(x) ? -inf : inf;
        return 1;
    }
    if (ax == 0x7ff0000000000000ull) {
        if (ab == 0x3ff0000000000000ull) *e = 0.0 / 0.0;
        else if ((ab > 0x3ff0000000000000ull) != xneg) *e = inf;
        else *e = 0.0;
        return 1;
    }
    return 0;
}
static int post_num2(int op, double x, double y, RJS_Value got)
{
    double e;
    switch (op) {
    case B_ADD: return sp_numis(got, x + y);
    case B_SUB: return sp_numis(got, x - y);
    case B_MUL: return sp_numis(got, x * y);
    case B_DIV: return sp_numis(got, x / y);
    case B_MOD: return vf_lib_f == 1 && vf_dbits(vf_lib_a) == vf_dbits(x) && vf_dbits(vf_lib_b) == vf_dbits(y) && sp_numis(got, vf_lib_r);
    default:
        if (sp_exp_special(x, y, &e)) return sp_numis(got, e);
        return vf_lib_f == 2 && vf_dbits(vf_lib_a) == vf_dbits(x) && vf_dbits(vf_lib_b) == vf_dbits(y) && sp_numis(got, vf_lib_r);
    }
}
static int post_bin(int op, RJS_Value a, RJS_Value b, RJS_Result r, RJS_Value got)
{
    double x, y; RJS_Value bx, by; int s, t;
    s = sp_numeric(a, &x, &bx);
    if (s == S_THROW) return r == RJS_ERR && vf_thrown;
    t = sp_numeric(b, &y, &by);
    if (t == S_THROW || s != t) return r == RJS_ERR && vf_thrown;
    if (s == S_BIG) {
        if (vf_bop != op || vf_ba != bx || vf_bb != by) return 0;
        if (vf_berr && (op == B_DIV || op == B_MOD || op == B_POW)) return r == RJS_ERR && vf_thrown;
        return r == RJS_OK && !vf_thrown && got == BRES;
    }
    if (!(r == RJS_OK && !vf_thrown && vf_bop == 0)) return 0;
#ifndef VF_NATIVE
    return vf_nop == op && sp_numis(vf_na, x) && sp_numis(vf_nb, y) && got == vf_nres;
#else
    return post_num2(op, x, y, got);
#endif
}
#ifndef VF_NATIVE
#define STK __CPROVER_object_whole(vf_stack_s), vf_ns_s.value.item_num, vf_thrown, vf_nop, vf_na, vf_nb, vf_bop, vf_ba, vf_bb, vf_lib_a, vf_lib_b, vf_lib_f
#endif
#define BINOP(nm, op, maxk) \
CONTRACT(static inline RJS_Result do_bc_##nm (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value *rv) \
REQ(!vf_thrown && !vf_bop && !vf_lib_f) ASG(*rv, STK) \
ENS(post_bin(op, __CPROVER_old(*v1), __CPROVER_old(*v2), __CPROVER_return_value, *rv));) \
void h_##nm(void) { \
    RJS_Runtime *rt = world(); RJS_Value a = in_val(0, maxk), b = in_val(2, maxk), c = VF_UNDEF, oa = a, ob = b; RJS_Result r; \
    int al = IN_RANGE(4, 0, 2); RJS_Value *rv = al == 0 ? &c : al == 1 ? &a : &b; \
    r = do_bc_##nm(rt, &a, &b, rv); \
    NCHECK("post", post_bin(op, oa, ob, r, *rv)); REACH(); }
//@unit name=subtract enforce=do_bc_subtract calls=rjs_number_subtract:vf_number_subtract fns=do_bc_subtract,rjs_to_numeric
BINOP(subtract, B_SUB, 11)
//@unit name=multiply enforce=do_bc_multiply calls=rjs_number_multiply:vf_number_multiply fns=do_bc_multiply,rjs_to_numeric
BINOP(multiply, B_MUL, 11)
//@unit name=divide enforce=do_bc_divide calls=rjs_number_divide:vf_number_divide fns=do_bc_divide,rjs_to_numeric
BINOP(divide, B_DIV, 11)
//@unit name=remainder enforce=do_bc_remainder calls=rjs_number_remainder:vf_number_remainder fns=do_bc_remainder,rjs_to_numeric
BINOP(remainder, B_MOD, 11)
//@unit name=exponentiate enforce=do_bc_exponentiate calls=rjs_number_exponentiate:vf_number_exponentiate fns=do_bc_exponentiate,rjs_to_numeric
BINOP(exponentiate, B_POW, 11)

/* + without string operands (string concatenation is C15) */
static int sp_strop(RJS_Value v)
{
    if (vf_tag(v) == RJS_VALUE_TAG_OBJECT) v = vf_prim[v == OVAL(1)];
    return vf_tag(v) == RJS_VALUE_TAG_STRING || vf_tag(v) == RJS_VALUE_TAG_INDEX_STRING;
}
CONTRACT(static inline RJS_Result do_bc_add (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value *rv)
REQ(!vf_thrown && !vf_bop && !vf_lib_f && !sp_strop(*v1) && !sp_strop(*v2)) ASG(*rv, STK)
ENS(post_bin(B_ADD, __CPROVER_old(*v1), __CPROVER_old(*v2), __CPROVER_return_value, *rv));)
//@unit name=add enforce=do_bc_add calls=rjs_number_add:vf_number_add fns=do_bc_add,rjs_to_numeric
void h_add(void) {
    RJS_Runtime *rt = world(); RJS_Value a = in_val(0, 11), b = in_val(2, 11), c = VF_UNDEF, oa = a, ob = b; RJS_Result r;
    int al = IN_RANGE(4, 0, 2); RJS_Value *rv = al == 0 ? &c : al == 1 ? &a : &b;
#ifdef VF_NATIVE
    if (sp_strop(a) || sp_strop(b)) vf_skip();
#endif
    r = do_bc_add(rt, &a, &b, rv);
    NCHECK("post", post_bin(B_ADD, oa, ob, r, *rv)); REACH(); }

/* the Number routines */
#define NUMOP(nm, op) \
CONTRACT(NUMQ(nm) void rjs_number_##nm (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value *rv) \
REQ(!vf_lib_f && vf_is_num(*v1) && vf_is_num(*v2)) ASG(*rv, vf_lib_a, vf_lib_b, vf_lib_f) \
ENS(post_num2(op, vf_num(__CPROVER_old(*v1)), vf_num(__CPROVER_old(*v2)), *rv));) \
void h_n_##nm(void) { \
    RJS_Runtime *rt = world(); RJS_Value a = in_val(0, 0), b = in_val(2, 0), c = VF_UNDEF, oa = a, ob = b; \
    int al = IN_RANGE(4, 0, 2); RJS_Value *rv = al == 0 ? &c : al == 1 ? &a : &b; \
    rjs_number_##nm(rt, &a, &b, rv); \
    NCHECK("post", post_num2(op, vf_num(oa), vf_num(ob), *rv)); REACH(); }
#define NUMQ(nm) static inline
//@unit name=n_remainder enforce=rjs_number_remainder
NUMOP(remainder, B_MOD)
#undef NUMQ
#define NUMQ(nm)
//@unit name=n_exponentiate enforce=rjs_number_exponentiate
NUMOP(exponentiate, B_POW)

static int post_neg(RJS_Value a, RJS_Result r, RJS_Value got)
{
    double x; RJS_Value bx; int s = sp_numeric(a, &x, &bx);
    if (s == S_THROW) return r == RJS_ERR && vf_thrown;
    if (r != RJS_OK || vf_thrown) return 0;
    if (s == S_BIG) return vf_bop == B_NEG && vf_ba == bx && got == BRES;
    return vf_bop == 0 && sp_numis(got, -x);
}
CONTRACT(static inline RJS_Result do_bc_negative (RJS_Runtime *rt, RJS_Value *v, RJS_Value *rv)
REQ(!vf_thrown && !vf_bop) ASG(*rv, STK)
ENS(post_neg(__CPROVER_old(*v), __CPROVER_return_value, *rv));)
//@unit name=negative enforce=do_bc_negative fns=do_bc_negative,rjs_number_unary_minus
void h_negative(void) {
    RJS_Runtime *rt = world(); RJS_Value a = in_val(0, 11), c = VF_UNDEF, oa = a; RJS_Result r;
    RJS_Value *rv = IN_RANGE(4, 0, 1) ? &a : &c;
    r = do_bc_negative(rt, &a, rv);
    NCHECK("post", post_neg(oa, r, *rv)); REACH(); }

static int post_inc(int op, RJS_Value a, RJS_Result r, RJS_Value got)
{
    double d;
    if (r != RJS_OK || vf_thrown) return 0;
    if (vf_tag(a) == RJS_VALUE_TAG_BIG_INT) return vf_bop == op && vf_ba == a && got == BRES;
    d = vf_num(a);
    return vf_bop == 0 && (op == B_INC ? sp_numis(got, d + 1) : sp_numis(got, d - 1));
}
#define INCOP(nm, op) \
CONTRACT(static inline RJS_Result do_bc_##nm (RJS_Runtime *rt, RJS_Value *v, RJS_Value *rv) \
REQ(!vf_thrown && !vf_bop && (vf_is_num(*v) || vf_tag(*v) == RJS_VALUE_TAG_BIG_INT)) ASG(*rv, STK) \
ENS(post_inc(op, __CPROVER_old(*v), __CPROVER_return_value, *rv));) \
void h_##nm(void) { \
    RJS_Runtime *rt = world(); RJS_Value a = in_val(0, 5), c = VF_UNDEF, oa; RJS_Result r; \
    RJS_Value *rv = IN_RANGE(4, 0, 1) ? &a : &c; \
    ASSUME(vf_is_num(a) || vf_tag(a) == RJS_VALUE_TAG_BIG_INT); oa = a; \
    r = do_bc_##nm(rt, &a, rv); \
    NCHECK("post", post_inc(op, oa, r, *rv)); REACH(); }
//@unit name=inc enforce=do_bc_inc fns=do_bc_inc,rjs_number_inc
INCOP(inc, B_INC)
//@unit name=dec enforce=do_bc_dec fns=do_bc_dec,rjs_number_dec
INCOP(dec, B_DEC)

/* ---- Math ---- */
enum { M_ABS, M_CEIL, M_FLOOR, M_TRUNC, M_ROUND, M_SIGN, M_FROUND, M_CLZ };
static double sp_floor(double x)
{
    double t = sp_trunc(x);
    if (!vf_neg(x) || sp_isnan(x) || vf_dbits(t) == vf_dbits(x)) return t;
    if ((vf_dbits(t) << 1) == 0) return -1;
    return t - 1;
}
static double sp_ceil(double x)
{
    double t = sp_trunc(x);
    if (vf_neg(x) || sp_isnan(x) || vf_dbits(t) == vf_dbits(x)) return t;
    if ((vf_dbits(t) << 1) == 0) return 1;
    return t + 1;
}
/* round half up: the largest integer n with n - x <= 1/2, decided on the fraction bits */
static double sp_round(double x)
{
    int e = sp_exp(x), s; uint64_t m, ip, fr, half; double r;
    if (e >= 1075) return x;
    if (e < 1022) return vf_neg(x) ? -0.0 : 0.0;            /* |x| < 1/2 */
    m = sp_man(x) | 0x10000000000000ull; s = 1075 - e;
    ip = m >> s; fr = m & ((1ull << s) - 1); half = 1ull << (s - 1);
    if (vf_neg(x) ? fr > half : fr >= half) ip ++;
    r = (double)ip;
    return vf_neg(x) ? -r : r;
}
static int sp_clz(uint32_t n) { int i, c = 0; for (i = 31; i >= 0 && !((n >> i) & 1); i --) c ++; return c; }
static int post_math1(int op, RJS_Value a, RJS_Result r, RJS_Value got)
{
    double x;
    switch (vf_tag(a)) {
    case RJS_VALUE_TAG_UNDEFINED: x = 0.0 / 0.0; break;
    case RJS_VALUE_TAG_NULL: x = 0; break;
    case RJS_VALUE_TAG_BOOLEAN: x = (a & 1) ? 1 : 0; break;
    case RJS_VALUE_TAG_SYMBOL: case RJS_VALUE_TAG_BIG_INT: return r == RJS_ERR && vf_thrown;
    default: x = vf_num(a);
    }
    if (r != RJS_OK || vf_thrown) return 0;
    if (op == M_CLZ) return vf_is_num(got) && sp_int_is(vf_num(got), sp_clz(sp_uint32(x)));
    if (sp_isnan(x)) return sp_numis(got, x);
    switch (op) {
    case M_ABS: return got == (vf_dbits(x) & 0x7fffffffffffffffull);
    case M_CEIL: return sp_numis(got, sp_ceil(x));
    case M_FLOOR: return sp_numis(got, sp_floor(x));
    case M_TRUNC: return sp_numis(got, sp_trunc(x));
    case M_ROUND: return sp_numis(got, sp_round(x));
    case M_SIGN: return sp_numis(got, (vf_dbits(x) << 1) == 0 ? x : vf_neg(x) ? -1.0 : 1.0);
    default: return sp_numis(got, (double)(float)x);
    }
}
#define MATH1(nm, op) \
CONTRACT(static RJS_Result Math_##nm (RJS_Runtime *rt, RJS_Value *f, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *nt, RJS_Value *rv) \
REQ(!vf_thrown && argc <= 2) ASG(*rv, vf_thrown) \
ENS(post_math1(op, argc ? args[0] : VF_UNDEF, __CPROVER_return_value, *rv));) \
void h_##nm(void) { \
    RJS_Runtime *rt = world(); RJS_Value a[2], c = VF_UNDEF, u = VF_UNDEF; size_t argc = IN_RANGE(4, 0, 2); RJS_Result r; \
    a[0] = in_val(0, 5); a[1] = in_val(2, 5); \
    r = Math_##nm(rt, &u, &u, a, argc, &u, &c); \
    NCHECK("post", post_math1(op, argc ? a[0] : VF_UNDEF, r, c)); REACH(); }
//@unit name=abs enforce=Math_abs
MATH1(abs, M_ABS)
//@unit name=ceil enforce=Math_ceil
MATH1(ceil, M_CEIL)
//@unit name=floor enforce=Math_floor
MATH1(floor, M_FLOOR)
//@unit name=trunc enforce=Math_trunc
MATH1(trunc, M_TRUNC)
//@unit name=round enforce=Math_round
MATH1(round, M_ROUND)
//@unit name=sign enforce=Math_sign
MATH1(sign, M_SIGN)
//@unit name=fround enforce=Math_fround
MATH1(fround, M_FROUND)
//@unit name=clz32 enforce=Math_clz32
MATH1(clz32, M_CLZ)

CONTRACT(static RJS_Result Math_random (RJS_Runtime *rt, RJS_Value *f, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *nt, RJS_Value *rv)
REQ(vf_randv >= 0) ASG(*rv)
ENS(__CPROVER_return_value == RJS_OK && vf_is_num(*rv) && (*rv >> 63) == 0 && *rv < 0x3ff0000000000000ull);)
//@unit name=random enforce=Math_random
void h_random(void) {
    RJS_Runtime *rt = world(); RJS_Value c = VF_UNDEF, u = VF_UNDEF; RJS_Result r;
    vf_randv = (int)IN_RANGE(0, 0, RAND_MAX);
    r = Math_random(rt, &u, &u, &u, 0, &u, &c);
    NCHECK("post", r == RJS_OK && vf_is_num(c) && (c >> 63) == 0 && c < 0x3ff0000000000000ull); REACH(); }

