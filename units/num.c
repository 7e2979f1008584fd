/* C01: Number -> integer conversions and the bitwise operators. */
#include "vf.h"
#include "lib/rjs_number.c"
#include "lib/rjs_bc_call.c"
#include "lib/rjs_math_object_inc.c"
#include "vf_rt.h"
#include "vf_spec.h"

//@assume primitive operands of type undefined, null, boolean, Number, Symbol and BigInt are quantified over; string and object operands reach the same code after ToPrimitive/StringToNumber, which are outside these units
//@trust rjs_throw_type_error is a stub that records the throw and returns RJS_ERR
//@default props=C01 unwind=70

static int vf_thrown;
RJS_Result rjs_throw_type_error (RJS_Runtime *rt, const char *fmt, ...)
{ vf_thrown = 1; return RJS_ERR; }

/* a primitive value; kinds: 0 number 1 undefined 2 null 3 boolean 4 symbol 5 bigint */
static RJS_Value in_prim(int slot, int maxkind)
{
    switch (IN_RANGE(slot, 0, maxkind)) {
    case 1: return VF_UNDEF;
    case 2: return VF_NULL;
    case 3: return (((RJS_Value)RJS_VALUE_TAG_BOOLEAN) << 48) | IN_RANGE(slot + 1, 0, 1);
    case 4: return (((RJS_Value)RJS_VALUE_TAG_SYMBOL) << 48) | 0x1000;
    case 5: return (((RJS_Value)RJS_VALUE_TAG_BIG_INT) << 48) | 0x2000;
    default: {
        RJS_Value v = vf_numv(IN_DBL(slot + 1));
        ASSUME(vf_is_num(v));
        return v; }
    }
}
static int sp_throws(RJS_Value v) { int t = vf_tag(v); return t == RJS_VALUE_TAG_SYMBOL || t == RJS_VALUE_TAG_BIG_INT; }
static double sp_tonumber(RJS_Value v)
{
    switch (vf_tag(v)) {
    case RJS_VALUE_TAG_UNDEFINED: return vf_bdbl(0x7ff8000000000000ull);
    case RJS_VALUE_TAG_NULL: return 0;
    case RJS_VALUE_TAG_BOOLEAN: return (v & 1) ? 1 : 0;
    default: return vf_num(v);
    }
}

/* ---- ToInt8 .. ToUint32, ToUint8Clamp ---- */
static int post_int(RJS_Value v, RJS_Result r, int64_t got, int64_t old, int bits, int sgn)
{
    if (sp_throws(v)) return r == RJS_ERR && vf_thrown && got == old;
    uint64_t m = sp_trunc_mod64(sp_tonumber(v));
    int64_t e;
    switch (bits) {
    case 8:  e = sgn ? (int64_t)(int8_t)m : (int64_t)(uint8_t)m; break;
    case 16: e = sgn ? (int64_t)(int16_t)m : (int64_t)(uint16_t)m; break;
    default: e = sgn ? (int64_t)(int32_t)m : (int64_t)(uint32_t)m; break;
    }
    return r == RJS_OK && !vf_thrown && got == e;
}
#define TOINT(nm, T, bits, sgn) \
CONTRACT(static inline RJS_Result rjs_to_##nm (RJS_Runtime *rt, RJS_Value *v, T *pi) \
REQ(!vf_thrown) ASG(*pi, vf_thrown) \
ENS(post_int(__CPROVER_old(*v), __CPROVER_return_value, *pi, __CPROVER_old(*pi), bits, sgn));) \
void h_to_##nm(void) { \
    RJS_Runtime *rt = vf_rt(); RJS_Value v = in_prim(0, 5), ov = v; T i = IN64(5), oi = i; RJS_Result r; \
    vf_thrown = 0; \
    r = rjs_to_##nm(rt, &v, &i); \
    NCHECK("post", post_int(ov, r, i, oi, bits, sgn) && v == ov); REACH(); }
//@unit name=to_int8 enforce=rjs_to_int8
TOINT(int8, int8_t, 8, 1)
//@unit name=to_uint8 enforce=rjs_to_uint8
TOINT(uint8, uint8_t, 8, 0)
//@unit name=to_int16 enforce=rjs_to_int16
TOINT(int16, int16_t, 16, 1)
//@unit name=to_uint16 enforce=rjs_to_uint16
TOINT(uint16, uint16_t, 16, 0)
//@unit name=to_int32 enforce=rjs_to_int32
TOINT(int32, int32_t, 32, 1)
//@unit name=to_uint32 enforce=rjs_to_uint32
TOINT(uint32, uint32_t, 32, 0)

static int post_clamp(RJS_Value v, RJS_Result r, uint8_t got, uint8_t old)
{
    if (sp_throws(v)) return r == RJS_ERR && got == old;
    double d = sp_tonumber(v);
    if (r != RJS_OK) return 0;
    if (sp_isnan(d) || !sp_less(0, d)) return got == 0;
    if (!sp_less(d, 255)) return got == 255;
    /* nearest, ties to even: 2*frac compared with 1 in integers */
    int e = sp_exp(d);
    if (e < 1021) return got == 0;                       /* d < 0.25 */
    uint64_t m = sp_man(d) | 0x10000000000000ull;        /* d = m * 2^(e-1075), e in 1021..1030 */
    int s = 1075 - e;
    uint64_t ip = m >> s, fr = m & ((1ull << s) - 1), half = 1ull << (s - 1);
    if (fr > half || (fr == half && (ip & 1))) ip ++;
    return got == ip;
}
CONTRACT(static inline RJS_Result rjs_to_uint8_clamp (RJS_Runtime *rt, RJS_Value *v, uint8_t *pi)
REQ(!vf_thrown) ASG(*pi, vf_thrown)
ENS(post_clamp(__CPROVER_old(*v), __CPROVER_return_value, *pi, __CPROVER_old(*pi)));)
//@unit name=to_uint8_clamp enforce=rjs_to_uint8_clamp
void h_to_uint8_clamp(void) {
    RJS_Runtime *rt = vf_rt(); RJS_Value v = in_prim(0, 5); uint8_t i = IN64(5), oi = i; RJS_Result r;
    vf_thrown = 0;
    r = rjs_to_uint8_clamp(rt, &v, &i);
    NCHECK("post", post_clamp(v, r, i, oi)); REACH(); }

static int post_intinf(RJS_Value v, RJS_Result r, double got)
{
    if (sp_throws(v)) return r == RJS_ERR;
    double d = sp_tonumber(v), t;
    if (r != RJS_OK) return 0;
    if (sp_isnan(d)) return vf_same(got, 0.0);
    t = sp_trunc(d);
    return sp_eq(got, t) && ((vf_dbits(got) << 1) != 0 || !vf_neg(got));
}
CONTRACT(static inline RJS_Result rjs_to_integer_or_infinity (RJS_Runtime *rt, RJS_Value *v, RJS_Number *pn)
REQ(!vf_thrown) ASG(*pn, vf_thrown)
ENS(post_intinf(__CPROVER_old(*v), __CPROVER_return_value, *pn));)
//@unit name=to_integer_or_infinity enforce=rjs_to_integer_or_infinity
void h_to_integer_or_infinity(void) {
    RJS_Runtime *rt = vf_rt(); RJS_Value v = in_prim(0, 5); RJS_Number n; RJS_Result r;
    vf_thrown = 0;
    r = rjs_to_integer_or_infinity(rt, &v, &n);
    NCHECK("post", post_intinf(v, r, n)); REACH(); }

static int post_length(RJS_Value v, RJS_Result r, int64_t got)
{
    if (sp_throws(v)) return r == RJS_ERR;
    double d = sp_tonumber(v);
    if (r != RJS_OK) return 0;
    if (sp_isnan(d) || !sp_less(0, d)) return got == 0;
    if (!sp_less(d, 9007199254740991.0)) return got == 9007199254740991ll;
    return got == (int64_t)sp_trunc_mod64(d);
}
CONTRACT(static inline RJS_Result rjs_to_length (RJS_Runtime *rt, RJS_Value *v, int64_t *pl)
REQ(!vf_thrown) ASG(*pl, vf_thrown)
ENS(post_length(__CPROVER_old(*v), __CPROVER_return_value, *pl));)
//@unit name=to_length enforce=rjs_to_length
void h_to_length(void) {
    RJS_Runtime *rt = vf_rt(); RJS_Value v = in_prim(0, 5); int64_t n; RJS_Result r;
    vf_thrown = 0;
    r = rjs_to_length(rt, &v, &n);
    NCHECK("post", post_length(v, r, n)); REACH(); }

/* ---- bitwise operators on the interpreter's entry points ---- */
enum { OP_AND, OP_OR, OP_XOR, OP_SHL, OP_SHR, OP_USHR };
static int post_bin(int op, RJS_Value a, RJS_Value b, RJS_Value got, RJS_Result r)
{
    uint32_t x, y; int64_t e;
    if (sp_throws(a) || sp_throws(b)) return r == RJS_ERR && vf_thrown;
    x = sp_uint32(sp_tonumber(a)); y = sp_uint32(sp_tonumber(b));
    switch (op) {
    case OP_AND: e = (int32_t)(x & y); break;
    case OP_OR:  e = (int32_t)(x | y); break;
    case OP_XOR: e = (int32_t)(x ^ y); break;
    case OP_SHL: e = (int32_t)(x << (y & 31)); break;
    case OP_SHR: e = (int32_t)((x >> (y & 31)) | (((x >> 31) && (y & 31)) ? ~(0xffffffffu >> (y & 31)) : 0)); break;
    default:     e = (x >> (y & 31)); break;
    }
    return r == RJS_OK && !vf_thrown && vf_is_num(got) && sp_int_is(vf_num(got), e);
}
#ifndef VF_NATIVE
#define STK , __CPROVER_object_whole(vf_stack_s), vf_ns_s.value.item_num
#endif
#define BINOP(nm, op) \
CONTRACT(static inline RJS_Result do_bc_##nm (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value *rv) \
REQ(!vf_thrown) ASG(*rv, vf_thrown STK) \
ENS(post_bin(op, __CPROVER_old(*v1), __CPROVER_old(*v2), *rv, __CPROVER_return_value));) \
void h_##nm(void) { \
    RJS_Runtime *rt = vf_rt(); RJS_Value a = in_prim(0, 4), b = in_prim(3, 4), c = VF_UNDEF, oa = a, ob = b; RJS_Result r; \
    int al = IN_RANGE(8, 0, 2); RJS_Value *rv = al == 0 ? &c : al == 1 ? &a : &b; \
    vf_thrown = 0; \
    r = do_bc_##nm(rt, &a, &b, rv); \
    NCHECK("post", post_bin(op, oa, ob, *rv, r)); REACH(); }
//@unit name=bitwise_and enforce=do_bc_bitwise_and fns=do_bc_bitwise_and,rjs_number_bitwise_and
BINOP(bitwise_and, OP_AND)
//@unit name=bitwise_or enforce=do_bc_bitwise_or fns=do_bc_bitwise_or,rjs_number_bitwise_or
BINOP(bitwise_or, OP_OR)
//@unit name=bitwise_xor enforce=do_bc_bitwise_xor fns=do_bc_bitwise_xor,rjs_number_bitwise_xor
BINOP(bitwise_xor, OP_XOR)
//@unit name=left_shift enforce=do_bc_left_shift fns=do_bc_left_shift,rjs_number_left_shift
BINOP(left_shift, OP_SHL)
//@unit name=signed_right_shift enforce=do_bc_signed_right_shift fns=do_bc_signed_right_shift,rjs_number_signed_right_shift
BINOP(signed_right_shift, OP_SHR)
//@unit name=unsigned_right_shift enforce=do_bc_unsigned_right_shift fns=do_bc_unsigned_right_shift,rjs_number_unsigned_right_shift
BINOP(unsigned_right_shift, OP_USHR)

static int post_not(RJS_Value a, RJS_Value got, RJS_Result r)
{
    if (sp_throws(a)) return r == RJS_ERR && vf_thrown;
    return r == RJS_OK && vf_is_num(got) && sp_int_is(vf_num(got), (int32_t)~sp_uint32(sp_tonumber(a)));
}
CONTRACT(static inline RJS_Result do_bc_reverse (RJS_Runtime *rt, RJS_Value *v, RJS_Value *rv)
REQ(!vf_thrown) ASG(*rv, vf_thrown STK)
ENS(post_not(__CPROVER_old(*v), *rv, __CPROVER_return_value));)
//@unit name=bitwise_not enforce=do_bc_reverse fns=do_bc_reverse,rjs_number_bitwise_not
void h_bitwise_not(void) {
    RJS_Runtime *rt = vf_rt(); RJS_Value a = in_prim(0, 4), c = VF_UNDEF, oa = a; RJS_Result r;
    RJS_Value *rv = IN_RANGE(8, 0, 1) ? &a : &c;
    vf_thrown = 0;
    r = do_bc_reverse(rt, &a, rv);
    NCHECK("post", post_not(oa, *rv, r)); REACH(); }
