/* C02: equality, SameValue, truth and ordering of primitives. */
#include "vf.h"
/* calls out of the verified text go to the stubs below, which stand for the
 * callees' contracts */
#define rjs_string_equal      vf_string_equal
#define rjs_string_to_number  vf_string_to_number
#define rjs_string_compare    vf_string_compare
#define rjs_object_to_primitive vf_object_to_primitive
#define rjs_object_to_number  vf_object_to_number
#define rjs_throw_type_error  vf_throw_type_error
#define rjs_big_int_compare   vf_big_int_compare
#define rjs_big_int_same_value vf_big_int_same_value
#define rjs_big_int_compare_number vf_big_int_compare_number
#define rjs_big_int_is_0      vf_big_int_is_0
#define rjs_string_to_big_int vf_string_to_big_int
#include "lib/rjs_number.c"
#include "lib/rjs_bc_call.c"
#include "lib/rjs_operation.c"
#include "vf_rt.h"
#include "vf_spec.h"

//@assume string content equality/ordering, StringToNumber, StringToBigInt, BigInt comparison and ToPrimitive of objects are arbitrary but fixed functions of their operands (stubs); string equality and ordering are proved in units/string.c, BigInt comparison in units/bigint.c
//@default props=C02 unwind=12 calls=VF_BOX

static int vf_thrown;
RJS_Result vf_throw_type_error (RJS_Runtime *rt, const char *fmt, ...)
{ vf_thrown = 1; return RJS_ERR; }

/* two strings, two symbols, two BigInts, two objects */
static RJS_String vf_str[2];
static RJS_Symbol vf_sym[2];
static RJS_Object vf_obj[2];
static uint64_t vf_big[2][8];
static int vf_streq, vf_strcmp, vf_bigcmp, vf_bignum[2], vf_big0[2], vf_strbig, vf_strbigcmp;
static double vf_strnum[2];
static RJS_Value vf_prim[2]; static int vf_primthrow[2]; static int vf_ord;
#define K_STR0 5
static RJS_Value vf_sval[2], vf_yval[2], vf_bval[2], vf_oval[2];
/* index of a boxed operand: which of the two things */
#define IS(v, tab, i) ((v) == (tab)[i])

static RJS_Value rd(RJS_Runtime *rt, RJS_Value *v) { return *rjs_value_get_pointer(rt, v); }
/* string equality: same content or not; vf_streq says whether the two different ones are equal */
static int streq(RJS_Value a, RJS_Value b)
{
    if (a == b) return 1;
    if (vf_tag(a) == RJS_VALUE_TAG_INDEX_STRING && vf_tag(b) == RJS_VALUE_TAG_INDEX_STRING) return 0;
    return vf_streq;
}
static int sp_streq(RJS_Value a, RJS_Value b)
{
    if (a == b) return 1;
    if (vf_tag(a) == RJS_VALUE_TAG_INDEX_STRING && vf_tag(b) == RJS_VALUE_TAG_INDEX_STRING) return 0;
    return vf_streq;
}
RJS_Bool vf_string_equal (RJS_Runtime *rt, RJS_Value *s1, RJS_Value *s2)
{ return streq(rd(rt, s1), rd(rt, s2)); }
RJS_CompareResult vf_string_compare (RJS_Runtime *rt, RJS_Value *s1, RJS_Value *s2)
{
    RJS_Value a = rd(rt, s1), b = rd(rt, s2);
    if (streq(a, b)) return RJS_COMPARE_EQUAL;
    return ((a < b) == vf_strcmp) ? RJS_COMPARE_LESS : RJS_COMPARE_GREATER;
}
RJS_Number vf_string_to_number (RJS_Runtime *rt, RJS_Value *s)
{ return vf_strnum[rd(rt, s) == vf_sval[1]]; }
/* BigInts: bval[0] vs bval[1] compares as vf_bigcmp (-1 0 1); against a Number as vf_bignum */
static RJS_CompareResult cmpres(int c)
{ return c < 0 ? RJS_COMPARE_LESS : c > 0 ? RJS_COMPARE_GREATER : RJS_COMPARE_EQUAL; }
static int bigcmp(RJS_Value a, RJS_Value b)
{
    if (a == b) return 0;
    if (a == vf_bval[0] && b == vf_bval[1]) return vf_bigcmp;
    if (a == vf_bval[1] && b == vf_bval[0]) return -vf_bigcmp;
    return (b & 0xff) == 0x40 ? vf_strbigcmp : -vf_strbigcmp;       /* 0x40: the result of StringToBigInt */
}
RJS_Result vf_big_int_compare (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
{ return cmpres(bigcmp(rd(rt, v1), rd(rt, v2))); }
RJS_Bool vf_big_int_same_value (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
{ return bigcmp(rd(rt, v1), rd(rt, v2)) == 0; }
RJS_Bool vf_big_int_is_0 (RJS_Runtime *rt, RJS_Value *v)
{ return vf_big0[rd(rt, v) == vf_bval[1]]; }
RJS_Result vf_big_int_compare_number (RJS_Runtime *rt, RJS_Value *v, RJS_Number n)
{ if (n != n) return RJS_COMPARE_UNDEFINED; return cmpres(vf_bignum[rd(rt, v) == vf_bval[1]]); }
RJS_Result vf_string_to_big_int (RJS_Runtime *rt, RJS_Value *v, RJS_Value *bi)
{
    RJS_Value *p = rjs_value_get_pointer(rt, bi);
    *p = vf_strbig ? (((RJS_Value)RJS_VALUE_TAG_BIG_INT) << 48) | 0x40 : VF_UNDEF;
    return RJS_OK;
}
RJS_Result vf_object_to_primitive (RJS_Runtime *rt, RJS_Value *v, RJS_Value *prim, RJS_ValueType type)
{
    int i = rd(rt, v) == vf_oval[1];
    if (vf_primthrow[i]) { vf_thrown = 1; return RJS_ERR; }
    *rjs_value_get_pointer(rt, prim) = vf_prim[i];
    return RJS_OK;
}
RJS_Result vf_object_to_number (RJS_Runtime *rt, RJS_Value *v, RJS_Number *pn)
{ CHECK("objects are converted before ToNumber", 0); return RJS_ERR; }

/* kinds: 0 number 1 undefined 2 null 3 boolean 4 index string 5,6 strings 7,8 symbols 9,10 objects 11,12 BigInts */
static RJS_Value in_val(int slot, int maxkind)
{
    int k = IN_RANGE(slot, 0, maxkind);
    uint64_t x = IN64(slot + 1);
    switch (k) {
    case 1: return VF_UNDEF;
    case 2: return VF_NULL;
    case 3: return (((RJS_Value)RJS_VALUE_TAG_BOOLEAN) << 48) | (x & 1);
    case 4: return (((RJS_Value)RJS_VALUE_TAG_INDEX_STRING) << 48) | (x & 0xffffffff);
    case 5: case 6: return vf_sval[k - 5];
    case 7: case 8: return vf_yval[k - 7];
    case 9: case 10: return vf_oval[k - 9];
    case 11: case 12: return vf_bval[k - 11];
    default: {
        RJS_Value v = vf_numv(vf_bdbl(x));
        ASSUME(vf_is_num(v));
        return v; }
    }
}
static RJS_Runtime *world(void)
{
    RJS_Runtime *rt = vf_rt();
    int i;
    for (i = 0; i < 2; i ++) {
        vf_sval[i] = vf_box(RJS_VALUE_TAG_STRING, &vf_str[i]);
        vf_yval[i] = vf_box(RJS_VALUE_TAG_SYMBOL, &vf_sym[i]);
        vf_oval[i] = vf_box(RJS_VALUE_TAG_OBJECT, &vf_obj[i]);
    }
    for (i = 0; i < 2; i ++)
        vf_bval[i] = (((RJS_Value)RJS_VALUE_TAG_BIG_INT) << 48) | (0x20 + 8 * i);
    for (i = 0; i < 2; i ++) {
        vf_str[i].length = IN_RANGE(20 + i, 0, 2);
        vf_strnum[i] = IN_DBL(22 + i); ASSUME(vf_is_num(vf_numv(vf_strnum[i])));
        vf_prim[i] = in_val(24 + 2 * i, 8);
        vf_primthrow[i] = IN_RANGE(28 + i, 0, 1);
        vf_big0[i] = IN_RANGE(34 + i, 0, 1);
        vf_bignum[i] = (int)IN_RANGE(36 + i, 0, 2) - 1;
    }
    vf_streq = IN_RANGE(30, 0, 1); vf_strcmp = IN_RANGE(31, 0, 1); vf_bigcmp = (int)IN_RANGE(32, 0, 2) - 1;
    vf_strbig = IN_RANGE(33, 0, 1); vf_strbigcmp = (int)IN_RANGE(38, 0, 2) - 1;
    vf_thrown = 0;
    return rt;
}

/* ---- specification ---- */
enum { T_NUM, T_UNDEF, T_NULL, T_BOOL, T_STR, T_SYM, T_OBJ, T_BIG };
static int sp_type(RJS_Value v)
{
    switch (vf_tag(v)) {
    case RJS_VALUE_TAG_UNDEFINED: return T_UNDEF;
    case RJS_VALUE_TAG_NULL: return T_NULL;
    case RJS_VALUE_TAG_BOOLEAN: return T_BOOL;
    case RJS_VALUE_TAG_STRING: case RJS_VALUE_TAG_INDEX_STRING: return T_STR;
    case RJS_VALUE_TAG_SYMBOL: return T_SYM;
    case RJS_VALUE_TAG_OBJECT: return T_OBJ;
    case RJS_VALUE_TAG_BIG_INT: return T_BIG;
    default: return T_NUM;
    }
}
static int sp_bigcmp(RJS_Value a, RJS_Value b)
{
    if (a == b) return 0;
    if ((b & 0xff) == 0x40) return vf_strbigcmp;
    if ((a & 0xff) == 0x40) return -vf_strbigcmp;
    if (a == vf_bval[0]) return vf_bigcmp;
    return -vf_bigcmp;
}
enum { E_STRICT, E_SAME, E_SAME0 };
static int sp_equal(int mode, RJS_Value a, RJS_Value b)
{
    int t = sp_type(a);
    if (t != sp_type(b)) return 0;
    switch (t) {
    case T_UNDEF: case T_NULL: return 1;
    case T_STR: return sp_streq(a, b);
    case T_BIG: return sp_bigcmp(a, b) == 0;
    case T_NUM: {
        double x = vf_num(a), y = vf_num(b);
        if (sp_isnan(x) || sp_isnan(y)) return mode == E_STRICT ? 0 : sp_isnan(x) && sp_isnan(y);
        if (mode == E_SAME) return a == b;
        return sp_eq(x, y); }
    default: return a == b;
    }
}
static double sp_pnum(RJS_Value v)         /* ToNumber of boolean / string / number / null / undefined */
{
    switch (sp_type(v)) {
    case T_BOOL: return (v & 1) ? 1 : 0;
    case T_NULL: return 0;
    case T_UNDEF: return 0.0 / 0.0;
    case T_STR: return vf_tag(v) == RJS_VALUE_TAG_INDEX_STRING ? (double)(uint32_t)v : vf_strnum[v == vf_sval[1]];
    default: return vf_num(v);
    }
}
#define NUMLIKE(t) ((t) == T_NUM || (t) == T_BOOL || (t) == T_STR)
static int sp_ploose(RJS_Value a, RJS_Value b)  /* primitives */
{
    int t = sp_type(a), u = sp_type(b);
    if (t == u) return sp_equal(E_STRICT, a, b);
    if ((t == T_UNDEF || t == T_NULL) && (u == T_UNDEF || u == T_NULL)) return 1;
    if (NUMLIKE(t) && NUMLIKE(u)) return sp_eq(sp_pnum(a), sp_pnum(b));
    if (t == T_BIG || u == T_BIG) {
        RJS_Value big = t == T_BIG ? a : b, o = t == T_BIG ? b : a; int w = t == T_BIG ? u : t;
        if (w == T_STR) return vf_strbig && vf_strbigcmp == 0;
        if (w == T_NUM || w == T_BOOL) return !sp_isnan(sp_pnum(o)) && vf_bignum[big == vf_bval[1]] == 0;
    }
    return 0;
}
static int post_loose(RJS_Value a, RJS_Value b, RJS_Result r)
{
    int t = sp_type(a), u = sp_type(b), i;
    if ((t == T_OBJ) != (u == T_OBJ)) {
        RJS_Value o = t == T_OBJ ? a : b, p = t == T_OBJ ? b : a;
        int pt = sp_type(p);
        i = o == vf_oval[1];
        if (pt == T_UNDEF || pt == T_NULL) return r == 0 && !vf_thrown;
        if (vf_primthrow[i]) return r == RJS_ERR && vf_thrown;
        if (pt == T_BOOL) p = (p & 1) ? 0x3ff0000000000000ull : 0;
        return !vf_thrown && r == (sp_ploose(vf_prim[i], p) ? 1 : 0);
    }
    return !vf_thrown && r == (t == T_OBJ ? a == b : sp_ploose(a, b)) ;
}

#define EQ(nm, fn, mode) \
CONTRACT(static inline RJS_Bool fn (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2) ASG() \
ENS(__CPROVER_return_value == sp_equal(mode, __CPROVER_old(*v1), __CPROVER_old(*v2)));) \
void h_##nm(void) { RJS_Runtime *rt = world(); RJS_Value a = in_val(0, 12), b = in_val(2, 12); int r; \
    r = fn(rt, &a, &b); \
    NCHECK("post", r == sp_equal(mode, a, b)); REACH(); }
//@unit name=same_value enforce=rjs_same_value fns=rjs_same_value,rjs_number_same_value,rjs_same_value_non_numeric
EQ(same_value, rjs_same_value, E_SAME)
//@unit name=same_value_0 enforce=rjs_same_value_0 fns=rjs_same_value_0,rjs_number_same_value_0,rjs_same_value_non_numeric
EQ(same_value_0, rjs_same_value_0, E_SAME0)
#define static
#define inline
//@unit name=strictly_equal enforce=rjs_is_strictly_equal fns=rjs_is_strictly_equal,rjs_number_compare,rjs_same_value_non_numeric
EQ(strictly_equal, rjs_is_strictly_equal, E_STRICT)
#undef static
#undef inline

static int sp_truth(RJS_Value v)
{
    switch (sp_type(v)) {
    case T_UNDEF: case T_NULL: return 0;
    case T_BOOL: return v & 1;
    case T_NUM: return !sp_isnan(vf_num(v)) && (v << 1) != 0;
    case T_STR: return vf_tag(v) == RJS_VALUE_TAG_INDEX_STRING || vf_str[v == vf_sval[1]].length != 0;
    case T_BIG: return !vf_big0[v == vf_bval[1]];
    default: return 1;
    }
}
CONTRACT(static inline RJS_Bool rjs_to_boolean (RJS_Runtime *rt, RJS_Value *v) ASG()
ENS(__CPROVER_return_value == sp_truth(__CPROVER_old(*v)));)
//@unit name=to_boolean enforce=rjs_to_boolean
void h_to_boolean(void) { RJS_Runtime *rt = world(); RJS_Value a = in_val(0, 12); int r;
    r = rjs_to_boolean(rt, &a);
    NCHECK("post", r == sp_truth(a)); REACH(); }

/* ---- == : recursive calls on the converted operands are checked against the contract itself ---- */
/* a value reference: a pointer, or an odd number denoting a slot of the native stack */
#define VF_RD(v) (((uintptr_t)(v) & 1) ? vf_stack_s[(uintptr_t)(v) >> 1] : *(v))
CONTRACT(RJS_Result rjs_is_loosely_equal (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
REQ(!vf_thrown && vf_ns_s.value.item_num <= VF_STACK - 4) ASG(vf_thrown, vf_ns_s.value.item_num, __CPROVER_object_from(&vf_stack_s[vf_ns_s.value.item_num]))
ENS(post_loose(VF_RD(v1), VF_RD(v2), __CPROVER_return_value))
ENS(vf_ns_s.value.item_num == __CPROVER_old(vf_ns_s.value.item_num));)
//@unit name=loosely_equal flags="--object-bits 10" enforce=rjs_is_loosely_equal rec=1 fns=rjs_is_loosely_equal,rjs_is_strictly_equal,rjs_to_number,rjs_to_primitive
void h_loosely_equal(void) { RJS_Runtime *rt = world(); RJS_Value a = in_val(0, 12), b = in_val(2, 12), oa = a, ob = b;
    RJS_Result r; size_t top = rjs_value_stack_save(rt);
    r = rjs_is_loosely_equal(rt, &a, &b);
    NCHECK("loose equality is the language's", post_loose(oa, ob, r));
    NCHECK("operands unchanged, stack balanced", a == oa && b == ob && rjs_value_stack_save(rt) == top); REACH(); }

/* ---- the operators, as the interpreter runs them (the real bc_* macros) ---- */
#define OPER(nm) \
static RJS_Result vf_##nm (RJS_Runtime *rt, RJS_Value *operand1, RJS_Value *operand2, RJS_Value *result) \
{ RJS_Result r; bc_##nm(operand1, operand2, result) return RJS_OK; error: return RJS_ERR; }
OPER(lt) OPER(le) OPER(gt) OPER(ge) OPER(eq) OPER(ne) OPER(strict_eq) OPER(strict_ne)
static RJS_Result vf_not (RJS_Runtime *rt, RJS_Value *operand, RJS_Value *result)
{ bc_not(operand, result) return RJS_OK; }
static int sp_lt(double a, double b) { return !sp_isnan(a) && !sp_isnan(b) && sp_less(a, b); }
/* relational comparison of a, b: 0 undefined, 1 less, 2 equal, 3 greater, 4 throws */
static int sp_rel(RJS_Value a, RJS_Value b)
{
    int t, u, c;
    if (sp_type(a) == T_OBJ) { if (vf_primthrow[a == vf_oval[1]]) return 4; a = vf_prim[a == vf_oval[1]]; }
    if (sp_type(b) == T_OBJ) { if (vf_primthrow[b == vf_oval[1]]) return 4; b = vf_prim[b == vf_oval[1]]; }
    t = sp_type(a); u = sp_type(b);
    if (t == T_STR && u == T_STR) return sp_streq(a, b) ? 2 : ((a < b) == vf_strcmp) ? 1 : 3;
    if ((t == T_BIG && u == T_STR) || (t == T_STR && u == T_BIG)) {
        if (!vf_strbig) return 0;
        c = -vf_strbigcmp;
        if (t == T_BIG) c = vf_strbigcmp;
        return c < 0 ? 1 : c > 0 ? 3 : 2;
    }
    if (t == T_SYM || u == T_SYM) return 4;
    if (t == T_BIG && u == T_BIG) { c = sp_bigcmp(a, b); return c < 0 ? 1 : c > 0 ? 3 : 2; }
    if (t == T_BIG || u == T_BIG) {
        if (sp_isnan(sp_pnum(t == T_BIG ? b : a))) return 0;
        c = t == T_BIG ? vf_bignum[a == vf_bval[1]] : -vf_bignum[b == vf_bval[1]];
        return c < 0 ? 1 : c > 0 ? 3 : 2;
    }
    { double x = sp_pnum(a), y = sp_pnum(b);
      if (sp_isnan(x) || sp_isnan(y)) return 0;
      return sp_less(x, y) ? 1 : sp_eq(x, y) ? 2 : 3; }
}
static int post_rel(int mask, RJS_Value a, RJS_Value b, RJS_Result r, RJS_Value got)
{
    int c = sp_rel(a, b);
    if (c == 4) return r == RJS_ERR && vf_thrown;
    return r == RJS_OK && !vf_thrown && got == ((((RJS_Value)RJS_VALUE_TAG_BOOLEAN) << 48) | ((mask >> c) & 1));
}
#define STK __CPROVER_object_whole(vf_stack_s), vf_ns_s.value.item_num, vf_thrown
#define REL(nm, mask) \
CONTRACT(static RJS_Result vf_##nm (RJS_Runtime *rt, RJS_Value *operand1, RJS_Value *operand2, RJS_Value *result) \
REQ(!vf_thrown) ASG(*result, STK) \
ENS(post_rel(mask, __CPROVER_old(*operand1), __CPROVER_old(*operand2), __CPROVER_return_value, *result));) \
void h_##nm(void) { RJS_Runtime *rt = world(); RJS_Value a = in_val(0, 12), b = in_val(2, 12), c = VF_UNDEF, oa = a, ob = b; RJS_Result r; \
    r = vf_##nm(rt, &a, &b, &c); \
    NCHECK("post", post_rel(mask, oa, ob, r, c)); REACH(); }
//@unit name=lt enforce=vf_lt fns=do_bc_compare,bc_lt,rjs_number_compare,rjs_to_numeric
REL(lt, 2)
//@unit name=le enforce=vf_le fns=do_bc_compare,bc_le
REL(le, 6)
//@unit name=gt enforce=vf_gt fns=do_bc_compare,bc_gt
REL(gt, 8)
//@unit name=ge enforce=vf_ge fns=do_bc_compare,bc_ge
REL(ge, 12)

static int post_eqop(int neg, int strict, RJS_Value a, RJS_Value b, RJS_Result r, RJS_Value got)
{
    int g = vf_tag(got) == RJS_VALUE_TAG_BOOLEAN ? (int)(got & 1) : 7;
    if (r == RJS_OK && g == 7) return 0;
    if (neg && r == RJS_OK) g = !g;
    if (strict) return r == RJS_OK && g == sp_equal(E_STRICT, a, b);
    return post_loose(a, b, r == RJS_ERR ? RJS_ERR : g);
}
#define EQOP(nm, neg, strict) \
CONTRACT(static RJS_Result vf_##nm (RJS_Runtime *rt, RJS_Value *operand1, RJS_Value *operand2, RJS_Value *result) \
REQ(!vf_thrown && vf_ns_s.value.item_num <= VF_STACK - 4) ASG(*result, STK) \
ENS(post_eqop(neg, strict, __CPROVER_old(*operand1), __CPROVER_old(*operand2), __CPROVER_return_value, *result));) \
void h_##nm(void) { RJS_Runtime *rt = world(); RJS_Value a = in_val(0, 12), b = in_val(2, 12), c = VF_UNDEF, oa = a, ob = b; RJS_Result r; \
    r = vf_##nm(rt, &a, &b, &c); \
    NCHECK("operator result", post_eqop(neg, strict, oa, ob, r, c)); REACH(); }
//@unit name=eq enforce=vf_eq replace=rjs_is_loosely_equal fns=bc_eq
EQOP(eq, 0, 0)
//@unit name=ne enforce=vf_ne replace=rjs_is_loosely_equal fns=bc_ne
EQOP(ne, 1, 0)
//@unit name=strict_eq enforce=vf_strict_eq fns=bc_strict_eq,rjs_is_strictly_equal
EQOP(strict_eq, 0, 1)
//@unit name=strict_ne enforce=vf_strict_ne fns=bc_strict_ne,rjs_is_strictly_equal
EQOP(strict_ne, 1, 1)
CONTRACT(static RJS_Result vf_not (RJS_Runtime *rt, RJS_Value *operand, RJS_Value *result) ASG(*result)
ENS(__CPROVER_return_value == RJS_OK && *result == ((((RJS_Value)RJS_VALUE_TAG_BOOLEAN) << 48) | !sp_truth(__CPROVER_old(*operand))));)
//@unit name=not enforce=vf_not fns=bc_not,rjs_to_boolean
void h_not(void) { RJS_Runtime *rt = world(); RJS_Value a = in_val(0, 12), c = VF_UNDEF;
    vf_not(rt, &a, &c);
    NCHECK("post", c == ((((RJS_Value)RJS_VALUE_TAG_BOOLEAN) << 48) | !sp_truth(a))); REACH(); }
