/* C04: value boxing (NaN boxing) round trips; kinds are never confused. */
#include "vf.h"
#include "ratjs_internal.h"
#include "vf_rt.h"

//@assume heap addresses are canonical 48-bit addresses (bit 47 sign-extended), as on x86-64 Linux
//@default props=C04 unwind=10
/* contracts read and frame a value reference that is a pointer or a stack reference */
#define ODD(v) ((uintptr_t)(v) & 1)
#define SLOT(v) vf_stack_s[(uintptr_t)(v) >> 1]
#define RDV(v) (ODD(v) ? SLOT(v) : *(v))
#define TARGET(v) ASG(!ODD(v): *(v); ODD(v): SLOT(v))
static RJS_Value s_val; 
static RJS_Value *in_ref(RJS_Runtime *rt, int slot)
{
    RJS_Value *p;
#ifndef VF_NATIVE
    RJS_Value *b = rjs_stack_pointer_to_value(2);
    vf_ns_s.value.item_num = 3;
#else
    RJS_Value *a = rjs_value_stack_push(rt), *b = rjs_value_stack_push(rt);
    (void)a;
#endif
    s_val = IN64(slot + 1);
    p = IN_RANGE(slot, 0, 1) ? b : &s_val;
    *rjs_value_get_pointer(rt, p) = s_val;
    return p;
}
static RJS_Value rdh(RJS_Runtime *rt, RJS_Value *v) { return *rjs_value_get_pointer(rt, v); }
#define TAGV(t) (((RJS_Value)(t)) << 48)

#define SET0(nm, want) \
CONTRACT(static inline void rjs_value_##nm (RJS_Runtime *rt, RJS_Value *v) TARGET(v) ENS(RDV(v) == (want));) \
void h_##nm(void) { RJS_Runtime *rt = vf_rt(); RJS_Value *v = in_ref(rt, 0); rjs_value_##nm(rt, v); \
    NCHECK("post", rdh(rt, v) == (want)); REACH(); }
//@unit name=set_undefined enforce=rjs_value_set_undefined
SET0(set_undefined, TAGV(0x7ff9))
//@unit name=set_null enforce=rjs_value_set_null
SET0(set_null, TAGV(0x7ffa))

CONTRACT(static inline void rjs_value_set_boolean (RJS_Runtime *rt, RJS_Value *v, RJS_Bool b) TARGET(v)
ENS(RDV(v) == (TAGV(RJS_VALUE_TAG_BOOLEAN) | (b ? 1 : 0)));)
//@unit name=set_boolean enforce=rjs_value_set_boolean
void h_set_boolean(void) { RJS_Runtime *rt = vf_rt(); RJS_Value *v = in_ref(rt, 0); RJS_Bool b = (RJS_Bool)IN64(2);
    rjs_value_set_boolean(rt, v, b);
    NCHECK("post", rdh(rt, v) == (TAGV(RJS_VALUE_TAG_BOOLEAN) | (b ? 1 : 0))); REACH(); }
CONTRACT(static inline void rjs_value_set_number (RJS_Runtime *rt, RJS_Value *v, RJS_Number n) TARGET(v)
ENS(RDV(v) == vf_dbits(n));)
//@unit name=set_number enforce=rjs_value_set_number
void h_set_number(void) { RJS_Runtime *rt = vf_rt(); RJS_Value *v = in_ref(rt, 0); RJS_Number n = IN_DBL(2);
    rjs_value_set_number(rt, v, n);
    NCHECK("post", rdh(rt, v) == vf_dbits(n)); REACH(); }
CONTRACT(static inline void rjs_value_set_index_string (RJS_Runtime *rt, RJS_Value *v, uint32_t idx) TARGET(v)
ENS(RDV(v) == (TAGV(RJS_VALUE_TAG_INDEX_STRING) | idx));)
//@unit name=set_index_string enforce=rjs_value_set_index_string
void h_set_index_string(void) { RJS_Runtime *rt = vf_rt(); RJS_Value *v = in_ref(rt, 0); uint32_t n = (uint32_t)IN64(2);
    rjs_value_set_index_string(rt, v, n);
    NCHECK("post", rdh(rt, v) == (TAGV(RJS_VALUE_TAG_INDEX_STRING) | n)); REACH(); }
CONTRACT(static inline void rjs_value_set_gc_thing_tag (RJS_Runtime *rt, RJS_Value *v, void *p, int tag) TARGET(v)
ENS(RDV(v) == (TAGV(tag) | ((uintptr_t)p & 0xffffffffffffull)));)
//@unit name=set_gc_thing_tag enforce=rjs_value_set_gc_thing_tag
void h_set_gc_thing_tag(void) { RJS_Runtime *rt = vf_rt(); RJS_Value *v = in_ref(rt, 0); void *p = (void*)(uintptr_t)IN64(2);
    int tag = (int)IN_RANGE(3, 0, 0xffff);
    rjs_value_set_gc_thing_tag(rt, v, p, tag);
    NCHECK("post", rdh(rt, v) == (TAGV(tag) | ((uintptr_t)p & 0xffffffffffffull))); REACH(); }

#define GET(nm, ty, cond) \
CONTRACT(static inline ty rjs_value_get_##nm (RJS_Runtime *rt, RJS_Value *v) ASG() ENS(cond(__CPROVER_return_value, RDV(v)));) \
void h_get_##nm(void) { RJS_Runtime *rt = vf_rt(); RJS_Value *v = in_ref(rt, 0); ty r; \
    r = rjs_value_get_##nm(rt, v); NCHECK("post", cond(r, rdh(rt, v))); REACH(); }
#define C_BOOL(r, x) ((r) == ((x) & 1 ? RJS_TRUE : RJS_FALSE))
#define C_NUM(r, x)  (vf_dbits(r) == (x))
#define C_IDX(r, x)  ((r) == (uint32_t)(x))
#define SX48(x) ((((x) & 0xffffffffffffull) ^ 0x800000000000ull) - 0x800000000000ull)
#define C_PTR(r, x)  ((uintptr_t)(r) == SX48(x))
static RJS_ValueType sp_type(RJS_Value v)
{
    switch (v >> 48) {
    case 0x7ff9: return RJS_VALUE_UNDEFINED;
    case 0x7ffa: return RJS_VALUE_NULL;
    case 0x7ffb: return RJS_VALUE_BOOLEAN;
    case 0x7ffc: case 0xfffb: return RJS_VALUE_STRING;
    case 0x7ffd: return RJS_VALUE_SYMBOL;
    case 0x7ffe: return RJS_VALUE_BIG_INT;
    case 0xfff9: return RJS_VALUE_OBJECT;
    case 0xfffa: return RJS_VALUE_GC_THING;
    default: return RJS_VALUE_NUMBER;
    }
}
#define C_TYPE(r, x) ((r) == sp_type(x))
//@unit name=get_boolean enforce=rjs_value_get_boolean
GET(boolean, RJS_Bool, C_BOOL)
//@unit name=get_number enforce=rjs_value_get_number
GET(number, RJS_Number, C_NUM)
//@unit name=get_index_string enforce=rjs_value_get_index_string
GET(index_string, uint32_t, C_IDX)
//@unit name=get_gc_thing enforce=rjs_value_get_gc_thing
GET(gc_thing, void*, C_PTR)
//@unit name=get_type enforce=rjs_value_get_type
GET(type, RJS_ValueType, C_TYPE)

/* The composition: what was boxed comes back, and is recognised as that kind only */
static void roundtrip(int k)
{
    RJS_Runtime *rt = vf_rt();
    RJS_Value *v = in_ref(rt, 0), *w = rjs_value_stack_push(rt);
    int isu, isn, isb, isstr, issym, isnum, isobj, isbig;
    uint64_t x = IN64(3), n;
    uintptr_t a = SX48(x);
    /* canonical NaNs are what raw loads produce (units raw:*) and arithmetic propagates */
    ASSUME(k != 3 || (x & 0x7fffffffffffffffull) <= 0x7ff0000000000000ull || (x << 1) == 0xfff0000000000000ull);
    switch (k) {
    case 0: rjs_value_set_undefined(rt, v); break;
    case 1: rjs_value_set_null(rt, v); break;
    case 2: rjs_value_set_boolean(rt, v, x & 1); break;
    case 3: { double d; memcpy(&d, &x, 8); rjs_value_set_number(rt, v, d); break; }
    case 4: rjs_value_set_string(rt, v, (void*)a); break;
    case 5: rjs_value_set_index_string(rt, v, (uint32_t)x); break;
    case 6: rjs_value_set_symbol(rt, v, (void*)a); break;
    case 7: rjs_value_set_big_int(rt, v, (void*)a); break;
    case 8: rjs_value_set_object(rt, v, (void*)a); break;
    case 9: rjs_value_set_gc_thing(rt, v, (void*)a); break;
    }
    rjs_value_copy(rt, w, v);
    isu = rjs_value_is_undefined(rt, w); isn = rjs_value_is_null(rt, w); isb = rjs_value_is_boolean(rt, w);
    isstr = rjs_value_is_string(rt, w); issym = rjs_value_is_symbol(rt, w); isnum = rjs_value_is_number(rt, w);
    isobj = rjs_value_is_object(rt, w); isbig = rjs_value_is_big_int(rt, w);
    CHECK("undefined only", !isu == (k != 0)); CHECK("null only", !isn == (k != 1)); CHECK("boolean only", !isb == (k != 2));
    CHECK("Number only", !isnum == (k != 3)); CHECK("string only", !isstr == (k != 4 && k != 5)); CHECK("Symbol only", !issym == (k != 6));
    CHECK("BigInt only", !isbig == (k != 7)); CHECK("object only", !isobj == (k != 8));
    CHECK("index string flag", !rjs_value_is_index_string(rt, w) == (k != 5));
    switch (k) {
    case 2: CHECK("boolean value", rjs_value_get_boolean(rt, w) == (int)(x & 1)); break;
    case 3: { double d = rjs_value_get_number(rt, w); memcpy(&n, &d, 8); CHECK("Number value", n == x); break; }
    case 5: CHECK("index value", rjs_value_get_index_string(rt, w) == (uint32_t)x); break;
    case 4: CHECK("string reference", (uintptr_t)rjs_value_get_string(rt, w) == a); break;
    case 6: CHECK("symbol reference", (uintptr_t)rjs_value_get_symbol(rt, w) == a); break;
    case 7: CHECK("bigint reference", (uintptr_t)rjs_value_get_big_int(rt, w) == a); break;
    case 8: CHECK("object reference", (uintptr_t)rjs_value_get_object(rt, w) == a); break;
    case 9: CHECK("thing reference", (uintptr_t)rjs_value_get_gc_thing(rt, w) == a); break;
    }
    REACH();
}
//@unit name=rt_undefined fns=rjs_value_set_undefined,rjs_value_get_undefined,rjs_value_copy,rjs_value_is_undefined,rjs_value_is_null,rjs_value_is_boolean,rjs_value_is_number,rjs_value_is_string,rjs_value_is_symbol,rjs_value_is_big_int,rjs_value_is_object
void h_rt_undefined(void) { roundtrip(0); }
//@unit name=rt_null fns=rjs_value_set_null,rjs_value_get_null,rjs_value_copy,rjs_value_is_undefined,rjs_value_is_null,rjs_value_is_boolean,rjs_value_is_number,rjs_value_is_string,rjs_value_is_symbol,rjs_value_is_big_int,rjs_value_is_object
void h_rt_null(void) { roundtrip(1); }
//@unit name=rt_boolean fns=rjs_value_set_boolean,rjs_value_get_boolean,rjs_value_copy,rjs_value_is_undefined,rjs_value_is_null,rjs_value_is_boolean,rjs_value_is_number,rjs_value_is_string,rjs_value_is_symbol,rjs_value_is_big_int,rjs_value_is_object
void h_rt_boolean(void) { roundtrip(2); }
//@unit name=rt_number fns=rjs_value_set_number,rjs_value_get_number,rjs_value_copy,rjs_value_is_undefined,rjs_value_is_null,rjs_value_is_boolean,rjs_value_is_number,rjs_value_is_string,rjs_value_is_symbol,rjs_value_is_big_int,rjs_value_is_object
void h_rt_number(void) { roundtrip(3); }
//@unit name=rt_string fns=rjs_value_set_string,rjs_value_get_string,rjs_value_copy,rjs_value_is_undefined,rjs_value_is_null,rjs_value_is_boolean,rjs_value_is_number,rjs_value_is_string,rjs_value_is_symbol,rjs_value_is_big_int,rjs_value_is_object
void h_rt_string(void) { roundtrip(4); }
//@unit name=rt_index_string fns=rjs_value_set_index_string,rjs_value_get_index_string,rjs_value_copy,rjs_value_is_undefined,rjs_value_is_null,rjs_value_is_boolean,rjs_value_is_number,rjs_value_is_string,rjs_value_is_symbol,rjs_value_is_big_int,rjs_value_is_object
void h_rt_index_string(void) { roundtrip(5); }
//@unit name=rt_symbol fns=rjs_value_set_symbol,rjs_value_get_symbol,rjs_value_copy,rjs_value_is_undefined,rjs_value_is_null,rjs_value_is_boolean,rjs_value_is_number,rjs_value_is_string,rjs_value_is_symbol,rjs_value_is_big_int,rjs_value_is_object
void h_rt_symbol(void) { roundtrip(6); }
//@unit name=rt_big_int fns=rjs_value_set_big_int,rjs_value_get_big_int,rjs_value_copy,rjs_value_is_undefined,rjs_value_is_null,rjs_value_is_boolean,rjs_value_is_number,rjs_value_is_string,rjs_value_is_symbol,rjs_value_is_big_int,rjs_value_is_object
void h_rt_big_int(void) { roundtrip(7); }
//@unit name=rt_object fns=rjs_value_set_object,rjs_value_get_object,rjs_value_copy,rjs_value_is_undefined,rjs_value_is_null,rjs_value_is_boolean,rjs_value_is_number,rjs_value_is_string,rjs_value_is_symbol,rjs_value_is_big_int,rjs_value_is_object
void h_rt_object(void) { roundtrip(8); }
//@unit name=rt_gc_thing fns=rjs_value_set_gc_thing,rjs_value_get_gc_thing,rjs_value_copy,rjs_value_is_undefined,rjs_value_is_null,rjs_value_is_boolean,rjs_value_is_number,rjs_value_is_string,rjs_value_is_symbol,rjs_value_is_big_int,rjs_value_is_object
void h_rt_gc_thing(void) { roundtrip(9); }
