/* C06 (and C05 dispatch): typed array and DataView accesses stay inside their buffer. */
#include "vf.h"
#define VF_THINGS 16
#define rjs_get_value_from_buffer vf_gvfb
#define rjs_set_value_in_buffer   vf_svib
#define rjs_to_index              vf_to_index
#define rjs_object_to_number      vf_object_to_number
#define rjs_to_big_int            vf_to_big_int
#define rjs_throw_type_error      vf_throw_type_error
#define rjs_throw_range_error     vf_throw_range_error
#define rjs_canonical_numeric_index_string_internal vf_cnis
#define rjs_ordinary_object_op_get_own_property    vf_ord_get_own
#define rjs_ordinary_object_op_define_own_property vf_ord_define
#define rjs_ordinary_object_op_has_property        vf_ord_has
#define rjs_ordinary_object_op_get                 vf_ord_get
#define rjs_ordinary_object_op_set                 vf_ord_set
#define rjs_ordinary_object_op_delete              vf_ord_delete
#define rjs_get_prototype_from_constructor vf_proto_from_ctor
#define rjs_object_init vf_object_init
#define rjs_allocate_array_buffer                  vf_alloc_ab
#define rjs_clone_array_buffer                     vf_clone_ab
#define rjs_species_constructor                    vf_species
#define memcpy  vf_memcpy
#define memmove vf_memmove
static void vf_memcpy(void *d, const void *s, size_t n);
static void vf_memmove(void *d, const void *s, size_t n);
#include "lib/rjs_data_block_opt.c"
#include "lib/rjs_int_indexed_object_opt.c"
#include "lib/rjs_array_object_inc.c"
#include "lib/rjs_array_buffer_object_inc.c"
#include "lib/rjs_typed_array_object_inc.c"
#include "lib/rjs_data_view_object_inc.c"
#undef memcpy
#undef memmove
#include "vf_rt.h"
#include "vf_spec.h"

//@assume conversions of arguments (ToNumber of objects, ToIndex, ToBigInt) are arbitrary-result stubs that may throw and may detach any buffer; ToIndex itself is proved in units/toindex.c, the byte transfer (raw) in units/raw.c
//@assume a buffer's memory spans byte_length bytes at its data pointer, at most 2^46 bytes
//@default props=C06 unwind=18 calls=VF_BOX

#define BASE0 0x1000000000000ull
#define BASE1 0x2000000000000ull
#define MAXB  (1ull << 46)
static RJS_ArrayBuffer ab[3];
static RJS_DataBlock   blk[3];
static RJS_IntIndexedObject ta[2];
static RJS_DataView    dv;
static RJS_Object      co[3];
static RJS_String      str[2];
static RJS_ObjectOps   ops_ab, ops_ta, ops_dv, ops_co;
static RJS_GcThingOps  ops_str;
static RJS_Value       vab[3], vta[2], vdv, vco[3], vstr[2];
/* what the stubs will answer */
static struct { int64_t idx[3]; double num[3]; int thrw[3], det[3]; double cnum; int cnis; RJS_Result ord; int initerr, initdet, allocerr; size_t created; } Q;
/* what the code did */
static struct { int thrown, acc, kind, type, le, buf, ord; size_t pos; RJS_Value v; uint64_t dst, src, n; int copies; size_t alloc; size_t cpos[2]; } S;
static int nesz(RJS_ArrayElementType t)
{ return (t) == RJS_ARRAY_ELEMENT_UINT8 || (t) == RJS_ARRAY_ELEMENT_INT8 || (t) == RJS_ARRAY_ELEMENT_UINT8C ? 1 :
    (t) == RJS_ARRAY_ELEMENT_UINT16 || (t) == RJS_ARRAY_ELEMENT_INT16 ? 2 :
    (t) == RJS_ARRAY_ELEMENT_UINT32 || (t) == RJS_ARRAY_ELEMENT_INT32 || (t) == RJS_ARRAY_ELEMENT_FLOAT32 ? 4 : 8; }
static int sp_esz(RJS_ArrayElementType t)
{ return (t) == RJS_ARRAY_ELEMENT_UINT8 || (t) == RJS_ARRAY_ELEMENT_INT8 || (t) == RJS_ARRAY_ELEMENT_UINT8C ? 1 :
    (t) == RJS_ARRAY_ELEMENT_UINT16 || (t) == RJS_ARRAY_ELEMENT_INT16 ? 2 :
    (t) == RJS_ARRAY_ELEMENT_UINT32 || (t) == RJS_ARRAY_ELEMENT_INT32 || (t) == RJS_ARRAY_ELEMENT_FLOAT32 ? 4 : 8; }

static RJS_Value rd(RJS_Runtime *rt, RJS_Value *v) { return *rjs_value_get_pointer(rt, v); }
static void vf_detach(int mask)
{
    int i;
    for (i = 0; i < 2; i ++) if (mask & (1 << i)) { ab[i].data_block = NULL; ab[i].byte_length = 0; }
}
#ifndef VF_NATIVE
RJS_Bool rjs_is_detached_buffer (RJS_Runtime *rt, RJS_Value *v)
{ RJS_ArrayBuffer *b; if (rjs_value_is_undefined(rt, v)) return RJS_FALSE; b = (RJS_ArrayBuffer*)rjs_value_get_object(rt, v); return b->data_block ? RJS_FALSE : RJS_TRUE; }
RJS_Bool rjs_is_shared_array_buffer (RJS_Runtime *rt, RJS_Value *v) { return RJS_FALSE; }
void rjs_array_buffer_lock (RJS_Runtime *rt, RJS_Value *v) { }
void rjs_array_buffer_unlock (RJS_Runtime *rt, RJS_Value *v) { }
#endif
RJS_Result vf_throw_type_error (RJS_Runtime *rt, const char *f, ...) { S.thrown = 1; return RJS_ERR; }
RJS_Result vf_throw_range_error (RJS_Runtime *rt, const char *f, ...) { S.thrown = 2; return RJS_ERR; }
static int which_co(RJS_Value v) { return v == vco[0] ? 0 : v == vco[1] ? 1 : 2; }
RJS_Result vf_to_index (RJS_Runtime *rt, RJS_Value *v, int64_t *p)
{
    int i;
    if (rd(rt, v) == VF_UNDEF) { *p = 0; return RJS_OK; }
    i = which_co(rd(rt, v)); vf_detach(Q.det[i]);
    if (Q.thrw[i]) { S.thrown = 3; return RJS_ERR; }
    *p = Q.idx[i]; return RJS_OK;
}
RJS_Result vf_object_to_number (RJS_Runtime *rt, RJS_Value *v, RJS_Number *p)
{
    int i = which_co(rd(rt, v)); vf_detach(Q.det[i]);
    if (Q.thrw[i]) { S.thrown = 3; return RJS_ERR; }
    *p = Q.num[i]; return RJS_OK;
}
#define BIV ((((RJS_Value)RJS_VALUE_TAG_BIG_INT) << 48) | 0x40)
RJS_Result vf_to_big_int (RJS_Runtime *rt, RJS_Value *v, RJS_Value *p)
{
    int i = which_co(rd(rt, v)); vf_detach(Q.det[i]);
    if (Q.thrw[i]) { S.thrown = 3; return RJS_ERR; }
    *rjs_value_get_pointer(rt, p) = BIV; return RJS_OK;
}
static int in_range(int b, uint64_t lo, uint64_t n) { return ab[b].data_block != NULL && lo <= ab[b].byte_length && n <= ab[b].byte_length - lo; }
#define RDV 0x4045000000000000ull   /* the Number the raw read hands back */
static void vf_access(RJS_Runtime *rt, int kind, RJS_Value *abv, size_t pos, RJS_ArrayElementType type, RJS_Bool le)
{
    RJS_Value b = rd(rt, abv);
    S.acc ++; S.kind = kind; S.type = type; S.le = le != 0; S.pos = pos;
    S.buf = b == vab[0] ? 0 : b == vab[1] ? 1 : b == vab[2] ? 2 : 9;
    CHECK("access goes to a buffer", S.buf != 9);
    if (S.buf != 9) CHECK("access inside the live buffer", in_range(S.buf, pos, nesz(type)));
}
RJS_Result vf_gvfb (RJS_Runtime *rt, RJS_Value *abv, size_t pos, RJS_ArrayElementType type, RJS_Bool le, RJS_Value *v)
{ vf_access(rt, 1, abv, pos, type, le); *rjs_value_get_pointer(rt, v) = RDV; return RJS_OK; }
RJS_Result vf_svib (RJS_Runtime *rt, RJS_Value *abv, size_t pos, RJS_ArrayElementType type, RJS_Value *v, RJS_Bool le)
{ vf_access(rt, 2, abv, pos, type, le); S.v = rd(rt, v); return RJS_OK; }
static void vf_copy(uint64_t d, uint64_t s, uint64_t n)
{
    int i = (int)(d >> 48) - 1, j = (int)(s >> 48) - 1;
    CHECK("copy between buffers", i >= 0 && i < 3 && j >= 0 && j < 3);
    if (i < 0 || i > 2 || j < 0 || j > 2) return;
    d &= BASE0 - 1; s &= BASE0 - 1;
    S.copies ++; S.dst = d; S.src = s; S.n = n; S.cpos[0] = i; S.cpos[1] = j;
    if (n) {
        CHECK("copy writes inside the live buffer", in_range(i, d, n));
        CHECK("copy reads inside the live buffer", in_range(j, s, n));
    }
}
static void vf_memcpy(void *d, const void *s, size_t n) { vf_copy((uint64_t)d, (uint64_t)s, n); }
static void vf_memmove(void *d, const void *s, size_t n) { vf_copy((uint64_t)d, (uint64_t)s, n); S.copies += 10; }
RJS_Bool vf_cnis (RJS_Runtime *rt, RJS_Value *v, RJS_Number *p) { *p = Q.cnum; return Q.cnis; }
RJS_Result vf_ord_get_own (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_PropertyDesc *pd) { S.ord = 1; return Q.ord; }
RJS_Result vf_ord_define (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_PropertyDesc *pd) { S.ord = 2; return Q.ord; }
RJS_Result vf_ord_has (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn) { S.ord = 3; return Q.ord; }
RJS_Result vf_ord_get (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_Value *rec, RJS_Value *v) { S.ord = 4; return Q.ord; }
RJS_Result vf_ord_set (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_Value *v, RJS_Value *rec) { S.ord = 5; return Q.ord; }
RJS_Result vf_ord_delete (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn) { S.ord = 6; return Q.ord; }
/* allocation of a buffer of n bytes, as ab[2] (initially undefined byte_length) */
static RJS_Result new_ab(RJS_Runtime *rt, int64_t n, RJS_Value *v)
{
    S.alloc = n;
    if (Q.allocerr || n < 0 || (uint64_t)n > MAXB) { S.thrown = 2; return RJS_ERR; }
    ab[2].byte_length = n; blk[2].size = n; ab[2].data_block = &blk[2];
    *rjs_value_get_pointer(rt, v) = vab[2];
    return RJS_OK;
}
RJS_Result vf_alloc_ab (RJS_Runtime *rt, RJS_Value *c, int64_t n, RJS_Value *v) { vf_detach(Q.initdet); return new_ab(rt, n, v); }
RJS_Result vf_clone_ab (RJS_Runtime *rt, RJS_Value *src, size_t off, size_t n, RJS_Value *v)
{
    RJS_Value b = rd(rt, src); int i = b == vab[1];
    RJS_Result r;
    vf_detach(Q.initdet);
    r = new_ab(rt, n, v);
    if (r == RJS_ERR) return r;
    if (!ab[i].data_block) { S.thrown = 1; return RJS_ERR; }
    CHECK("clone reads inside the live buffer", in_range(i, off, n));
    S.cpos[0] = off; S.cpos[1] = n;
    return RJS_OK;
}
RJS_Result vf_species (RJS_Runtime *rt, RJS_Value *o, RJS_Value *d, RJS_Value *c) { if (Q.initerr) { S.thrown = 3; return RJS_ERR; } *rjs_value_get_pointer(rt, c) = vco[2]; return RJS_OK; }
static RJS_Value cargs[3];
/* a species constructor may return any typed array (vta[1]) or any array buffer (vab[1]), and detach things */
static RJS_Value ctor_result;
static RJS_Result vf_construct (RJS_Runtime *rt, RJS_Value *c, RJS_Value *args, size_t argc, RJS_Value *nt, RJS_Value *rv)
{
    size_t i;
    for (i = 0; i < argc && i < 3; i ++) cargs[i] = rd(rt, rjs_value_buffer_item(rt, args, i));
    vf_detach(Q.initdet);
    *rjs_value_get_pointer(rt, rv) = ctor_result; return RJS_OK;
}
RJS_Result vf_proto_from_ctor (RJS_Runtime *rt, RJS_Value *c, int idx, RJS_Value *p)
{
    vf_detach(Q.initdet);
    if (Q.initerr) { S.thrown = 3; return RJS_ERR; }
    *rjs_value_get_pointer(rt, p) = VF_NULL;
    return RJS_OK;
}
RJS_Result vf_object_init (RJS_Runtime *rt, RJS_Value *v, RJS_Object *o, RJS_Value *proto, const RJS_ObjectOps *ops)
{
    o->gc_thing.ops = (RJS_GcThingOps*)ops;
    *rjs_value_get_pointer(rt, v) = vf_box(RJS_VALUE_TAG_OBJECT, o);
    return RJS_OK;
}

#ifndef VF_NATIVE
static RJS_Realm g_realm;
static void set_realm(RJS_Runtime *rt) { rt->rb.ctxt_stack = NULL; rt->rb.bot_realm = &g_realm; }
#else
#define set_realm(rt)
#endif
static RJS_Runtime *world(void)
{
    RJS_Runtime *rt = vf_rt(); int i;
    memset(&S, 0, sizeof S);
    ops_ab.gc_thing_ops.type = RJS_GC_THING_ARRAY_BUFFER; ops_ta.gc_thing_ops.type = RJS_GC_THING_INT_INDEXED_OBJECT;
    ops_dv.gc_thing_ops.type = RJS_GC_THING_DATA_VIEW; ops_co.gc_thing_ops.type = RJS_GC_THING_OBJECT; ops_co.construct = vf_construct; ops_str.type = RJS_GC_THING_STRING;
    for (i = 0; i < 3; i ++) {
        ab[i].object.gc_thing.ops = (RJS_GcThingOps*)&ops_ab; vab[i] = vf_new_thing(RJS_VALUE_TAG_OBJECT, &ab[i]);
        ab[i].byte_length = i < 2 ? IN_RANGE(i, 0, MAXB) : 0;
        blk[i].size = ab[i].byte_length; blk[i].data = (uint8_t*)(uintptr_t)(i == 1 ? BASE1 : BASE0); blk[i].flags = 0;
        ab[i].data_block = i < 2 ? &blk[i] : NULL;
    }
    blk[2].data = (uint8_t*)(uintptr_t)0x3000000000000ull;
    for (i = 0; i < 2; i ++) {
        ta[i].object.gc_thing.ops = (RJS_GcThingOps*)&ops_ta; vta[i] = vf_new_thing(RJS_VALUE_TAG_OBJECT, &ta[i]);
        ta[i].type = IN_RANGE(4 + i, 0, RJS_ARRAY_ELEMENT_MAX - 1);
        ta[i].buffer = vab[i];
        ta[i].byte_offset = IN_RANGE(6 + i, 0, MAXB);
        ta[i].array_length = IN_RANGE(8 + i, 0, MAXB);
        ta[i].byte_length = ta[i].array_length * nesz(ta[i].type);
        /* the view invariant (established by the constructors below) */
        ASSUME(ta[i].byte_offset % nesz(ta[i].type) == 0);
        ASSUME(ta[i].byte_offset <= ab[i].byte_length && ta[i].byte_length <= ab[i].byte_length - ta[i].byte_offset);
        str[i].gc_thing.ops = &ops_str; vstr[i] = vf_new_thing(RJS_VALUE_TAG_STRING, &str[i]); str[i].flags = 0;
    }
    dv.objcet.gc_thing.ops = (RJS_GcThingOps*)&ops_dv; vdv = vf_new_thing(RJS_VALUE_TAG_OBJECT, &dv); dv.buffer = vab[0];
    dv.byte_offset = IN_RANGE(10, 0, MAXB); dv.byte_length = IN_RANGE(11, 0, MAXB);
    ASSUME(dv.byte_offset <= ab[0].byte_length && dv.byte_length <= ab[0].byte_length - dv.byte_offset);
    for (i = 0; i < 3; i ++) {
        co[i].gc_thing.ops = (RJS_GcThingOps*)&ops_co; vco[i] = vf_new_thing(RJS_VALUE_TAG_OBJECT, &co[i]);
        Q.idx[i] = IN_RANGE(12 + i, 0, (1ull << 53) - 1);
        Q.num[i] = IN_DBL(15 + i); ASSUME(vf_num_ok(vf_numv(Q.num[i])));
        Q.thrw[i] = IN_RANGE(18 + i, 0, 1); Q.det[i] = IN_RANGE(21 + i, 0, 3);
    }
    Q.cnum = IN_DBL(24); Q.cnis = IN_RANGE(25, 0, 1); Q.ord = (int)IN_RANGE(26, 0, 2) - 1; Q.initerr = IN_RANGE(27, 0, 1); Q.initdet = IN_RANGE(28, 0, 3);
    Q.allocerr = IN_RANGE(29, 0, 1);
    vf_detach(IN_RANGE(30, 0, 3));
    return rt;
}
#define STK __CPROVER_object_whole(vf_stack_s), vf_ns_s.value.item_num, S, ab
static uint64_t sp_bits(double d) { union { uint64_t u; double d; } x; x.d = d; return x.u; }
/* is d an index of the typed array: an integer >= +0 below its length */
static int sp_valid(double d, size_t len, size_t *pi)
{
    uint64_t b = sp_bits(d), m; int e = (int)(b >> 52);
    if (b == 0) { *pi = 0; return len > 0; }
    if (b >> 63 || e < 1023 || e > 1023 + 52) return 0;         /* >= 2^53: beyond any length here */
    m = (b & 0xfffffffffffffull) | 0x10000000000000ull;
    if (m & ((1ull << (1075 - e)) - 1)) return 0;
    m >>= 1075 - e; *pi = m;
    return m < len;
}

/* ---- integer-indexed element access ---- */
static size_t g_idx;
static int post_valid(RJS_Number n, size_t idx, RJS_Bool r)
{ size_t i = 0; int ok = ab[0].data_block && sp_valid(n, ta[0].array_length, &i); return ok ? r == RJS_TRUE && idx == i : r == RJS_FALSE; }
CONTRACT(RJS_Bool rjs_is_valid_int_index (RJS_Runtime *rt, RJS_Value *o, RJS_Number n, size_t *pidx)
ASG(*pidx) ENS(post_valid(n, *pidx, __CPROVER_return_value));)
//@unit name=valid_index enforce=rjs_is_valid_int_index
void h_valid_index(void) { RJS_Runtime *rt = world(); int r; RJS_Value o = vta[0]; double n = IN_DBL(40);
    r = rjs_is_valid_int_index(rt, &o, n, &g_idx);
    NCHECK("valid integer index", post_valid(n, g_idx, r)); REACH(); }

static int post_get(RJS_Number n, RJS_Value v)
{
    size_t i = 0; int ok = ab[0].data_block && sp_valid(n, ta[0].array_length, &i);
    if (!ok) return S.acc == 0 && v == VF_UNDEF;
    return S.acc == 1 && S.kind == 1 && S.buf == 0 && S.pos == ta[0].byte_offset + i * sp_esz(ta[0].type) && S.type == (int)ta[0].type && S.le == 1 && v == RDV;
}
CONTRACT(RJS_Result rjs_int_indexed_element_get (RJS_Runtime *rt, RJS_Value *o, RJS_Number n, RJS_Value *v)
REQ(S.acc == 0) ASG(*v, S) ENS(__CPROVER_return_value == RJS_OK && post_get(n, *v));)
//@unit name=elem_get enforce=rjs_int_indexed_element_get props=C06,C05
void h_elem_get(void) { RJS_Runtime *rt = world(); RJS_Value o = vta[0], v = VF_NULL; double n = IN_DBL(40); int r;
    r = rjs_int_indexed_element_get(rt, &o, n, &v);
    NCHECK("element read", r == RJS_OK && post_get(n, v)); REACH(); }

#define ISBIG(t) ((t) == RJS_ARRAY_ELEMENT_BIGINT64 || (t) == RJS_ARRAY_ELEMENT_BIGUINT64)
/* the value argument is an object (vco[2]) converted first, then the index is checked */
static int post_set(RJS_Number n, RJS_Result r)
{
    size_t i = 0; int ok;
    if (Q.thrw[2]) return r == RJS_ERR && S.acc == 0;
    ok = ab[0].data_block && sp_valid(n, ta[0].array_length, &i);
    if (!ok) return r == RJS_OK && S.acc == 0;
    return r == RJS_OK && S.acc == 1 && S.kind == 2 && S.buf == 0 && S.pos == ta[0].byte_offset + i * sp_esz(ta[0].type) && S.type == (int)ta[0].type && S.le == 1
        && S.v == (ISBIG(ta[0].type) ? BIV : sp_bits(Q.num[2]));
}
CONTRACT(RJS_Result rjs_int_indexed_element_set (RJS_Runtime *rt, RJS_Value *o, RJS_Number n, RJS_Value *v)
REQ(S.acc == 0) ASG(STK) ENS(post_set(n, __CPROVER_return_value)) ENS(vf_ns_s.value.item_num == __CPROVER_old(vf_ns_s.value.item_num));)
//@unit name=elem_set enforce=rjs_int_indexed_element_set props=C06,C05
void h_elem_set(void) { RJS_Runtime *rt = world(); RJS_Value o = vta[0], v = vco[2]; double n = IN_DBL(40); int r;
    r = rjs_int_indexed_element_set(rt, &o, n, &v);
    NCHECK("element write", post_set(n, r)); REACH(); }

/* ---- internal methods on property keys ---- */
static RJS_PropertyName g_pn; static RJS_Value g_name, g_val, g_rec, g_getter, g_setter; static RJS_PropertyDesc g_pd; static int g_numeric; static double g_key; static int g_flags;
static void key(RJS_Runtime *rt)
{
    int k = IN_RANGE(41, 0, 3);
    uint32_t ix = IN64(42);
    g_name = k == 0 ? ((((RJS_Value)RJS_VALUE_TAG_INDEX_STRING) << 48) | ix) : k == 3 ? (((RJS_Value)RJS_VALUE_TAG_SYMBOL) << 48) | 0x77 : vstr[k - 1];
    str[1].flags = RJS_STRING_FL_NOT_NUMBER;
    g_pn.name = &g_name;
    g_numeric = k == 0 || (k == 1 && Q.cnis);
    g_key = k == 0 ? (double)ix : Q.cnum;
    g_val = vco[2]; g_rec = vta[0];
    g_flags = IN64(43) & 0x1ff;
    g_pd.flags = g_flags; g_pd.value = &g_val; g_pd.get = &g_getter; g_pd.set = &g_setter;
}
static int post_key(int m, RJS_Result r)
{
    size_t i = 0; int ok;
    if (!g_numeric) return S.acc == 0 && S.ord == m && r == Q.ord;
    if (S.ord != 0) return 0;
    switch (m) {
    case 4: return r == RJS_OK && post_get(g_key, g_val);
    case 5: return post_set(g_key, r);
    case 2:
        /* (no conversion has happened yet when the index is checked, so the state before counts) */
        if (g_flags & 0x100000) { if (r != RJS_FALSE || S.acc) return 0; return 1; }
        if (((g_flags & RJS_PROP_FL_HAS_CONFIGURABLE) && !(g_flags & RJS_PROP_FL_CONFIGURABLE))
            || ((g_flags & RJS_PROP_FL_HAS_ENUMERABLE) && !(g_flags & RJS_PROP_FL_ENUMERABLE))
            || (g_flags & (RJS_PROP_FL_HAS_GET | RJS_PROP_FL_HAS_SET))
            || ((g_flags & RJS_PROP_FL_HAS_WRITABLE) && !(g_flags & RJS_PROP_FL_WRITABLE))) return r == RJS_FALSE && S.acc == 0;
        if (!(g_flags & RJS_PROP_FL_HAS_VALUE)) return r == RJS_TRUE && S.acc == 0;
        if (Q.thrw[2]) return r == RJS_ERR && S.acc == 0;
        return r == RJS_TRUE && post_set(g_key, RJS_OK);
    }
    ok = ab[0].data_block && sp_valid(g_key, ta[0].array_length, &i);
    switch (m) {
    case 1: return ok ? r == RJS_TRUE && post_get(g_key, g_val)
            && g_pd.flags == (RJS_PROP_FL_DATA | RJS_PROP_FL_WRITABLE | RJS_PROP_FL_CONFIGURABLE | RJS_PROP_FL_ENUMERABLE) : r == RJS_FALSE && S.acc == 0;
    case 3: return r == (ok ? RJS_TRUE : RJS_FALSE) && S.acc == 0;
    default: return r == (ok ? RJS_FALSE : RJS_TRUE) && S.acc == 0;
    }
}
CONTRACT(static RJS_Result int_indexed_object_op_get_own_property (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_PropertyDesc *pd)
REQ(S.acc == 0 && S.ord == 0) ASG(g_val, g_pd, S) ENS(post_key(1, __CPROVER_return_value));)
//@unit name=op_get_own enforce=int_indexed_object_op_get_own_property
void h_op_get_own(void) { RJS_Runtime *rt = world(); RJS_Value o = vta[0]; int r; key(rt);
    r = int_indexed_object_op_get_own_property(rt, &o, &g_pn, &g_pd);
    NCHECK("[[GetOwnProperty]]", post_key(1, r)); REACH(); }
CONTRACT(static RJS_Result int_indexed_object_op_has_property (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn)
REQ(S.acc == 0 && S.ord == 0) ASG(S) ENS(post_key(3, __CPROVER_return_value));)
//@unit name=op_has enforce=int_indexed_object_op_has_property
void h_op_has(void) { RJS_Runtime *rt = world(); RJS_Value o = vta[0]; int r; key(rt);
    r = int_indexed_object_op_has_property(rt, &o, &g_pn);
    NCHECK("[[HasProperty]]", post_key(3, r)); REACH(); }
CONTRACT(static RJS_Result int_indexed_object_op_get (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_Value *receiver, RJS_Value *pv)
REQ(S.acc == 0 && S.ord == 0) ASG(S, g_val) ENS(post_key(4, __CPROVER_return_value));)
//@unit name=op_get enforce=int_indexed_object_op_get
void h_op_get(void) { RJS_Runtime *rt = world(); RJS_Value o = vta[0]; int r; key(rt);
    r = int_indexed_object_op_get(rt, &o, &g_pn, &g_rec, &g_val);
    NCHECK("[[Get]]", post_key(4, r)); REACH(); }
CONTRACT(static RJS_Result int_indexed_object_op_set (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_Value *pv, RJS_Value *receiver)
REQ(S.acc == 0 && S.ord == 0) ASG(STK) ENS(post_key(5, __CPROVER_return_value));)
//@unit name=op_set enforce=int_indexed_object_op_set
void h_op_set(void) { RJS_Runtime *rt = world(); RJS_Value o = vta[0]; int r; key(rt);
    r = int_indexed_object_op_set(rt, &o, &g_pn, &g_val, &g_rec);
    NCHECK("[[Set]]", post_key(5, r)); REACH(); }
CONTRACT(static RJS_Result int_indexed_object_op_delete (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn)
REQ(S.acc == 0 && S.ord == 0) ASG(S) ENS(post_key(6, __CPROVER_return_value));)
//@unit name=op_delete enforce=int_indexed_object_op_delete
void h_op_delete(void) { RJS_Runtime *rt = world(); RJS_Value o = vta[0]; int r; key(rt);
    r = int_indexed_object_op_delete(rt, &o, &g_pn);
    NCHECK("[[Delete]]", post_key(6, r)); REACH(); }
CONTRACT(static RJS_Result int_indexed_object_op_define_own_property (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_PropertyDesc *pd)
REQ(S.acc == 0 && S.ord == 0) ASG(STK) ENS(post_key(2, __CPROVER_return_value));)
static int nvalid(double d, size_t len) { return d == d && d >= 0 && !(vf_dbits(d) >> 63) && d < (double)len && (double)(size_t)d == d; }
//@unit name=op_define enforce=int_indexed_object_op_define_own_property
void h_op_define(void) { RJS_Runtime *rt = world(); RJS_Value o = vta[0]; int r; key(rt);
    if (!(ab[0].data_block && nvalid(g_key, ta[0].array_length))) g_flags |= 0x100000;
    r = int_indexed_object_op_define_own_property(rt, &o, &g_pn, &g_pd);
    NCHECK("[[DefineOwnProperty]]", post_key(2, r)); REACH(); }

/* ---- DataView ---- */
static RJS_ArrayElementType g_t; static RJS_Value g_le;
static int post_view(int kind, RJS_Value view, RJS_Result r, RJS_Value got)
{
    if (view != vdv) return r == RJS_ERR && S.acc == 0 && S.thrown == 1;
    if (Q.thrw[0] || (kind == 2 && Q.thrw[2])) return r == RJS_ERR && S.acc == 0;
    if (!ab[0].data_block) return r == RJS_ERR && S.acc == 0 && S.thrown == 1;
    if ((uint64_t)Q.idx[0] + sp_esz(g_t) > dv.byte_length) return r == RJS_ERR && S.acc == 0 && S.thrown == 2;
    return r == RJS_OK && S.acc == 1 && S.kind == kind && S.buf == 0 && S.pos == Q.idx[0] + dv.byte_offset && S.type == (int)g_t
        && S.le == (g_le == ((((RJS_Value)RJS_VALUE_TAG_BOOLEAN) << 48) | 1)) && (kind == 1 ? got == RDV : S.v == (ISBIG(g_t) ? BIV : sp_bits(Q.num[2])));
}
static RJS_Value in_le(void) { int k = IN_RANGE(44, 0, 2); return k == 2 ? VF_UNDEF : (((RJS_Value)RJS_VALUE_TAG_BOOLEAN) << 48) | k; }
static RJS_Value in_view(void) { int k = IN_RANGE(45, 0, 3); return k == 0 ? vta[0] : k == 1 ? VF_UNDEF : vdv; }
static RJS_Value g_view, g_req, g_rv;
CONTRACT(static RJS_Result get_view_value (RJS_Runtime *rt, RJS_Value *view, RJS_Value *req_idx, RJS_Value *is_little_v, RJS_ArrayElementType type, RJS_Value *rv)
REQ(S.acc == 0 && type == g_t && *is_little_v == g_le && *req_idx == vco[0]) ASG(*rv, S, ab) ENS(post_view(1, *view, __CPROVER_return_value, *rv));)
//@unit name=get_view enforce=get_view_value props=C06,C05
void h_get_view(void) { RJS_Runtime *rt = world(); int r; g_view = in_view(); g_le = in_le(); g_req = vco[0]; g_t = IN_RANGE(46, 0, RJS_ARRAY_ELEMENT_MAX - 1); g_rv = VF_UNDEF;
    r = get_view_value(rt, &g_view, &g_req, &g_le, g_t, &g_rv);
    NCHECK("GetViewValue", post_view(1, g_view, r, g_rv)); REACH(); }
CONTRACT(static RJS_Result set_view_value (RJS_Runtime *rt, RJS_Value *view, RJS_Value *req_idx, RJS_Value *is_little_v, RJS_ArrayElementType type, RJS_Value *v)
REQ(S.acc == 0 && type == g_t && *is_little_v == g_le && *req_idx == vco[0] && *v == vco[2]) ASG(STK) ENS(post_view(2, *view, __CPROVER_return_value, 0));)
//@unit name=set_view enforce=set_view_value props=C06,C05
void h_set_view(void) { RJS_Runtime *rt = world(); int r; g_view = in_view(); g_le = in_le(); g_req = vco[0]; g_t = IN_RANGE(46, 0, RJS_ARRAY_ELEMENT_MAX - 1); g_val = vco[2];
    r = set_view_value(rt, &g_view, &g_req, &g_le, g_t, &g_val);
    NCHECK("SetViewValue", post_view(2, g_view, r, 0)); REACH(); }
/* the accessor methods pick the right element type and argument positions */
static RJS_Value g_args[3];
#define DVM(nm, T) \
CONTRACT(static RJS_Result DataView_prototype_get##nm (RJS_Runtime *rt, RJS_Value *f, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *nt, RJS_Value *rv) \
REQ(S.acc == 0) ASG(STK, *rv) ENS(post_view(1, *thiz, __CPROVER_return_value, *rv));) \
CONTRACT(static RJS_Result DataView_prototype_set##nm (RJS_Runtime *rt, RJS_Value *f, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *nt, RJS_Value *rv) \
REQ(S.acc == 0) ASG(STK, *rv) ENS(post_view(2, *thiz, __CPROVER_return_value, 0));) \
void h_dvget_##nm(void) { RJS_Runtime *rt = world(); int r; g_view = in_view(); g_t = RJS_ARRAY_ELEMENT_##T; g_le = in_le(); g_args[0] = vco[0]; g_args[1] = g_le; g_rv = VF_UNDEF; \
    r = DataView_prototype_get##nm(rt, NULL, &g_view, g_args, 2, NULL, &g_rv); NCHECK("DataView get", post_view(1, g_view, r, g_rv)); REACH(); } \
void h_dvset_##nm(void) { RJS_Runtime *rt = world(); int r; g_view = in_view(); g_t = RJS_ARRAY_ELEMENT_##T; g_le = in_le(); g_args[0] = vco[0]; g_args[1] = vco[2]; g_args[2] = g_le; g_rv = VF_NULL; \
    r = DataView_prototype_set##nm(rt, NULL, &g_view, g_args, 3, NULL, &g_rv); NCHECK("DataView set", post_view(2, g_view, r, 0)); REACH(); }
//@default props=C05,C06 unwind=18 calls=VF_BOX
//@unit name=dvget_Int8 enforce=DataView_prototype_getInt8
//@unit name=dvset_Int8 enforce=DataView_prototype_setInt8
DVM(Int8, INT8)
//@unit name=dvget_Uint8 enforce=DataView_prototype_getUint8
//@unit name=dvset_Uint8 enforce=DataView_prototype_setUint8
DVM(Uint8, UINT8)
//@unit name=dvget_Int16 enforce=DataView_prototype_getInt16
//@unit name=dvset_Int16 enforce=DataView_prototype_setInt16
DVM(Int16, INT16)
//@unit name=dvget_Uint16 enforce=DataView_prototype_getUint16
//@unit name=dvset_Uint16 enforce=DataView_prototype_setUint16
DVM(Uint16, UINT16)
//@unit name=dvget_Int32 enforce=DataView_prototype_getInt32
//@unit name=dvset_Int32 enforce=DataView_prototype_setInt32
DVM(Int32, INT32)
//@unit name=dvget_Uint32 enforce=DataView_prototype_getUint32
//@unit name=dvset_Uint32 enforce=DataView_prototype_setUint32
DVM(Uint32, UINT32)
//@unit name=dvget_Float32 enforce=DataView_prototype_getFloat32
//@unit name=dvset_Float32 enforce=DataView_prototype_setFloat32
DVM(Float32, FLOAT32)
//@unit name=dvget_Float64 enforce=DataView_prototype_getFloat64
//@unit name=dvset_Float64 enforce=DataView_prototype_setFloat64
DVM(Float64, FLOAT64)
//@unit name=dvget_BigInt64 enforce=DataView_prototype_getBigInt64
//@unit name=dvset_BigInt64 enforce=DataView_prototype_setBigInt64
DVM(BigInt64, BIGINT64)
//@unit name=dvget_BigUint64 enforce=DataView_prototype_getBigUint64
//@unit name=dvset_BigUint64 enforce=DataView_prototype_setBigUint64
DVM(BigUint64, BIGUINT64)

/* ---- constructors establish the view invariant ---- */
//@default props=C06 unwind=18 calls=VF_BOX
#define INV(bf, off, len, db, t) ((off) % sp_esz(t) == 0 && ab[bf].data_block == (db) && (off) <= ab[bf].byte_length && (len) <= ab[bf].byte_length - (off))
static RJS_IntIndexedObject nta; static RJS_Value vnta, g_off, g_len, g_buf;
/* offset and length arguments: an object (vco[0], vco[1]) or undefined */
static RJS_Value in_arg(int slot, int i) { return IN_RANGE(slot, 0, 1) ? vco[i] : VF_UNDEF; }
static void new_ta(void)
{
    nta.object.gc_thing.ops = (RJS_GcThingOps*)&ops_ta; vnta = vf_new_thing(RJS_VALUE_TAG_OBJECT, &nta);
    nta.type = IN_RANGE(46, 0, RJS_ARRAY_ELEMENT_MAX - 1); nta.buffer = VF_UNDEF; nta.byte_offset = nta.byte_length = nta.array_length = 0;
}
static int post_from_ab(RJS_Result r)
{
    uint64_t off = g_off == VF_UNDEF ? 0 : Q.idx[0], n = Q.idx[1], e = sp_esz(nta.type), bl = ab[0].byte_length;
    if (r == RJS_ERR) return nta.buffer == VF_UNDEF;
    if (r != RJS_OK || nta.buffer != vab[0] || !ab[0].data_block) return 0;
    if (g_off != VF_UNDEF && Q.thrw[0]) return 0;
    if (g_len != VF_UNDEF && Q.thrw[1]) return 0;
    if (nta.byte_offset != off || off % e || off > bl) return 0;
    if (g_len == VF_UNDEF) return bl % e == 0 && nta.byte_length == bl - off && nta.array_length == (bl - off) / e;
    return nta.array_length == n && nta.byte_length == n * e && n * e <= bl - off;
}
CONTRACT(static RJS_Result initialize_typed_array_from_array_buffer (RJS_Runtime *rt, RJS_Value *o, RJS_Value *buf, RJS_Value *boff, RJS_Value *length)
REQ(nta.buffer == VF_UNDEF) ASG(STK, nta) ENS(post_from_ab(__CPROVER_return_value));)
//@unit name=ta_from_buffer enforce=initialize_typed_array_from_array_buffer timeout=500
void h_ta_from_buffer(void) { RJS_Runtime *rt = world(); int r; new_ta(); g_off = in_arg(50, 0); g_len = in_arg(51, 1); g_buf = vab[0];
    r = initialize_typed_array_from_array_buffer(rt, &vnta, &g_buf, &g_off, &g_len);
    NCHECK("typed array covers a range of its buffer", post_from_ab(r)); REACH(); }
static int post_alloc_ta(int64_t len, RJS_Result r)
{
    uint64_t e = sp_esz(nta.type);
    if (r == RJS_ERR) return 1;
    return nta.buffer == vab[2] && ab[2].data_block && nta.byte_offset == 0 && nta.array_length == (uint64_t)len && nta.byte_length == e * len && ab[2].byte_length == e * len;
}
CONTRACT(static RJS_Result allocate_typed_array_buffer (RJS_Runtime *rt, RJS_Value *o, int64_t len)
REQ(nta.buffer == VF_UNDEF) ASG(STK, nta, blk) ENS(post_alloc_ta(len, __CPROVER_return_value));)
//@unit name=ta_alloc enforce=allocate_typed_array_buffer
void h_ta_alloc(void) { RJS_Runtime *rt = world(); int r; int64_t n; new_ta(); n = IN_RANGE(50, 0, (1ull << 53) - 1);
    set_realm(rt);
    r = allocate_typed_array_buffer(rt, &vnta, n);
    NCHECK("allocated array spans its buffer", post_alloc_ta(n, r)); REACH(); }
/* from another typed array: ta[0]; its elements are transferred one by one or cloned */
static int post_from_ta(RJS_Result r)
{
    uint64_t e = sp_esz(nta.type), n = ta[0].array_length;
    if (r == RJS_ERR) return nta.buffer == VF_UNDEF;
    if (!(r == RJS_OK && nta.buffer == vab[2] && nta.byte_offset == 0 && nta.array_length == n && nta.byte_length == n * e && ab[2].byte_length == n * e)) return 0;
    if (nta.type == ta[0].type) return S.cpos[0] == ta[0].byte_offset && S.cpos[1] == n * e && S.acc == 0;
    return ISBIG(nta.type) == ISBIG(ta[0].type);
}
CONTRACT(static RJS_Result initialize_typed_array_from_typed_array (RJS_Runtime *rt, RJS_Value *o, RJS_Value *src)
REQ(nta.buffer == VF_UNDEF) ASG(STK, nta, blk) ENS(post_from_ta(__CPROVER_return_value));)
//@unit name=ta_from_ta enforce=initialize_typed_array_from_typed_array unwindset="" bounded="element transfer loop unrolled for source arrays of at most 4 elements" unwind=18
void h_ta_from_ta(void) { RJS_Runtime *rt = world(); int r; new_ta(); ASSUME(ta[0].array_length <= 4);
    set_realm(rt); g_val = vta[0];
    r = initialize_typed_array_from_typed_array(rt, &vnta, &g_val);
    NCHECK("typed array from typed array", post_from_ta(r)); REACH(); }
/* DataView constructor */
static RJS_Value g_nt;
static int post_dv(RJS_Result r, RJS_Value got)
{
    RJS_DataView *d; uint64_t off = g_off == VF_UNDEF ? 0 : Q.idx[0];
    if (r == RJS_ERR) return S.thrown != 0;
    if (r != RJS_OK || g_buf != vab[0]) return 0;
    d = (RJS_DataView*)VF_THING(got);
    return d->buffer == vab[0] && ab[0].data_block && d->byte_offset == off && off <= ab[0].byte_length
        && d->byte_length <= ab[0].byte_length - off && d->byte_length == (g_len == VF_UNDEF ? ab[0].byte_length - off : (uint64_t)Q.idx[1]);
}
#ifndef VF_NATIVE
static RJS_DataView newdv; static int newdv_live;
#define NEWDV0() (newdv_live = 0)
void *rjs_alloc_assert (RJS_Runtime *rt, size_t n) { CHECK("vf: one DataView allocated", n == sizeof newdv && newdv_live == 0); newdv_live = 1; return &newdv; }
void *rjs_realloc (RJS_Runtime *rt, void *p, size_t os, size_t ns) { CHECK("vf: only the new DataView is freed", p == &newdv && ns == 0 && newdv_live == 1); newdv_live = 0; return NULL; }
CONTRACT(static RJS_Result DataView_constructor (RJS_Runtime *rt, RJS_Value *f, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *nt, RJS_Value *rv)
ASG(STK, *rv, newdv, newdv_live, vf_nthings, __CPROVER_object_whole(vf_things)) ENS(post_dv(__CPROVER_return_value, *rv));)
#else
#define NEWDV0()
#endif
//@unit name=dv_ctor enforce=DataView_constructor
void h_dv_ctor(void) { RJS_Runtime *rt = world(); int r, k = IN_RANGE(52, 0, 2); g_buf = k == 0 ? vta[1] : k == 1 ? VF_UNDEF : vab[0]; g_off = in_arg(50, 0); g_len = in_arg(51, 1);
    g_nt = vco[2]; NEWDV0(); g_args[0] = g_buf; g_args[1] = g_off; g_args[2] = g_len; g_rv = VF_UNDEF;
    r = DataView_constructor(rt, NULL, &g_val, g_args, 3, IN_RANGE(53, 0, 1) ? &g_nt : NULL, &g_rv);
    NCHECK("DataView covers a range of its buffer", post_dv(r, g_rv)); REACH(); }

/* ---- block copies ---- */
/* relative index argument (object co[i] or undefined) resolved against a length n <= 2^46 */
static int64_t sp_rel(RJS_Value a, int i, int64_t n, int64_t dflt)
{
    double d; int64_t t;
    if (a == VF_UNDEF) return dflt;
    d = Q.num[i];
    if (sp_isnan(d)) return 0;
    if (sp_exp(d) >= 1023 + 60) return vf_neg(d) ? 0 : n;
    t = (int64_t)sp_trunc_mod64(d);
    if (t < 0) { t += n; return t < 0 ? 0 : t; }
    return t > n ? n : t;
}
static int64_t sp_min(int64_t a, int64_t b) { return a < b ? a : b; }
static int64_t g_n0;
static int post_copy_within(RJS_Result r)
{
    int64_t n = ta[0].array_length, to = sp_rel(g_args[0], 0, n, 0), from = sp_rel(g_args[1], 1, n, 0), fin = sp_rel(g_args[2], 2, n, n), cnt = sp_min(fin - from, n - to), e = sp_esz(ta[0].type);
    if (r == RJS_ERR) return S.copies == 0 && S.thrown;
    if (r != RJS_OK) return 0;
    if (cnt <= 0) return S.copies == 0 || S.n == 0;
    return S.copies == 11 && S.cpos[0] == 0 && S.cpos[1] == 0 && S.n == (uint64_t)(cnt * e) && S.dst == ta[0].byte_offset + to * e && S.src == ta[0].byte_offset + from * e;
}
CONTRACT(static RJS_Result TypedArray_prototype_copyWithin (RJS_Runtime *rt, RJS_Value *f, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *nt, RJS_Value *rv)
REQ(S.copies == 0) ASG(STK, *rv) ENS(post_copy_within(__CPROVER_return_value));)
/* cases: one relative index is any Number, the others are undefined; or all three are small integers */
static double small_num(int slot)
{
    switch (IN_RANGE(slot, 0, 11)) {
    case 0: return 0; case 1: return 1; case 2: return 2; case 3: return 3; case 4: return 5; case 5: return -1; case 6: return -2; case 7: return -3; case 8: return -6;
    case 9: return 7; case 10: return 0x1p60; default: return -0x1p60;
    }
}
static void rel_args(int which, int nargs)
{
    int i;
    for (i = 0; i < nargs; i ++) {
        if (which == 9) { Q.num[i] = small_num(60 + i); g_args[i] = in_arg(50 + i, i); }
        else g_args[i] = i == which ? vco[i] : VF_UNDEF;
    }
    if (which == 9) ASSUME(ta[0].array_length <= 6);
}
#define CW(nm, w) void h_copy_within_##nm(void) { RJS_Runtime *rt = world(); int r; rel_args(w, 3); g_val = vta[0]; g_rv = VF_UNDEF; \
    r = TypedArray_prototype_copyWithin(rt, NULL, &g_val, g_args, 3, NULL, &g_rv); \
    NCHECK("copyWithin", post_copy_within(r)); REACH(); }
//@unit name=copy_within_target tier=thorough enforce=TypedArray_prototype_copyWithin timeout=500
CW(target, 0)
//@unit name=copy_within_start tier=thorough enforce=TypedArray_prototype_copyWithin timeout=500
CW(start, 1)
//@unit name=copy_within_end tier=thorough enforce=TypedArray_prototype_copyWithin timeout=500
CW(end, 2)
//@unit name=copy_within_mix enforce=TypedArray_prototype_copyWithin timeout=500
CW(mix, 9)
/* slice: species result is any typed array vta[1] over buffer 1 */
static int post_slice(RJS_Result r)
{
    int64_t n = ta[0].array_length, k = sp_rel(g_args[0], 0, n, 0), fin = sp_rel(g_args[1], 1, n, n), cnt = fin - k > 0 ? fin - k : 0, e = sp_esz(ta[0].type);
    if (r == RJS_ERR) return S.copies == 0 && S.thrown;
    if (r < 0) return 0;
    if (cnt == 0) return S.copies == 0 || S.n == 0;
    return S.copies == 1 && S.cpos[0] == 1 && S.cpos[1] == 0 && S.n == (uint64_t)(cnt * e) && S.dst == ta[1].byte_offset && S.src == ta[0].byte_offset + k * e;
}
CONTRACT(static RJS_Result TypedArray_prototype_slice (RJS_Runtime *rt, RJS_Value *f, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *nt, RJS_Value *rv)
REQ(S.copies == 0 && ta[0].type == ta[1].type) ASG(STK, *rv, __CPROVER_object_whole(cargs)) ENS(post_slice(__CPROVER_return_value));)
#define SL(nm, w) void h_slice_##nm(void) { RJS_Runtime *rt = world(); int r; rel_args(w, 2); g_val = vta[0]; g_rv = VF_UNDEF; ctor_result = vta[1]; \
    set_realm(rt); ASSUME(ta[0].type == ta[1].type); \
    r = TypedArray_prototype_slice(rt, NULL, &g_val, g_args, 2, NULL, &g_rv); \
    NCHECK("slice", post_slice(r)); REACH(); }
//@unit name=slice_start tier=thorough enforce=TypedArray_prototype_slice unwindset=TypedArray_prototype_slice_wrapped_for_contract_checking.0:1 timeout=500 desc="same element type (block copy); the element-by-element path uses the internal methods proved above"
SL(start, 0)
//@unit name=slice_end tier=thorough enforce=TypedArray_prototype_slice unwindset=TypedArray_prototype_slice_wrapped_for_contract_checking.0:1 timeout=500
SL(end, 1)
//@unit name=slice_mix enforce=TypedArray_prototype_slice unwindset=TypedArray_prototype_slice_wrapped_for_contract_checking.0:1 timeout=500
SL(mix, 9)
/* subarray passes buffer, offset and length to the constructor */
static int post_subarray(RJS_Result r)
{
    int64_t n = ta[0].array_length, k = sp_rel(g_args[0], 0, n, 0), fin = sp_rel(g_args[1], 1, n, n), cnt = fin - k > 0 ? fin - k : 0, e = sp_esz(ta[0].type);
    if (r == RJS_ERR) return S.thrown != 0;
    return cargs[0] == vab[0] && sp_int_is(vf_num(cargs[1]), ta[0].byte_offset + k * e) && sp_int_is(vf_num(cargs[2]), cnt);
}
CONTRACT(static RJS_Result TypedArray_prototype_subarray (RJS_Runtime *rt, RJS_Value *f, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *nt, RJS_Value *rv)
ASG(STK, *rv, __CPROVER_object_whole(cargs)) ENS(post_subarray(__CPROVER_return_value));)
#define SUB(nm, w) void h_subarray_##nm(void) { RJS_Runtime *rt = world(); int r; rel_args(w, 2); g_val = vta[0]; g_rv = VF_UNDEF; ctor_result = vta[1]; \
    set_realm(rt); \
    r = TypedArray_prototype_subarray(rt, NULL, &g_val, g_args, 2, NULL, &g_rv); \
    NCHECK("subarray", post_subarray(r)); REACH(); }
//@unit name=subarray_start tier=thorough enforce=TypedArray_prototype_subarray timeout=500
SUB(start, 0)
//@unit name=subarray_end tier=thorough enforce=TypedArray_prototype_subarray timeout=500
SUB(end, 1)
//@unit name=subarray_mix enforce=TypedArray_prototype_subarray timeout=500
SUB(mix, 9)
/* set(typedArray, offset): target ta[0], source ta[1] over another buffer, or over the same one (cloned first) */
static int g_same; static double g_offn;
static int post_set_ta(RJS_Result r)
{
    uint64_t e = sp_esz(ta[0].type), n = ta[1].array_length, off;
    if (r == RJS_ERR) return S.copies == 0 && S.acc == 0 && S.thrown;
    if (r != RJS_OK || sp_exp(g_offn) >= 1023 + 53) return 0;
    off = sp_trunc_mod64(g_offn);
    if (off > ta[0].array_length || n > ta[0].array_length - off) return 0;
    return S.copies == 1 && S.n == n * e && S.dst == ta[0].byte_offset + off * e && S.src == (g_same ? 0 : ta[1].byte_offset);
}
CONTRACT(static RJS_Result set_typed_array_from_typed_array (RJS_Runtime *rt, RJS_Value *target, RJS_Number offset, RJS_Value *source)
REQ(S.copies == 0 && S.acc == 0 && ta[0].type == ta[1].type) ASG(STK, blk) ENS(post_set_ta(__CPROVER_return_value));)
static void set_ta_world(void)
{
    g_same = IN_RANGE(50, 0, 1);
    g_offn = IN_DBL(51); ASSUME(g_offn >= 0 && (g_offn > 9007199254740992.0 || g_offn == (double)(uint64_t)g_offn));
    if (g_same) { ta[1].buffer = vab[0];
        ASSUME(ta[1].byte_offset <= ab[0].byte_length && ta[1].byte_length <= ab[0].byte_length - ta[1].byte_offset); }
    Q.initdet = 0;
}
//@unit name=set_ta enforce=set_typed_array_from_typed_array unwindset=set_typed_array_from_typed_array_wrapped_for_contract_checking.0:1 timeout=500
void h_set_ta(void) { RJS_Runtime *rt = world(); int r; set_ta_world(); ASSUME(ta[0].type == ta[1].type); g_val = vta[0]; g_rec = vta[1];
    g_offn = small_num(60); ASSUME(g_offn >= 0 && ta[0].array_length <= 100 && ta[1].array_length <= 100);
    set_realm(rt);
    r = set_typed_array_from_typed_array(rt, &g_val, g_offn, &g_rec);
    NCHECK("set from typed array", post_set_ta(r)); REACH(); }
//@unit name=set_ta_any tier=thorough enforce=set_typed_array_from_typed_array unwindset=set_typed_array_from_typed_array_wrapped_for_contract_checking.0:1 timeout=500
void h_set_ta_any(void) { RJS_Runtime *rt = world(); int r; set_ta_world(); ASSUME(ta[0].type == ta[1].type); g_val = vta[0]; g_rec = vta[1];
    set_realm(rt);
    r = set_typed_array_from_typed_array(rt, &g_val, g_offn, &g_rec);
    NCHECK("set from typed array", post_set_ta(r)); REACH(); }
