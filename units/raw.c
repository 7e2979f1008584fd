/* C04/C05: raw element bytes <-> values. */
#include "vf.h"
#define rjs_big_int_from_uint64 vf_big_int_from_uint64
#define rjs_big_int_from_int64 vf_big_int_from_int64
#define rjs_big_int_to_uint64 vf_big_int_to_uint64
#define rjs_big_int_to_int64 vf_big_int_to_int64
#include "lib/rjs_data_block_opt.c"
#include "lib/rjs_array_buffer_opt.c"
#include "vf_rt.h"
#include "vf_spec.h"

//@assume conversions between BigInt and 64-bit integers are C08's; here they are arbitrary-result stubs whose operand and result are fixed
//@default props=C05 unwind=20
static uint64_t vf_bi_from; static int vf_bi_kind; static uint64_t vf_bi_to;
#define BIVAL ((((RJS_Value)RJS_VALUE_TAG_BIG_INT) << 48) | 0x1000)
RJS_Result vf_big_int_from_uint64 (RJS_Runtime *rt, RJS_Value *v, uint64_t x)
{ vf_bi_from = x; vf_bi_kind = 1; *rjs_value_get_pointer(rt, v) = BIVAL; return RJS_OK; }
RJS_Result vf_big_int_from_int64 (RJS_Runtime *rt, RJS_Value *v, int64_t x)
{ vf_bi_from = x; vf_bi_kind = 2; *rjs_value_get_pointer(rt, v) = BIVAL; return RJS_OK; }
RJS_Result vf_big_int_to_uint64 (RJS_Runtime *rt, RJS_Value *v, uint64_t *p) { *p = vf_bi_to; return RJS_OK; }
RJS_Result vf_big_int_to_int64 (RJS_Runtime *rt, RJS_Value *v, int64_t *p) { *p = (int64_t)vf_bi_to; return RJS_OK; }

#define ESZ(t) ((t) == RJS_ARRAY_ELEMENT_UINT8 || (t) == RJS_ARRAY_ELEMENT_INT8 || (t) == RJS_ARRAY_ELEMENT_UINT8C ? 1 : \
    (t) == RJS_ARRAY_ELEMENT_UINT16 || (t) == RJS_ARRAY_ELEMENT_INT16 ? 2 : \
    (t) == RJS_ARRAY_ELEMENT_UINT32 || (t) == RJS_ARRAY_ELEMENT_INT32 || (t) == RJS_ARRAY_ELEMENT_FLOAT32 ? 4 : 8)
/* the integer the element's bytes denote */
static uint64_t sp_bytes(const uint8_t *b, int n, int le)
{
    uint64_t x = 0; int i;
    for (i = 0; i < 8; i ++) if (i < n) x |= (uint64_t)b[le ? i : n - 1 - i] << (8 * i);
    return x;
}
/* one of the canonical NaNs (the verifier folds the NAN macro to a pattern of its own) */
#define CANON(x) (((x) << 1) == 0xfff0000000000000ull || (x) == vf_dbits(0.0 / 0.0))
static int post_load(const uint8_t *b, RJS_ArrayElementType t, int le, RJS_Value got)
{
    uint64_t x = sp_bytes(b, ESZ(t), le); int64_t i; double d;
    switch (t) {
    case RJS_ARRAY_ELEMENT_BIGUINT64: return got == BIVAL && vf_bi_kind == 1 && vf_bi_from == x;
    case RJS_ARRAY_ELEMENT_BIGINT64:  return got == BIVAL && vf_bi_kind == 2 && vf_bi_from == x;
    case RJS_ARRAY_ELEMENT_FLOAT64:
        if (((x >> 52) & 0x7ff) == 0x7ff && (x & 0xfffffffffffffull)) return CANON(got);
        return got == x;
    case RJS_ARRAY_ELEMENT_FLOAT32: {
        uint64_t s = x >> 31, e = (x >> 23) & 0xff, m = x & 0x7fffff; int sh;
        if (e == 0xff) return m ? CANON(got) : got == ((s << 63) | 0x7ff0000000000000ull);
        if (e == 0 && m == 0) return got == s << 63;
        if (e == 0) { for (sh = 0; sh < 23 && !(m & 0x800000); sh ++) m <<= 1; e = 1 - sh; m &= 0x7fffff; }
        return got == ((s << 63) | ((e + 896) << 52) | (m << 29)); }
    case RJS_ARRAY_ELEMENT_INT8:  i = (int8_t)x; break;
    case RJS_ARRAY_ELEMENT_INT16: i = (int16_t)x; break;
    case RJS_ARRAY_ELEMENT_INT32: i = (int32_t)x; break;
    default: i = (int64_t)x;
    }
    d = vf_num(got);
    return vf_is_num(got) && sp_int_is(d, i);
}
static size_t vf_esz;
static uint8_t buf[24];
static uint8_t obuf[24];
static RJS_Value s_out;
CONTRACT(RJS_Result rjs_get_value_from_raw (RJS_Runtime *rt, const uint8_t *b, RJS_ArrayElementType type, RJS_Bool le, RJS_Value *v)
ASG(*v, vf_bi_from, vf_bi_kind) ENS(__CPROVER_return_value == RJS_OK && post_load(b, type, le != 0, *v));)
static RJS_ArrayElementType types[] = { RJS_ARRAY_ELEMENT_UINT8, RJS_ARRAY_ELEMENT_INT8, RJS_ARRAY_ELEMENT_UINT8C, RJS_ARRAY_ELEMENT_UINT16,
    RJS_ARRAY_ELEMENT_INT16, RJS_ARRAY_ELEMENT_UINT32, RJS_ARRAY_ELEMENT_INT32, RJS_ARRAY_ELEMENT_FLOAT32, RJS_ARRAY_ELEMENT_FLOAT64,
    RJS_ARRAY_ELEMENT_BIGUINT64, RJS_ARRAY_ELEMENT_BIGINT64 };
static void load(RJS_ArrayElementType t)
{
    RJS_Runtime *rt = vf_rt(); int i, off, le; RJS_Result r;
    for (i = 0; i < 24; i ++) buf[i] = (uint8_t)IN64(i);
    off = IN_RANGE(24, 0, 16); le = IN_RANGE(25, 0, 1);
    vf_bi_kind = 0; s_out = VF_UNDEF;
    r = rjs_get_value_from_raw(rt, buf + off, t, le, &s_out);
    NCHECK("post", r == RJS_OK && post_load(buf + off, t, le, s_out));
    REACH();
}
#define LOAD(nm, T) void h_load_##nm(void) { load(RJS_ARRAY_ELEMENT_##T); }
//@unit name=load_u8 enforce=rjs_get_value_from_raw props=C05,C04 unwind=25
LOAD(u8, UINT8)
//@unit name=load_i8 enforce=rjs_get_value_from_raw unwind=25
LOAD(i8, INT8)
//@unit name=load_u8c enforce=rjs_get_value_from_raw unwind=25
LOAD(u8c, UINT8C)
//@unit name=load_u16 enforce=rjs_get_value_from_raw unwind=25
LOAD(u16, UINT16)
//@unit name=load_i16 enforce=rjs_get_value_from_raw unwind=25
LOAD(i16, INT16)
//@unit name=load_u32 enforce=rjs_get_value_from_raw unwind=25
LOAD(u32, UINT32)
//@unit name=load_i32 enforce=rjs_get_value_from_raw unwind=25
LOAD(i32, INT32)
//@unit name=load_f32 enforce=rjs_get_value_from_raw props=C05,C04 unwind=25
LOAD(f32, FLOAT32)
//@unit name=load_f64 enforce=rjs_get_value_from_raw props=C05,C04 unwind=25
LOAD(f64, FLOAT64)
//@unit name=load_bu64 enforce=rjs_get_value_from_raw unwind=25
LOAD(bu64, BIGUINT64)
//@unit name=load_bi64 enforce=rjs_get_value_from_raw unwind=25
LOAD(bi64, BIGINT64)

/* ---- stores ---- */
static uint64_t sp_clamp8(double d)
{
    int e = sp_exp(d); uint64_t m, ip, fr, half; int s;
    if (sp_isnan(d) || vf_neg(d)) return 0;
    if (e >= 1023 + 8) return 255;
    if (e < 1022) return 0;
    m = sp_man(d) | 0x10000000000000ull; s = 1075 - e;
    ip = m >> s; fr = m & ((1ull << s) - 1); half = 1ull << (s - 1);
    if (fr > half || (fr == half && (ip & 1))) ip ++;
    return ip > 255 ? 255 : ip;
}
/* binary32 nearest-even encoding of a binary64, in integer arithmetic */
static uint32_t sp_f32(double d)
{
    uint64_t b = vf_dbits(d), m = b & 0xfffffffffffffull; uint32_t s = (uint32_t)(b >> 63) << 31; int e = (int)((b >> 52) & 0x7ff), sh; uint64_t q, rem, half;
    if (e == 0x7ff) return s | 0x7f800000u | (m ? 0x400000u : 0);
    if (e < 1023 - 150) return s;
    m |= 0x10000000000000ull;
    sh = e >= 1023 - 126 ? 29 : 29 + (1023 - 126 - e);
    q = m >> sh; rem = m & ((1ull << sh) - 1); half = 1ull << (sh - 1);
    if (rem > half || (rem == half && (q & 1))) q ++;
    if (e >= 1023 - 126) q += (uint64_t)(e - (1023 - 126)) << 23;    /* hidden bit carries into the exponent */
    if (q >= 0x7f800000u) return s | 0x7f800000u;
    return s | (uint32_t)q;
}
static int post_store(const uint8_t *b, RJS_ArrayElementType t, int le, RJS_Value v)
{
    uint64_t x = sp_bytes(b, ESZ(t), le); double d;
    if (t == RJS_ARRAY_ELEMENT_BIGUINT64 || t == RJS_ARRAY_ELEMENT_BIGINT64) return x == vf_bi_to;
    d = vf_num(v);
    switch (t) {
    case RJS_ARRAY_ELEMENT_FLOAT64: return sp_isnan(d) ? (x & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (x << 12) : x == vf_dbits(d);
    case RJS_ARRAY_ELEMENT_FLOAT32: return sp_isnan(d) ? (x & 0x7f800000u) == 0x7f800000u && (x & 0x7fffff) : x == sp_f32(d);
    case RJS_ARRAY_ELEMENT_UINT8C:  return x == sp_clamp8(d);
    default: return x == (sp_trunc_mod64(d) & ((1ull << (8 * ESZ(t))) - 1));
    }
}
CONTRACT(RJS_Result rjs_set_value_in_raw (RJS_Runtime *rt, uint8_t *b, RJS_ArrayElementType type, RJS_Value *v, RJS_Bool le)
REQ(vf_esz == (size_t)ESZ(type)) ASG(__CPROVER_object_upto(b, vf_esz)) ENS(__CPROVER_return_value == RJS_OK && post_store(b, type, le != 0, *v));)
static void store(RJS_ArrayElementType t)
{
    RJS_Runtime *rt = vf_rt(); int i, off, le; RJS_Result r; RJS_Value v;
    for (i = 0; i < 24; i ++) obuf[i] = buf[i] = (uint8_t)IN64(i);
    off = IN_RANGE(24, 0, 16); le = IN_RANGE(25, 0, 1);
    vf_bi_to = IN64(27); vf_esz = ESZ(t);
    if (t == RJS_ARRAY_ELEMENT_BIGUINT64 || t == RJS_ARRAY_ELEMENT_BIGINT64) v = BIVAL;
    else { v = IN64(26); ASSUME(vf_num_ok(v)); }
    r = rjs_set_value_in_raw(rt, buf + off, t, &v, le);
    NCHECK("post", r == RJS_OK && post_store(buf + off, t, le, v));
    for (i = 0; i < 24; i ++)
        if (i < off || i >= off + ESZ(t)) NCHECK("no other byte changed", obuf[i] == buf[i]);
    REACH();
}
#define STORE(nm, T) void h_store_##nm(void) { store(RJS_ARRAY_ELEMENT_##T); }
//@unit name=store_u8 enforce=rjs_set_value_in_raw unwind=25
STORE(u8, UINT8)
//@unit name=store_i8 enforce=rjs_set_value_in_raw unwind=25
STORE(i8, INT8)
//@unit name=store_u8c enforce=rjs_set_value_in_raw unwind=25
STORE(u8c, UINT8C)
//@unit name=store_u16 enforce=rjs_set_value_in_raw unwind=25
STORE(u16, UINT16)
//@unit name=store_i16 enforce=rjs_set_value_in_raw unwind=25
STORE(i16, INT16)
//@unit name=store_u32 enforce=rjs_set_value_in_raw unwind=25
STORE(u32, UINT32)
//@unit name=store_i32 enforce=rjs_set_value_in_raw unwind=25
STORE(i32, INT32)
//@unit name=store_f32 enforce=rjs_set_value_in_raw unwind=25
STORE(f32, FLOAT32)
//@unit name=store_f64 enforce=rjs_set_value_in_raw unwind=25
STORE(f64, FLOAT64)
//@unit name=store_bu64 enforce=rjs_set_value_in_raw unwind=25
STORE(bu64, BIGUINT64)
//@unit name=store_bi64 enforce=rjs_set_value_in_raw unwind=25
STORE(bi64, BIGINT64)

/* ---- buffer accesses by byte index: the element at byte_idx of the buffer's own data ---- */
static RJS_ArrayBuffer s_ab; static RJS_DataBlock s_blk; static RJS_ObjectOps s_ops; static RJS_Value s_abv;
static RJS_Runtime *buf_world(void)
{
    RJS_Runtime *rt = vf_rt(); int i;
    for (i = 0; i < 24; i ++) obuf[i] = buf[i] = (uint8_t)IN64(i);
    s_ops.gc_thing_ops.type = RJS_GC_THING_ARRAY_BUFFER;
    s_ab.object.gc_thing.ops = (RJS_GcThingOps*)&s_ops; s_ab.byte_length = 24; s_ab.data_block = &s_blk;
    s_blk.data = buf; s_blk.size = 24; s_blk.flags = 0;
    s_abv = vf_new_thing(RJS_VALUE_TAG_OBJECT, &s_ab);
    return rt;
}
CONTRACT(RJS_Result rjs_get_value_from_buffer (RJS_Runtime *rt, RJS_Value *abv, size_t byte_idx, RJS_ArrayElementType type, RJS_Bool le, RJS_Value *v)
ASG(*v, vf_bi_from, vf_bi_kind) ENS(__CPROVER_return_value == RJS_OK && post_load(buf + byte_idx, type, le != 0, *v));)
CONTRACT(RJS_Result rjs_set_value_in_buffer (RJS_Runtime *rt, RJS_Value *abv, size_t byte_idx, RJS_ArrayElementType type, RJS_Value *v, RJS_Bool le)
ASG(__CPROVER_object_whole(buf)) ENS(__CPROVER_return_value == RJS_OK && post_store(buf + byte_idx, type, le != 0, *v) && post_frame(byte_idx, ESZ(type)));)
static int post_frame(size_t off, size_t n) { int i; for (i = 0; i < 24; i ++) if ((i < off || i >= off + n) && obuf[i] != buf[i]) return 0; return 1; }
#define BUFIO(nm, T) \
void h_bufget_##nm(void) { RJS_Runtime *rt = buf_world(); int off = IN_RANGE(24, 0, 24 - ESZ(RJS_ARRAY_ELEMENT_##T)), le = IN_RANGE(25, 0, 1); RJS_Result r; s_out = VF_UNDEF; vf_bi_kind = 0; \
    r = rjs_get_value_from_buffer(rt, &s_abv, off, RJS_ARRAY_ELEMENT_##T, le, &s_out); \
    NCHECK("element at the byte index", r == RJS_OK && post_load(buf + off, RJS_ARRAY_ELEMENT_##T, le, s_out)); REACH(); } \
void h_bufset_##nm(void) { RJS_Runtime *rt = buf_world(); int off = IN_RANGE(24, 0, 24 - ESZ(RJS_ARRAY_ELEMENT_##T)), le = IN_RANGE(25, 0, 1); RJS_Result r; RJS_Value v = IN64(26); ASSUME(vf_num_ok(v)); \
    r = rjs_set_value_in_buffer(rt, &s_abv, off, RJS_ARRAY_ELEMENT_##T, &v, le); \
    NCHECK("element at the byte index", r == RJS_OK && post_store(buf + off, RJS_ARRAY_ELEMENT_##T, le, v) && post_frame(off, ESZ(RJS_ARRAY_ELEMENT_##T))); REACH(); }
//@default props=C05,C06 unwind=25 calls=VF_BOX
//@unit name=bufget_u8 enforce=rjs_get_value_from_buffer
//@unit name=bufset_u8 enforce=rjs_set_value_in_buffer
BUFIO(u8, UINT8)
//@unit name=bufget_i32 enforce=rjs_get_value_from_buffer
//@unit name=bufset_i16 enforce=rjs_set_value_in_buffer
BUFIO(i32, INT32)
BUFIO(i16, INT16)
static int post_detached(RJS_Value v, RJS_Bool r) { return r == (v == VF_UNDEF ? RJS_FALSE : s_ab.data_block ? RJS_FALSE : RJS_TRUE); }
CONTRACT(RJS_Bool rjs_is_detached_buffer (RJS_Runtime *rt, RJS_Value *v) ASG() ENS(post_detached(*v, __CPROVER_return_value));)
//@unit name=is_detached enforce=rjs_is_detached_buffer
void h_is_detached(void) { RJS_Runtime *rt = buf_world(); int r; RJS_Value v; if (IN_RANGE(24, 0, 1)) s_ab.data_block = NULL;
    v = IN_RANGE(25, 0, 1) ? s_abv : VF_UNDEF;
    r = rjs_is_detached_buffer(rt, &v);
    NCHECK("detached exactly when it has no block", post_detached(v, r)); REACH(); }
static int s_had, s_ref;
static int post_detach(RJS_Result r) { return r == RJS_OK && s_ab.data_block == NULL && (!s_had || s_ab.byte_length == 0) && s_blk.ref == s_ref - s_had; }
CONTRACT(RJS_Result rjs_detach_array_buffer (RJS_Runtime *rt, RJS_Value *abv) ASG(s_ab, s_blk) ENS(post_detach(__CPROVER_return_value));)
//@unit name=detach enforce=rjs_detach_array_buffer
void h_detach(void) { RJS_Runtime *rt = buf_world(); int r; s_blk.ref = s_ref = (int)IN_RANGE(24, 2, 1000); s_had = IN_RANGE(25, 0, 1); if (!s_had) s_ab.data_block = NULL;
    r = rjs_detach_array_buffer(rt, &s_abv);
    NCHECK("detaching drops the block once", post_detach(r)); REACH(); }
