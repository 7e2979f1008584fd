/* C18: the comparisons of Array and TypedArray sort, and what is sorted. */
#include "vf.h"
#include "ratjs_internal.h"
#define memcpy vf_bytecpy
static void vf_bytecpy(void *d, const void *s, size_t n) { size_t i; uint8_t *p = d; const uint8_t *q = s; __CPROVER_assert(n <= 16, "vf: copies are small"); for (i = 0; i < 16; i ++) if (i < n) p[i] = q[i]; }
RJS_Result vf_call (RJS_Runtime *rt, RJS_Value *fn, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *rv);
RJS_Result vf_to_number (RJS_Runtime *rt, RJS_Value *v, RJS_Number *n);
RJS_Result vf_to_string (RJS_Runtime *rt, RJS_Value *v, RJS_Value *s);
RJS_CompareResult vf_str_cmp (RJS_Runtime *rt, RJS_Value *a, RJS_Value *b);
RJS_CompareResult vf_big_cmp (RJS_Runtime *rt, RJS_Value *a, RJS_Value *b);
void vf_from_raw (RJS_Runtime *rt, const uint8_t *b, RJS_ArrayElementType t, RJS_Bool le, RJS_Value *v);
RJS_Result vf_throw (RJS_Runtime *rt, const char *m, ...);
RJS_Result vf_to_object (RJS_Runtime *rt, RJS_Value *v, RJS_Value *o);
RJS_Result vf_len (RJS_Runtime *rt, RJS_Value *o, int64_t *pl);
RJS_Result vf_has (RJS_Runtime *rt, RJS_Value *o, RJS_Value *p);
RJS_Result vf_get (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_Value *pv);
RJS_Result vf_set_index (RJS_Runtime *rt, RJS_Value *o, int64_t i, RJS_Value *v, RJS_Bool th);
RJS_Result vf_delete (RJS_Runtime *rt, RJS_Value *o, int64_t i);
RJS_Result vf_array_new (RJS_Runtime *rt, RJS_Value *v, RJS_Number n, RJS_Value *proto);
RJS_Result vf_sort (void *base, size_t num, size_t size, RJS_CompareFunc f, void *arg);
void vf_pn (RJS_Runtime *rt, RJS_PropertyName *pn, RJS_Value *v);
void *vf_alloc (RJS_Runtime *rt, size_t n);
void vf_free (RJS_Runtime *rt, void *p, size_t n);
void vf_gc_add (RJS_Runtime *rt, void *p, const RJS_GcThingOps *ops);
void vf_set_gc (RJS_Runtime *rt, RJS_Value *v, void *p);
RJS_Bool vf_detached (RJS_Runtime *rt, RJS_Value *v);
#define rjs_call vf_call
#define rjs_to_number vf_to_number
#define rjs_to_string vf_to_string
#define rjs_string_compare vf_str_cmp
#define rjs_big_int_compare vf_big_cmp
#define rjs_get_value_from_raw vf_from_raw
#define rjs_throw_type_error vf_throw
#define rjs_to_object vf_to_object
#define rjs_length_of_array_like vf_len
#define rjs_has_property vf_has
#define rjs_get vf_get
#define rjs_set_index vf_set_index
#define rjs_delete_property_or_throw_index vf_delete
#define rjs_array_new vf_array_new
#define rjs_sort vf_sort
#define rjs_property_name_init vf_pn
#define rjs_property_name_deinit(rt, pn) ((void)0)
#define rjs_alloc_assert vf_alloc
#define rjs_free vf_free
#define rjs_gc_add vf_gc_add
#define rjs_value_set_gc_thing vf_set_gc
#define rjs_is_callable(rt, v) (*(v) == FN)
#define rjs_is_detached_buffer vf_detached
#define rjs_data_block_ref(db) (s_ref ++, (db))
#define rjs_data_block_unref(db) ((void)s_ref --)
#define rjs_data_block_get_buffer(db) ((db)->data)
#define FN ((((RJS_Value)RJS_VALUE_TAG_INDEX_STRING) << 48) | 77)
static int s_ref;
#include "lib/rjs_array_object_inc.c"
#include "lib/rjs_typed_array_object_inc.c"
#undef rjs_is_callable
#undef memcpy
#include "vf_rt.h"
//@assume the object operations (Get, HasProperty, Set, DeletePropertyOrThrow, Call, ToNumber, ToString) are arbitrary-result stubs; rjs_sort is units/sort.c
//@default props=C18 unwind=9 dfcc=0 calls=VF_BOX,VF_DIR
#define NM(k) ((((RJS_Value)RJS_VALUE_TAG_INDEX_STRING) << 48) | (k))
static RJS_Value g_v[2], g_cmp, g_obj, g_new, g_args[1], g_rv, g_el[4], g_out[4], g_perm[4]; static RJS_Number g_n; static int s_throw, s_called, s_conv, s_str, s_scmp, s_bcmp, g_fail, g_ans, g_has[4], g_len, s_sort, s_ops, s_set, s_del, s_bad, g_sorted, g_own, s_alloc, s_free, s_raw;
RJS_Result vf_throw (RJS_Runtime *rt, const char *m, ...) { s_throw ++; return RJS_ERR; }
RJS_Result vf_call (RJS_Runtime *rt, RJS_Value *fn, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *rv)
{
    RJS_Value *a = rjs_value_get_pointer(rt, args);
    CHECK("the comparison is called with the two elements in order", *rjs_value_get_pointer(rt, fn) == FN && *rjs_value_get_pointer(rt, thiz) == VF_UNDEF && argc == 2 && a[0] == g_v[0] && a[1] == g_v[1]);
    s_called ++; if (g_fail == 1) return RJS_ERR; rv = rjs_value_get_pointer(rt, rv); *rv = NM(5); return RJS_OK;
}
RJS_Result vf_to_number (RJS_Runtime *rt, RJS_Value *v, RJS_Number *n) { CHECK("its answer is converted", *rjs_value_get_pointer(rt, v) == NM(5) && s_called == 1); s_conv ++; if (g_fail == 2) return RJS_ERR; *n = g_n; return RJS_OK; }
static int g_sorting;
RJS_Result vf_to_string (RJS_Runtime *rt, RJS_Value *v, RJS_Value *s)
{
    RJS_Value x = *rjs_value_get_pointer(rt, v); s = rjs_value_get_pointer(rt, s);
    if (g_sorting) { *s = NM((int)vf_num(x)); return RJS_OK; }
    CHECK("elements are compared as strings in order", s_str < 2 && x == g_v[s_str]); s_str ++; if (g_fail == s_str) return RJS_ERR; *s = NM(10 + s_str); return RJS_OK;
}
RJS_CompareResult vf_str_cmp (RJS_Runtime *rt, RJS_Value *a, RJS_Value *b) { CHECK("first with second", *rjs_value_get_pointer(rt, a) == NM(11) && *rjs_value_get_pointer(rt, b) == NM(12)); s_scmp ++; return g_ans; }
RJS_CompareResult vf_big_cmp (RJS_Runtime *rt, RJS_Value *a, RJS_Value *b) { CHECK("first with second", *rjs_value_get_pointer(rt, a) == g_v[0] && *rjs_value_get_pointer(rt, b) == g_v[1]); s_bcmp ++; return g_ans; }
static uint8_t rawm[16];
void vf_from_raw (RJS_Runtime *rt, const uint8_t *b, RJS_ArrayElementType t, RJS_Bool le, RJS_Value *v) { CHECK("the two elements, native order", (b == rawm || b == rawm + 8) && (int)t == g_own && !!le == !!rjs_is_little_endian()); s_raw ++; v = rjs_value_get_pointer(rt, v); *v = g_v[b == rawm + 8]; }
static RJS_Value anyv(int in, int undef) { uint64_t x = IN64(in); if (undef && IN_RANGE(in + 1, 0, 3) == 0) return VF_UNDEF; ASSUME(vf_num_ok(x)); return x; }
static RJS_Runtime *world(void) { s_ref = s_throw = s_called = s_conv = s_str = s_scmp = s_bcmp = s_sort = s_ops = s_set = s_del = s_bad = s_alloc = s_free = s_raw = 0; g_sorting = 0; g_rv = VF_NULL; return vf_rt(); }
static void answer(void) { uint64_t x = IN64(8); ASSUME(vf_num_ok(x)); g_n = vf_num(x); g_fail = (int)IN_RANGE(9, 0, 2); g_ans = (int)IN_RANGE(10, 0, 2); g_cmp = IN_RANGE(11, 0, 1) ? FN : VF_UNDEF; }
#define SIGN(n) ((n) < 0 ? RJS_COMPARE_LESS : (n) > 0 ? RJS_COMPARE_GREATER : RJS_COMPARE_EQUAL)
//@unit name=array_compare fns=array_item_compare_fn
void h_array_compare(void)
{
    RJS_Runtime *rt = world(); RJS_ArrayCompareParams p; int r; size_t top = rjs_value_stack_save(rt);
    g_v[0] = anyv(0, 1); g_v[1] = anyv(2, 1); answer(); p.rt = rt; p.cmp_fn = &g_cmp;
    r = array_item_compare_fn(&g_v[0], &g_v[1], &p);
    if (g_v[0] == VF_UNDEF || g_v[1] == VF_UNDEF) CHECK("undefined is last, without a call", r == (g_v[0] == g_v[1] ? RJS_COMPARE_EQUAL : g_v[0] == VF_UNDEF ? RJS_COMPARE_GREATER : RJS_COMPARE_LESS) && !s_called && !s_str);
    else if (g_fail) CHECK("an exception is reported as one", r == RJS_ERR);
    else if (g_cmp == FN) CHECK("the sign of the answer, NaN as 0", r == SIGN(g_n) && s_called == 1 && s_conv == 1);
    else CHECK("as strings", r == g_ans && s_scmp == 1 && s_str == 2);
    CHECK("value stack restored", rjs_value_stack_save(rt) == top); REACH();
}
//@unit name=typed_compare fns=typed_array_element_cmp
void h_typed_compare(void)
{
    RJS_Runtime *rt = world(); RJS_TypedArrayCmpParams p; int r; double x, y; size_t top = rjs_value_stack_save(rt);
    g_v[0] = anyv(0, 0); g_v[1] = anyv(2, 0); answer(); p.rt = rt; p.cmp = &g_cmp; p.type = g_own = (int)IN_RANGE(12, 0, RJS_ARRAY_ELEMENT_BIGUINT64);
    r = typed_array_element_cmp(rawm, rawm + 8, &p); x = vf_num(g_v[0]); y = vf_num(g_v[1]);
    if (g_cmp == FN) { if (g_fail) CHECK("an exception is reported as one", r == RJS_ERR); else CHECK("the sign of the answer, NaN as 0", r == SIGN(g_n) && s_called == 1 && s_conv == 1); }
    else if (g_own == RJS_ARRAY_ELEMENT_BIGINT64 || g_own == RJS_ARRAY_ELEMENT_BIGUINT64) CHECK("BigInts by value", r == g_ans && s_bcmp == 1);
    else CHECK("Numbers ascending, -0 before +0, NaN last", r == (x != x ? (y != y ? RJS_COMPARE_EQUAL : RJS_COMPARE_GREATER) : y != y ? RJS_COMPARE_LESS : x < y ? RJS_COMPARE_LESS : x > y ? RJS_COMPARE_GREATER : x != 0 ? RJS_COMPARE_EQUAL : (int)(g_v[0] >> 63) == (int)(g_v[1] >> 63) ? RJS_COMPARE_EQUAL : g_v[0] >> 63 ? RJS_COMPARE_LESS : RJS_COMPARE_GREATER));
    CHECK("value stack restored", s_raw == 2 && rjs_value_stack_save(rt) == top); REACH();
}
/* sort and toSorted: operations in order, any of which may throw (the g_fail-th) */
static struct { RJS_ValueBuffer vb; RJS_Value room[4]; } buf; static uint8_t cpy[16]; static int g_typed;
static int op(void) { return ++ s_ops == g_fail; }
void *vf_alloc (RJS_Runtime *rt, size_t n) { s_alloc ++; if (g_typed) { CHECK("room for all", n == (size_t)g_len); return cpy; } CHECK("room for all", n == sizeof(RJS_ValueBuffer) + 8 * g_len); return &buf; }
void vf_free (RJS_Runtime *rt, void *p, size_t n) { s_free ++; CHECK("the copy is released with its size", p == cpy && n == (size_t)g_len); }
void vf_gc_add (RJS_Runtime *rt, void *p, const RJS_GcThingOps *ops) { if (p != &buf || ops != &value_buffer_ops) s_bad = 1; }
void vf_set_gc (RJS_Runtime *rt, RJS_Value *v, void *p) { if (p != &buf) s_bad = 1; }
RJS_Result vf_to_object (RJS_Runtime *rt, RJS_Value *v, RJS_Value *o) { if (op()) return RJS_ERR; o = rjs_value_get_pointer(rt, o); *o = g_obj; return RJS_OK; }
RJS_Result vf_len (RJS_Runtime *rt, RJS_Value *o, int64_t *pl) { if (op()) return RJS_ERR; *pl = g_len; return RJS_OK; }
static int g_at;
RJS_Result vf_has (RJS_Runtime *rt, RJS_Value *o, RJS_Value *p) { int k = (int)(*rjs_value_get_pointer(rt, p) & 0xff); if (op()) return RJS_ERR; if (k >= g_len || *rjs_value_get_pointer(rt, o) != g_obj) { s_bad = 1; return RJS_FALSE; } g_at = k; return g_has[k] ? RJS_TRUE : RJS_FALSE; }
void vf_pn (RJS_Runtime *rt, RJS_PropertyName *pn, RJS_Value *v) { pn->name = v; }
RJS_Result vf_get (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_Value *pv) { int k = (int)(*rjs_value_get_pointer(rt, pn->name) & 0xff); if (op()) return RJS_ERR; if (k >= g_len || k != g_at || !g_has[k] || *rjs_value_get_pointer(rt, o) != g_obj) { s_bad = 1; return RJS_ERR; } pv = rjs_value_get_pointer(rt, pv); *pv = g_el[k]; return RJS_OK; }
RJS_Result vf_array_new (RJS_Runtime *rt, RJS_Value *v, RJS_Number n, RJS_Value *proto) { if (op()) return RJS_ERR; if (n != g_len || proto) s_bad = 1; v = rjs_value_get_pointer(rt, v); *v = g_new; return RJS_OK; }
RJS_Result vf_set_index (RJS_Runtime *rt, RJS_Value *o, int64_t i, RJS_Value *v, RJS_Bool th) { if (op()) return RJS_ERR; if (*rjs_value_get_pointer(rt, o) != (g_own ? g_new : g_obj) || i != s_set || i >= g_len || !th || !s_sort || s_del) { s_bad = 1; return RJS_ERR; } g_out[i] = *rjs_value_get_pointer(rt, v); s_set ++; return RJS_OK; }
RJS_Result vf_delete (RJS_Runtime *rt, RJS_Value *o, int64_t i) { if (op()) return RJS_ERR; if (*rjs_value_get_pointer(rt, o) != g_obj || i != s_set + s_del || i >= g_len || !s_sort) s_bad = 1; s_del ++; return RJS_OK; }
#ifndef VF_NATIVE
#define NOT_IN(q, m) (__CPROVER_POINTER_OBJECT(q) != __CPROVER_POINTER_OBJECT(m))
#else
#define NOT_IN(q, m) ((q) < (m) || (q) >= (m) + sizeof(m))
#endif
static RJS_DataBlock db; static RJS_ArrayBuffer ab; static RJS_IntIndexedObject iio; static uint8_t mem[64]; static int g_off, g_es; static uint8_t g_mem0[64];
RJS_Bool vf_detached (RJS_Runtime *rt, RJS_Value *v) { return g_has[0]; }
RJS_Result vf_sort (void *base, size_t num, size_t size, RJS_CompareFunc f, void *arg)
{
    RJS_Value *e = base; int i, n = 0; uint8_t *q = base;
    s_sort ++;
    if (g_typed) {
        RJS_TypedArrayCmpParams *p = arg;
        CHECK("all elements, by the element comparison, on a copy the comparison function cannot reach", f == typed_array_element_cmp && (int)size == g_es && num * size == (size_t)g_len && p->cmp == &g_args[0] && p->type == iio.type && NOT_IN(q, mem) && s_ref == 1);
        for (i = 0; i < 16; i ++) if (i < g_len) { CHECK("a faithful copy", q[i] == g_mem0[g_off + i]); }
        if (op()) return RJS_ERR;
        for (i = 0; i < 16; i ++) if (i < g_len) q[i] ^= 0x5a;
        return RJS_OK;
    }
    CHECK("all elements are sorted together, by the array comparison", num == (size_t)g_len && size == sizeof(RJS_Value) && f == array_item_compare_fn && ((RJS_ArrayCompareParams*)arg)->cmp_fn == &g_args[0] && ((RJS_ArrayCompareParams*)arg)->rt);
    for (i = 0; i < 3; i ++) if (i < g_len && g_has[i]) { CHECK("every present element, once", e[n] == g_el[i]); n ++; }
    for (i = 0; i < 3; i ++) if (i < g_len && i >= n) CHECK("undefined for the rest", e[i] == VF_UNDEF);
    if (op()) return RJS_ERR;
    for (i = 0; i < 3; i ++) if (i < g_len) e[i] = g_perm[i];
    return RJS_OK;
}
static void do_sort(int copy)
{
    RJS_Runtime *rt = world(); RJS_Result r; int i, n = 0; RJS_Value thiz = NM(30);
    g_typed = 0; g_own = copy; g_sorting = 1; g_obj = NM(31); g_new = NM(32); g_len = (int)IN_RANGE(0, 0, 3); g_fail = (int)IN_RANGE(1, 0, 14); buf.vb.len = 0;
    for (i = 0; i < 3; i ++) { g_has[i] = (int)IN_RANGE(2 + i, 0, 1); g_el[i] = NM(40 + i); g_perm[i] = NM(50 + i); g_out[i] = 0; if (i < g_len) n += g_has[i]; }
    g_args[0] = IN_RANGE(5, 0, 2) == 0 ? FN : IN_RANGE(5, 0, 2) == 1 ? VF_UNDEF : VF_NULL;
    r = copy ? Array_prototype_toSorted(rt, NULL, &thiz, g_args, 1, NULL, &g_rv) : Array_prototype_sort(rt, NULL, &thiz, g_args, 1, NULL, &g_rv);
    CHECK("reads every element once in order, then writes results in order", !s_bad);
    if (g_args[0] == VF_NULL) CHECK("TypeError, before anything is read", r == RJS_ERR && s_throw == 1 && s_ops == 0);
    else if (g_fail && s_ops == g_fail) CHECK("stops at the first exception", r == RJS_ERR);
    else {
        CHECK("one result per present element, the rest deleted (copy: undefined)", r == RJS_OK && s_sort == 1 && s_set == (copy ? g_len : n) && s_del == (copy ? 0 : g_len - n) && g_rv == (copy ? g_new : g_obj));
        for (i = 0; i < 3; i ++) if (i < g_len) CHECK("results as sorted", i < n ? g_out[i] == g_perm[i] : !copy || g_out[i] == VF_UNDEF);
    }
    REACH();
}
//@unit name=array_sort fns=Array_prototype_sort bounded="at most 3 elements, every pattern of holes and every point of failure"
void h_array_sort(void) { do_sort(0); }
//@unit name=array_to_sorted fns=Array_prototype_toSorted bounded="at most 3 elements, every pattern of holes and every point of failure"
void h_array_to_sorted(void) { do_sort(1); }
//@unit name=typed_sort fns=TypedArray_prototype_sort unwind=66 bounded="at most 16 bytes of elements, every element type"
void h_typed_sort(void)
{
    RJS_Runtime *rt = world(); RJS_Result r; int i, ok = 1; RJS_Value thiz; static RJS_ObjectOps ops;
    g_typed = 1; iio.type = (int)IN_RANGE(0, 0, RJS_ARRAY_ELEMENT_BIGUINT64); g_es = (int)rjs_typed_array_element_size(iio.type); iio.array_length = IN_RANGE(1, 0, 16); ASSUME(iio.array_length * g_es <= 16);
    g_len = (int)iio.array_length * g_es; g_off = (int)IN_RANGE(2, 0, 40); iio.byte_offset = g_off; iio.byte_length = g_len; g_has[0] = (int)IN_RANGE(3, 0, 1); g_fail = (int)IN_RANGE(4, 0, 1);
    ops.gc_thing_ops.type = IN_RANGE(6, 0, 3) ? RJS_GC_THING_INT_INDEXED_OBJECT : RJS_GC_THING_ARRAY_BUFFER; iio.object.gc_thing.ops = (RJS_GcThingOps*)&ops;
    db.data = mem; ab.data_block = &db; iio.buffer = vf_new_thing(RJS_VALUE_TAG_OBJECT, &ab); thiz = vf_new_thing(RJS_VALUE_TAG_OBJECT, &iio);
    for (i = 0; i < 64; i ++) mem[i] = g_mem0[i] = (uint8_t)(i * 7 + 1);
    i = (int)IN_RANGE(5, 0, 2); g_args[0] = i == 0 ? FN : i == 1 ? VF_UNDEF : VF_NULL;
    r = TypedArray_prototype_sort(rt, NULL, &thiz, g_args, 1, NULL, &g_rv);
    if (g_args[0] == VF_NULL || g_has[0] || ops.gc_thing_ops.type == RJS_GC_THING_ARRAY_BUFFER) CHECK("TypeError: not callable, not a typed array, or detached", r == RJS_ERR && s_throw == 1 && !s_sort);
    else CHECK("returns the array, or the exception", (s_sort && g_fail ? r == RJS_ERR : r == RJS_OK && g_rv == thiz) && s_sort == (g_len > 0) && s_ref == 0 && s_alloc == s_free);
    for (i = 0; i < 64; i ++) ok &= mem[i] == (r == RJS_OK && i >= g_off && i < g_off + g_len ? (g_mem0[i] ^ 0x5a) : g_mem0[i]);
    CHECK("the elements are replaced by the sorted ones, or nothing changes", ok); REACH();
}
