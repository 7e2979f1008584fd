/* C11: the exotic [[DefineOwnProperty]] of arrays (ECMAScript 10.4.2): ArraySetLength and index definitions. */
#include "vf.h"
#include "ratjs_internal.h"
RJS_Result vf_def (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_PropertyDesc *pd);
RJS_Result vf_own (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_PropertyDesc *pd);
RJS_Result vf_cut (RJS_Runtime *rt, RJS_Value *v, uint32_t ol, uint32_t nl, uint32_t *li);
RJS_Result vf_u32 (RJS_Runtime *rt, RJS_Value *v, uint32_t *n);
RJS_Result vf_numb (RJS_Runtime *rt, RJS_Value *v, RJS_Number *n);
RJS_Result vf_range (RJS_Runtime *rt, const char *m, ...);
RJS_Bool vf_seq (RJS_Runtime *rt, RJS_Value *a, RJS_Value *b);
void vf_resolve (RJS_Runtime *rt, RJS_PropertyName *pn);
RJS_Result vf_oinit (RJS_Runtime *rt, RJS_Value *v, RJS_Object *o, RJS_Value *proto, const RJS_ObjectOps *ops);
#define rjs_ordinary_object_op_define_own_property vf_def
#define rjs_ordinary_object_op_get_own_property vf_own
#define rjs_ordinary_object_delete_from_index vf_cut
#define rjs_to_uint32 vf_u32
#define rjs_to_number vf_numb
#define rjs_throw_range_error vf_range
#define rjs_string_equal vf_seq
#define rjs_property_name_resolve vf_resolve
#define rjs_object_init vf_oinit
#include "lib/rjs_array.c"
#undef rjs_ordinary_object_op_define_own_property
#undef rjs_ordinary_object_op_get_own_property
#undef rjs_ordinary_object_delete_from_index
#undef rjs_to_uint32
#undef rjs_to_number
#undef rjs_throw_range_error
#undef rjs_string_equal
#undef rjs_property_name_resolve
#undef rjs_object_init
#include "vf_rt.h"
//@assume the ordinary [[DefineOwnProperty]] of the length property stands for its contract (C09): refused for a configurable, enumerable or accessor request, or any change while the length is not writable; otherwise applied
//@assume deleting the elements at and above n answers true, or false with the index of the highest element that cannot be deleted (C10); the conversions return any Number and may run user code that changes the array
//@default props=C11 unwind=8 dfcc=0 calls=VF_BOX
#define W RJS_PROP_FL_WRITABLE
#define E RJS_PROP_FL_ENUMERABLE
#define C RJS_PROP_FL_CONFIGURABLE
#define HW RJS_PROP_FL_HAS_WRITABLE
#define HE RJS_PROP_FL_HAS_ENUMERABLE
#define HC RJS_PROP_FL_HAS_CONFIGURABLE
#define HV RJS_PROP_FL_HAS_VALUE
#define HG RJS_PROP_FL_HAS_GET
#define HS RJS_PROP_FL_HAS_SET

static RJS_Object ob; static RJS_Value vob, g_name, g_val, g_out; static RJS_PropertyName g_pn; static RJS_PropertyDesc g_pd;
static RJS_Realm realm;
/* ghost: the length property, and the highest element that cannot be deleted */
static struct { uint32_t len; int wr; int stuck; uint32_t at; } A, A0;
static struct { int conv_u, conv_n, idx, err, len2, wr2, user; double n1, n2; } Q;
static struct { int idef, cuts, lens, err, range, order, cutlo; uint32_t cutat; RJS_PropertyDesc *ipd; RJS_PropertyName *ipn; const RJS_ObjectOps *ops; RJS_Value proto; int init; } S;
static int active;

static int valid_len(double n) { return n >= 0 && n <= 4294967295.0 && n == (double)(int64_t)n; }

RJS_Result vf_def (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_PropertyDesc *pd)
{
    int f = pd->flags; double n;
    CHECK("definitions go to the array itself", *rjs_value_get_pointer(rt, o) == vob);
    if (pn != rjs_pn_length(rt)) {
        CHECK("a non-length key is defined with the caller's key and descriptor", pn == &g_pn && pd == &g_pd);
        CHECK("an element is defined before the length is raised", !S.lens);
        S.idef ++; return Q.idx;
    }
    S.lens ++;
    if (S.init) { CHECK("the length is created as a writable, non-enumerable, non-configurable data property", f == (RJS_PROP_FL_DATA|W)); A.len = (uint32_t)vf_num(*rjs_value_get_pointer(rt, pd->value)); A.wr = 1; CHECK("the initial length is the requested one", vf_num(*rjs_value_get_pointer(rt, pd->value)) == Q.n1); return RJS_TRUE; }
    if (((f & HC) && (f & C)) || ((f & HE) && (f & E)) || (f & (HG|HS))) return RJS_FALSE;
    n = A.len;
    if (f & HV) {
        CHECK("a new length is a Number", vf_is_num(*rjs_value_get_pointer(rt, pd->value)));
        n = vf_num(*rjs_value_get_pointer(rt, pd->value));
        CHECK("a length is an integer in 0..2^32-1", valid_len(n));
    }
    if (!A.wr && (((f & HW) && (f & W)) || n != (double)A.len)) return RJS_FALSE;
    A.len = (uint32_t)n;
    if (f & HW) A.wr = (f & W) != 0;
    return RJS_TRUE;
}
RJS_Result vf_own (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_PropertyDesc *pd)
{
    CHECK("the old length is read from the array", *rjs_value_get_pointer(rt, o) == vob && pn == rjs_pn_length(rt));
    *rjs_value_get_pointer(rt, pd->value) = vf_numv(A.len);
    pd->flags = RJS_PROP_FL_DATA | (A.wr ? W : 0);
    return RJS_TRUE;
}
RJS_Result vf_cut (RJS_Runtime *rt, RJS_Value *v, uint32_t ol, uint32_t nl, uint32_t *li)
{
    CHECK("elements are deleted on the array, from the old length down to the new", *rjs_value_get_pointer(rt, v) == vob && ol == A0.len && nl < ol);
    CHECK("the length is lowered before elements go, and is still writable", A.len == nl && A.wr);
    S.cuts ++; S.cutat = nl;
    if (A.stuck && A.at >= nl) { *li = A.at; return RJS_FALSE; }
    return RJS_TRUE;
}
static void user(void) { if (Q.user) { A.len = Q.len2; A.wr = Q.wr2; A0 = A; } }
RJS_Result vf_u32 (RJS_Runtime *rt, RJS_Value *v, uint32_t *n)
{
    S.order = S.order * 4 + 1; CHECK("the conversion is of the new length", *rjs_value_get_pointer(rt, v) == g_val);
    user();
    if (!Q.conv_u) return RJS_ERR;
    if (valid_len(Q.n1)) *n = (uint32_t)Q.n1; else *n = (uint32_t)Q.err;
    return RJS_OK;
}
RJS_Result vf_numb (RJS_Runtime *rt, RJS_Value *v, RJS_Number *n)
{
    S.order = S.order * 4 + 2; CHECK("the conversion is of the new length", *rjs_value_get_pointer(rt, v) == g_val);
    if (!Q.conv_n) return RJS_ERR;
    *n = Q.n2; return RJS_OK;
}
RJS_Result vf_range (RJS_Runtime *rt, const char *m, ...) { S.range ++; return RJS_ERR; }
RJS_Bool vf_seq (RJS_Runtime *rt, RJS_Value *a, RJS_Value *b) { CHECK("the key is compared with \"length\"", a == &g_name && b == rjs_s_length(rt)); return Q.idx == 1 || Q.err == 1; }
void vf_resolve (RJS_Runtime *rt, RJS_PropertyName *pn) { if (Q.conv_u) { pn->flags |= RJS_PROP_NAME_FL_INDEX; pn->index = A.at; } pn->flags |= RJS_PROP_NAME_FL_RESOLVED; }
RJS_Result vf_oinit (RJS_Runtime *rt, RJS_Value *v, RJS_Object *o, RJS_Value *proto, const RJS_ObjectOps *ops)
{ S.ops = ops; S.proto = *rjs_value_get_pointer(rt, proto); *rjs_value_get_pointer(rt, v) = vob; return RJS_OK; }
#ifndef VF_NATIVE
RJS_Realm *vf_realm (RJS_Runtime *rt) { return &realm; }
void *vf_alloc (RJS_Runtime *rt, size_t n) { return &ob; }
RJS_Result vf_odel (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn) { CHECK("arrays delete through the ordinary operation", 0); return RJS_TRUE; }
#endif

static int flags_ok(int f)
{ return !(f & ~(W|E|C|HW|HE|HC|HV|HG|HS)) && (!(f & W) || (f & HW)) && (!(f & E) || (f & HE)) && (!(f & C) || (f & HC)) && !((f & (HW|HV)) && (f & (HG|HS))); }

static RJS_Runtime *world(void)
{
    RJS_Runtime *rt = vf_rt();
    memset(&S, 0, sizeof S);
    ob.gc_thing.ops = (RJS_GcThingOps*)&array_ops;
    vob = vf_new_thing(RJS_VALUE_TAG_OBJECT, &ob);
    A.len = (uint32_t)IN64(0); A.wr = IN_RANGE(1, 0, 1); A.stuck = IN_RANGE(2, 0, 1); A.at = (uint32_t)IN64(3);
    if (IN_RANGE(4, 0, 1)) { A.len &= 0xf; A.at &= 0xf; }
    Q.len2 = (uint32_t)IN64(5) & (IN_RANGE(6, 0, 1) ? 0xf : 0xffffffffu); Q.wr2 = A.wr ? (int)IN_RANGE(7, 0, 1) : 0; Q.user = IN_RANGE(8, 0, 1);
    if (!A.wr && Q.user) Q.len2 = A.len;
    A0 = A;
    /* every element is below the length */
    ASSUME(!A.stuck || A.at < (Q.user ? (uint32_t)Q.len2 : A.len));
    Q.conv_u = IN_RANGE(9, 0, 7) != 0; Q.conv_n = IN_RANGE(10, 0, 7) != 0; Q.err = (int)IN64(11);
    Q.n1 = IN_RANGE(12, 0, 1) ? (double)((uint32_t)IN64(13) & (IN_RANGE(14, 0, 1) ? 0xf : 0xffffffffu)) : IN_DBL(15);
    Q.n2 = IN_RANGE(16, 0, 3) ? Q.n1 : IN_DBL(17);
    Q.idx = (int)IN_RANGE(18, 0, 2) - 1;
    g_val = IN64(19); g_out = VF_UNDEF;
    g_pd.flags = IN64(20) & 0x7ff; ASSUME(flags_ok(g_pd.flags)); g_pd.value = &g_val; g_pd.get = g_pd.set = &g_out;
    g_name = (((RJS_Value)RJS_VALUE_TAG_INDEX_STRING) << 48) | 5; g_pn.name = &g_name; g_pn.flags = 0; g_pn.index = 0;
    return rt;
}

//@unit name=array_set_length entry=h_setlen fns=array_set_length desc="ArraySetLength for every length, descriptor, old state, conversion result and undeletable element"
void h_setlen(void)
{
    RJS_Runtime *rt = world(); RJS_Result r; int f = g_pd.flags, ok, newwr; uint32_t nl;
    size_t top = rjs_value_stack_save(rt);
    r = array_set_length(rt, &vob, &g_pd);
    REACH();
    CHECK("the value stack is restored", rjs_value_stack_save(rt) == top);
    CHECK("the descriptor is not modified", g_pd.flags == f);
    CHECK("no element is defined", S.idef == 0);
    if (!(f & HV)) {
        ok = !((f & HC) && (f & C)) && !((f & HE) && (f & E)) && !(f & (HG|HS)) && (A0.wr || !((f & HW) && (f & W)));
        CHECK("without a value only the attributes are validated", r == (ok ? RJS_TRUE : RJS_FALSE) && A.len == A0.len && S.cuts == 0 && S.order == 0);
        CHECK("the length becomes read-only exactly when asked", A.wr == (ok && (f & HW) ? (f & W) != 0 : A0.wr));
        return;
    }
    if (!Q.conv_u || !Q.conv_n) { CHECK("a conversion error is passed on and nothing changes", r == RJS_ERR && A.len == A0.len && A.wr == A0.wr && S.cuts == 0 && S.range == 0); return; }
    CHECK("ToUint32 then ToNumber, once each", S.order == 6);
    nl = valid_len(Q.n1) ? (uint32_t)Q.n1 : (uint32_t)Q.err;
    if (!(Q.n2 == (double)nl)) { CHECK("an invalid length throws RangeError and changes nothing", r == RJS_ERR && S.range == 1 && A.len == A0.len && A.wr == A0.wr && S.cuts == 0); return; }
    CHECK("a valid length does not throw", S.range == 0 && r != RJS_ERR);
    ok = !((f & HC) && (f & C)) && !((f & HE) && (f & E)) && (A0.wr || (!((f & HW) && (f & W)) && nl == A0.len));
    newwr = (f & HW) ? (f & W) != 0 : A0.wr;
    if (!ok) { CHECK("a refused change leaves length and elements alone", r == RJS_FALSE && A.len == A0.len && A.wr == A0.wr && S.cuts == 0); return; }
    CHECK("elements are deleted exactly when the length shrinks", S.cuts == (nl < A0.len) && (!S.cuts || S.cutat == nl));
    CHECK("the length becomes read-only exactly when asked", A.wr == newwr);
    if (A0.stuck && A0.at >= nl) CHECK("stops just above the last element that cannot be deleted", r == RJS_FALSE && A.len == A0.at + 1);
    else CHECK("the length is the new one", r == RJS_TRUE && A.len == nl);
}

//@unit name=array_set_item entry=h_setitem fns=array_set_item,array_op_define_own_property desc="defining an index property: length rule and raise, for every index and length"
void h_setitem(void)
{
    RJS_Runtime *rt = world(); RJS_Result r; uint32_t ix = (uint32_t)IN64(40); int which;
    size_t top = rjs_value_stack_save(rt);
    if (IN_RANGE(41, 0, 1)) ix = A.len + (uint32_t)IN_RANGE(42, 0, 2) - 1;
    ASSUME(ix != 0xffffffffu); ASSUME(Q.idx >= 0);
    A.at = ix; A.stuck = 0; A0 = A; Q.conv_u = 1;
    which = IN_RANGE(43, 0, 1);
    if (which) { r = array_op_define_own_property(rt, &vob, &g_pn, &g_pd); }
    else { g_pn.flags = RJS_PROP_NAME_FL_INDEX|RJS_PROP_NAME_FL_RESOLVED; g_pn.index = ix; r = array_set_item(rt, &vob, &g_pn, &g_pd); }
    REACH();
    CHECK("the value stack is restored", rjs_value_stack_save(rt) == top);
    CHECK("writability of the length is untouched", A.wr == A0.wr);
    if (ix >= A0.len && !A0.wr) { CHECK("no element at or past a read-only length", r == RJS_FALSE && S.idef == 0 && A.len == A0.len); return; }
    CHECK("the element is defined once and its outcome returned", S.idef == 1 && r == Q.idx);
    CHECK("a defined index at or past the length raises it to index + 1", A.len == (Q.idx && ix >= A0.len ? ix + 1 : A0.len));
}

//@unit name=array_define entry=h_define fns=array_op_define_own_property desc="other keys: the length key goes to ArraySetLength, every other key is an ordinary property"
void h_define(void)
{
    RJS_Runtime *rt = world(); RJS_Result r; int islen, str = IN_RANGE(44, 0, 1);
    Q.conv_u = 0; Q.err = (int)IN_RANGE(45, 0, 1); Q.idx = (int)IN_RANGE(46, 0, 2) - 1; ASSUME(Q.idx < 1 || Q.err == 1);
    g_name = str ? (((RJS_Value)RJS_VALUE_TAG_INDEX_STRING) << 48) | 5 : (((RJS_Value)RJS_VALUE_TAG_NULL) << 48);
    islen = str && Q.err == 1; g_pd.flags &= ~HV;
    r = array_op_define_own_property(rt, &vob, &g_pn, &g_pd);
    REACH();
    if (islen) CHECK("the length key is handled by ArraySetLength", S.idef == 0 && S.lens == 1);
    else CHECK("another key is an ordinary property", S.idef == 1 && S.lens == 0 && r == Q.idx && A.len == A0.len && A.wr == A0.wr);
}

//@unit name=array_new entry=h_new fns=rjs_array_new calls=VF_BOX,rjs_realm_current:vf_realm,rjs_alloc_assert:vf_alloc desc="ArrayCreate: lengths above 2^32-1 throw RangeError, others become the length of the new array"
#ifndef VF_NATIVE
void h_new(void)
{
    RJS_Runtime *rt = world(); RJS_Result r; static RJS_Value proto; double n;
    size_t top = rjs_value_stack_save(rt);
    proto = VF_NULL; n = IN_DBL(50); ASSUME(n >= 0 && (n > 9e15 || n == (double)(int64_t)n)); Q.n1 = n; S.init = 1; g_out = VF_UNDEF;
    r = rjs_array_new(rt, &g_out, n, &proto);
    REACH();
    CHECK("the value stack is restored", rjs_value_stack_save(rt) == top);
    if (n > 4294967295.0) CHECK("too long: RangeError and no array", r == RJS_ERR && S.range == 1 && S.lens == 0);
    else CHECK("a new array of that length", r == RJS_OK && S.range == 0 && S.lens == 1 && A.len == (uint32_t)n && g_out == vob && S.ops == &array_ops && S.proto == VF_NULL);
}
#else
void h_new(void) { vf_skip(); }
#endif
