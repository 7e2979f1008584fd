/* C12: element access by integer goes through the index key or the Number's string. */
#include "vf.h"
#include "ratjs_internal.h"
#include "vf_rt.h"
//@assume the internal methods and ToString of a Number are stubs that record the key they are given
//@default props=C12 unwind=9 dfcc=0 calls=VF_BOX,rjs_to_string:vf_to_string,rjs_object_get:k_get,rjs_get_v:k_getv,rjs_set:k_set,rjs_delete_property_or_throw:k_del,rjs_create_data_property_or_throw:k_cdp,rjs_define_property_or_throw:k_def
static RJS_Value k_o, k_val, s_key; static int64_t g_i; static int s_ts, s_n; static RJS_PropertyDesc k_pd;
#define KSTR ((((RJS_Value)RJS_VALUE_TAG_STRING) << 48) | 0x7000)
#ifndef VF_NATIVE
RJS_Result vf_to_string (RJS_Runtime *rt, RJS_Value *v, RJS_Value *s)
{ CHECK("the index is formatted as a Number", *rjs_value_get_pointer(rt, v) == vf_numv((double)g_i)); s_ts ++; *rjs_value_get_pointer(rt, s) = KSTR; return RJS_OK; }
#define REC(o, pn) CHECK("on the object", *rjs_value_get_pointer(rt, o) == k_o); s_key = *rjs_value_get_pointer(rt, pn->name); CHECK("key not resolved yet", pn->flags == 0); s_n ++
RJS_Result k_get (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_Value *rc, RJS_Value *pv) { REC(o, pn); CHECK("receiver", *rjs_value_get_pointer(rt, rc) == k_o); return RJS_OK; }
RJS_Result k_getv (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_Value *pv) { REC(o, pn); return RJS_OK; }
RJS_Result k_set (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_Value *v, RJS_Bool th) { REC(o, pn); return RJS_OK; }
RJS_Result k_del (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn) { REC(o, pn); return RJS_OK; }
RJS_Result k_cdp (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_Value *v) { REC(o, pn); return RJS_OK; }
RJS_Result k_def (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_PropertyDesc *pd) { REC(o, pn); return RJS_OK; }
#define NAT(...)
#else
/* natively: store with one of the functions, look the property up under the key's string */
#define NAT(...)
#endif
static RJS_Runtime *world(void)
{
    RJS_Runtime *rt = vf_rt(); static RJS_Object ob; double d;
    g_i = (int64_t)IN64(0); s_ts = s_n = 0; s_key = 0; k_val = VF_UNDEF;
    k_o = vf_new_thing(RJS_VALUE_TAG_OBJECT, &ob);
    return rt;
}
#ifndef VF_NATIVE
#define POST(rt) CHECK("one access", s_n == 1); if (g_i >= 0 && g_i <= 4294967294ll) CHECK("index key", s_ts == 0 && s_key == ((((RJS_Value)RJS_VALUE_TAG_INDEX_STRING) << 48) | (uint64_t)g_i)); \
    else CHECK("the Number's string", s_ts == 1 && s_key == KSTR); REACH()
#else
#define POST(rt) vf_skip()
#endif
#ifndef VF_NATIVE
#define U(x) x
#else
#define U(x)
#endif
//@unit name=get_index fns=rjs_get_index
void h_get_index(void) { RJS_Runtime *rt = world(); U(rjs_get_index(rt, &k_o, g_i, &k_val)); POST(rt); }
//@unit name=getv_index fns=rjs_get_index_v
void h_getv_index(void) { RJS_Runtime *rt = world(); U(rjs_get_index_v(rt, &k_o, g_i, &k_val)); POST(rt); }
//@unit name=set_index fns=rjs_set_index
void h_set_index(void) { RJS_Runtime *rt = world(); U(rjs_set_index(rt, &k_o, g_i, &k_val, 1)); POST(rt); }
//@unit name=delete_index fns=rjs_delete_property_or_throw_index
void h_delete_index(void) { RJS_Runtime *rt = world(); U(rjs_delete_property_or_throw_index(rt, &k_o, g_i)); POST(rt); }
//@unit name=create_index fns=rjs_create_data_property_or_throw_index
void h_create_index(void) { RJS_Runtime *rt = world(); U(rjs_create_data_property_or_throw_index(rt, &k_o, g_i, &k_val)); POST(rt); }
//@unit name=define_index fns=rjs_define_property_or_throw_index
void h_define_index(void) { RJS_Runtime *rt = world(); U(rjs_define_property_or_throw_index(rt, &k_o, g_i, &k_pd)); POST(rt); }
