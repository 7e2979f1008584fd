/* C12: a property name is resolved to an index or to the interned string. */
#include "vf.h"
#define rjs_string_to_property_key vf_to_key
#include "lib/rjs_object.c"
#undef rjs_string_to_property_key
#include "vf_rt.h"

//@assume string to index conversion by units/key.c; interning is a stub that records its operand
//@default props=C12 unwind=9 calls=VF_BOX,rjs_string_to_index:vf_to_index dfcc=0
static RJS_String k_str; static RJS_Value k_v; static int s_key; static int64_t s_ix; static int s_is;
static RJS_Symbol k_sym;
RJS_Result vf_to_key (RJS_Runtime *rt, RJS_Value *v) { s_key ++; return RJS_OK; }
#ifndef VF_NATIVE
RJS_Bool vf_to_index (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
{ CHECK("the key itself is converted", *rjs_value_get_pointer(rt, v) == k_v); if (s_is) *pi = s_ix; return s_is; }
#else
static RJS_UChar k_buf[12];
#endif
//@unit name=resolve fns=prop_resolve,rjs_property_name_resolve,rjs_property_name_resolve_real
void h_resolve(void)
{
    RJS_Runtime *rt = vf_rt(); RJS_PropertyName pn; int kind = (int)IN_RANGE(0, 0, 2);
    s_ix = (int64_t)IN_RANGE(1, 0, 4294967294ull); s_is = (int)IN_RANGE(2, 0, 1); s_key = 0;
#ifdef VF_NATIVE
    { char b[16]; int i; snprintf(b, 16, "%lld", (long long)s_ix); if (!s_is) { memmove(b + 1, b, 12); b[0] = '0'; } for (i = 0; b[i]; i ++) k_buf[i] = b[i]; k_str.uchars = k_buf; k_str.length = i; }
#endif
    k_str.flags = 0;
    if (kind == 0) k_v = vf_new_thing(RJS_VALUE_TAG_STRING, &k_str);
    else if (kind == 1) rjs_value_set_index_string(rt, &k_v, (uint32_t)s_ix);
    else k_v = vf_new_thing(RJS_VALUE_TAG_SYMBOL, &k_sym);
    rjs_property_name_init(rt, &pn, &k_v);
    rjs_property_name_resolve(rt, &pn);
    CHECK("resolved", pn.flags & RJS_PROP_NAME_FL_RESOLVED);
    if (kind == 1 || (kind == 0 && s_is)) CHECK("index key", (pn.flags & RJS_PROP_NAME_FL_INDEX) && pn.index == s_ix && s_key == 0);
    else CHECK("not an index key", !(pn.flags & RJS_PROP_NAME_FL_INDEX) && s_key == (kind == 0));
    s_ix = 77; s_is = !s_is;
    { int f = pn.flags; int64_t ix = pn.index; rjs_property_name_resolve(rt, &pn); CHECK("resolving again changes nothing", pn.flags == f && (!(f & RJS_PROP_NAME_FL_INDEX) || pn.index == ix)); }
    REACH();
}
