/* C06/C01: ToIndex. */
#include "vf.h"
#define rjs_throw_range_error vf_throw_range_error
#define rjs_object_to_number  vf_object_to_number
#define rjs_throw_type_error  vf_throw_type_error
#include "lib/rjs_operation.c"
#include "vf_rt.h"
#include "vf_spec.h"
//@default props=C06,C01 unwind=10 calls=VF_BOX
static int vf_thrown, vf_othrow; static double vf_onum;
RJS_Result vf_throw_range_error (RJS_Runtime *rt, const char *fmt, ...) { vf_thrown = 1; return RJS_ERR; }
RJS_Result vf_throw_type_error (RJS_Runtime *rt, const char *fmt, ...) { vf_thrown = 1; return RJS_ERR; }
RJS_Result vf_object_to_number (RJS_Runtime *rt, RJS_Value *v, RJS_Number *p) { if (vf_othrow) { vf_thrown = 1; return RJS_ERR; } *p = vf_onum; return RJS_OK; }
static int64_t g_i;
static int post(RJS_Value v, RJS_Result r, int64_t i)
{
    double d; int t = vf_tag(v); int64_t x;
    if (t == RJS_VALUE_TAG_UNDEFINED) return r == RJS_OK && i == 0 && !vf_thrown;
    if (t == RJS_VALUE_TAG_SYMBOL) return r == RJS_ERR && vf_thrown;
    if (t == RJS_VALUE_TAG_OBJECT) { if (vf_othrow) return r == RJS_ERR && vf_thrown; d = vf_onum; } else
    if (t == RJS_VALUE_TAG_NULL) d = 0;
    else if (t == RJS_VALUE_TAG_BOOLEAN) d = (v & 1) ? 1 : 0;
    else d = vf_num(v);
    if (sp_isnan(d) || sp_exp(d) < 1023) return r == RJS_OK && i == 0 && !vf_thrown;
    if (vf_neg(d) || sp_exp(d) >= 1023 + 53) return r == RJS_ERR && vf_thrown;
    x = (int64_t)sp_trunc_mod64(d);
    return r == RJS_OK && i == x && !vf_thrown;
}
CONTRACT(RJS_Result rjs_to_index (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
REQ(!vf_thrown) ASG(*pi, vf_thrown, __CPROVER_object_whole(vf_stack_s), vf_ns_s.value.item_num)
ENS(post(__CPROVER_old(*v), __CPROVER_return_value, *pi)) ENS(vf_ns_s.value.item_num == __CPROVER_old(vf_ns_s.value.item_num));)
//@unit name=to_index enforce=rjs_to_index fns=rjs_to_index,rjs_to_integer_or_infinity,rjs_to_length
void h_to_index(void) {
    RJS_Runtime *rt = vf_rt(); RJS_Value v; int r, k = IN_RANGE(0, 0, 5); uint64_t x = IN64(1);
    vf_thrown = 0; vf_onum = IN_DBL(2); ASSUME(vf_num_ok(vf_numv(vf_onum))); vf_othrow = IN_RANGE(3, 0, 1);
    if (k == 1) v = VF_UNDEF; else if (k == 2) v = VF_NULL; else if (k == 3) v = (((RJS_Value)RJS_VALUE_TAG_BOOLEAN) << 48) | (x & 1);
    else if (k == 4) v = (((RJS_Value)RJS_VALUE_TAG_SYMBOL) << 48) | 0x1000; else if (k == 5) v = (((RJS_Value)RJS_VALUE_TAG_OBJECT) << 48) | 0x1000;
    else { v = x; ASSUME(vf_num_ok(v)); }
    { RJS_Value o = v;
    r = rjs_to_index(rt, &v, &g_i);
    NCHECK("ToIndex", post(o, r, g_i)); REACH(); } }
