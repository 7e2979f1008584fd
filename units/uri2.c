/* C16: the four global functions and the error they throw. */
#include "vf.h"
#include "lib/rjs_uri_functions_inc.c"
#include "vf_rt.h"
//@assume ToString is a stub: any string or a throw; Decode and Encode by units/uri.c
//@default props=C16 unwind=9 dfcc=0 calls=VF_BOX,rjs_to_string:vf_to_string,uri_decode:k_dec,uri_encode:k_enc
static RJS_Value k_arg, k_rv; static int k_fail, k_res, s_op, s_comp, s_ts;
#define KSTR ((((RJS_Value)RJS_VALUE_TAG_STRING) << 48) | 0x7000)
#ifndef VF_NATIVE
RJS_Result vf_to_string (RJS_Runtime *rt, RJS_Value *v, RJS_Value *s)
{ CHECK("the argument is converted", *rjs_value_get_pointer(rt, v) == k_arg); s_ts ++; if (k_fail) return RJS_ERR; *rjs_value_get_pointer(rt, s) = KSTR; return RJS_OK; }
#define REC(o) CHECK("the converted argument", *rjs_value_get_pointer(rt, str) == KSTR && rv == &k_rv); s_op = o; s_comp = comp; return k_res
RJS_Result k_dec (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv) { REC(1); }
RJS_Result k_enc (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv) { REC(2); }
#endif
static void run(RJS_Result (*f)(RJS_Runtime*, RJS_Value*, RJS_Value*, RJS_Value*, size_t, RJS_Value*, RJS_Value*), int op, int comp)
{
    RJS_Runtime *rt = vf_rt(); RJS_Result r; size_t argc = IN_RANGE(0, 0, 1); static RJS_Value th, nt;
    k_arg = argc ? vf_numv((double)(int)IN_RANGE(1, 0, 9)) : VF_UNDEF; k_fail = (int)IN_RANGE(2, 0, 1); k_res = IN_RANGE(3, 0, 1) ? RJS_OK : RJS_ERR; s_op = s_ts = 0; s_comp = -1;
    th = nt = VF_UNDEF;
#ifndef VF_NATIVE
    r = f(rt, &th, &th, &k_arg, argc, &nt, &k_rv);
    CHECK("converted once", s_ts == 1);
    if (k_fail) CHECK("a failed conversion throws", r == RJS_ERR && s_op == 0);
    else CHECK("the operation and its reserved set", r == k_res && s_op == op && !!s_comp == comp);
    REACH();
#else
    /* natively: "%23" decodes to itself unless component, "#" is kept unless component */
    {
        char b[16]; static RJS_Value a; rjs_string_from_chars(rt, &a, op == 1 ? "%23%41" : "#A ", -1);
        r = f(rt, &th, &th, &a, 1, &nt, &k_rv);
        CHECK("the operation and its reserved set", r == RJS_OK && !strcmp(rjs_string_to_enc_chars(rt, &k_rv, NULL, NULL), op == 1 ? (comp ? "#A" : "%23A") : (comp ? "%23A%20" : "#A%20")));
    }
#endif
}
//@unit name=decodeURI fns=global_decodeURI
void h_decodeURI(void) { run(global_decodeURI, 1, 0); }
//@unit name=decodeURIComponent fns=global_decodeURIComponent
void h_decodeURIComponent(void) { run(global_decodeURIComponent, 1, 1); }
//@unit name=encodeURI fns=global_encodeURI
void h_encodeURI(void) { run(global_encodeURI, 2, 0); }
//@unit name=encodeURIComponent fns=global_encodeURIComponent
void h_encodeURIComponent(void) { run(global_encodeURIComponent, 2, 1); }
