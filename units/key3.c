/* C12: a Number used as a key becomes the index string of its integer. */
#include "vf.h"
#define rjs_dtoa vf_dtoa
#define rjs_freedtoa vf_freedtoa
#include "lib/rjs_number.c"
#undef rjs_dtoa
#undef rjs_freedtoa
#include "vf_rt.h"
//@default props=C12 unwind=9 dfcc=0
static int s_dtoa; static double s_n;
#ifndef VF_NATIVE
char *vf_dtoa (double d, int mode, int nd, int *decpt, int *sign, char **rve)
{ CHECK("only a Number that is no array index is formatted digit by digit", d == s_n && !(d >= 0 && d <= 4294967294.0 && d == (double)(uint32_t)d)); s_dtoa ++; __CPROVER_assume(0); return NULL; }
void vf_freedtoa (char *p) {}
#else
extern char *rjs_dtoa (double d, int mode, int nd, int *decpt, int *sign, char **rve);
extern void rjs_freedtoa (char *);
char *vf_dtoa (double d, int mode, int nd, int *decpt, int *sign, char **rve)
{ CHECK("only a Number that is no array index is formatted digit by digit", d == s_n && !(d >= 0 && d <= 4294967294.0 && d == (double)(uint32_t)d)); s_dtoa ++; return rjs_dtoa(d, mode, nd, decpt, sign, rve); }
void vf_freedtoa (char *p) { rjs_freedtoa(p); }
#endif
//@assume digits of Numbers that are no array index are rjs_dtoa's (C28, not applicable)
//@unit name=number_key fns=rjs_number_to_string,is_array_index
void h_number_key(void)
{
    RJS_Runtime *rt = vf_rt(); uint64_t b = IN64(0); double d; static RJS_Value s; RJS_Result r; int ix;
    ASSUME(vf_num_ok(b)); d = vf_bdbl(b); s_n = d; s_dtoa = 0; s = VF_UNDEF;
#ifndef VF_NATIVE
    *rjs_s_NaN(rt) = (((RJS_Value)RJS_VALUE_TAG_STRING) << 48) | 0x111000; *rjs_s_Infinity(rt) = (((RJS_Value)RJS_VALUE_TAG_STRING) << 48) | 0x112000; *rjs_s_negative_Infinity(rt) = (((RJS_Value)RJS_VALUE_TAG_STRING) << 48) | 0x113000;
#endif
    ix = d >= 0 && d <= 4294967294.0 && d == (double)(uint32_t)d;
    r = rjs_number_to_string(rt, d, &s);
    CHECK("result", r == RJS_OK);
    if (ix) CHECK("index string of the integer", s == ((((RJS_Value)RJS_VALUE_TAG_INDEX_STRING) << 48) | (uint32_t)d));
    else if (d != d) CHECK("NaN", s == *rjs_s_NaN(rt));
    else if (d > 1.7976931348623157e308) CHECK("Infinity", s == *rjs_s_Infinity(rt));
    else if (d < -1.7976931348623157e308) CHECK("-Infinity", s == *rjs_s_negative_Infinity(rt));
    else CHECK("other Numbers are not index strings", vf_tag(s) == RJS_VALUE_TAG_STRING);
    REACH();
}
