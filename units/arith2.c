/* C03: Number multiplication and division and Math.imul, decided by an SMT
 * solver with floating-point theory (the SAT back end cannot equate two
 * multipliers), and Math.min / Math.max over bounded argument lists.  Plain pre/postcondition harness, no dfcc instrumentation. */
#include "vf.h"
#include "lib/rjs_number.c"
#include "lib/rjs_math_object_inc.c"
#include "vf_rt.h"

//@assume which NaN bit pattern an operation on Numbers produces is the processor's (the default quiet NaN), so it is a Number
//@default props=C03 dfcc=0 solver=cvc5 flags=--slice-formula
static RJS_Value num_in(int slot) { RJS_Value v = IN64(slot); ASSUME(vf_num_ok(v)); return v; }
static int numis(RJS_Value got, double e) { double g = vf_num(got); return e != e ? g != g : got == vf_numv(e); }
#define NUMOP(nm, o) \
void h_n_##nm(void) { \
    RJS_Runtime *rt = vf_rt(); RJS_Value a = num_in(0), b = num_in(1), c = VF_UNDEF, oa = a, ob = b; \
    int al = IN_RANGE(4, 0, 2); RJS_Value *rv = al == 0 ? &c : al == 1 ? &a : &b; \
    rjs_number_##nm(rt, &a, &b, rv); \
    CHECK("the IEEE result of the operands is stored", numis(*rv, vf_num(oa) o vf_num(ob))); \
    REACH(); }
//@unit name=n_add fns=rjs_number_add
NUMOP(add, +)
//@unit name=n_subtract fns=rjs_number_subtract
NUMOP(subtract, -)
//@unit name=n_multiply fns=rjs_number_multiply
NUMOP(multiply, *)
//@unit name=n_divide fns=rjs_number_divide
NUMOP(divide, /)

/* Math.imul, min and max: the conversions of the arguments (C01) are arbitrary
 * results, keyed by argument position; natively the real conversions run on
 * Number arguments */
#define MAXARG 4
static RJS_Value args[MAXARG]; static double dv[MAXARG]; static int cerr[MAXARG];
static uint32_t u32x, u32y; static int u32n;
RJS_Result vf_to_uint32 (RJS_Runtime *rt, RJS_Value *v, uint32_t *pi)
{
    CHECK("the arguments are converted in order", v == &args[u32n]);
    *pi = u32n ? u32y : u32x; u32n ++;
    return RJS_OK;
}
RJS_Result vf_to_number (RJS_Runtime *rt, RJS_Value *v, RJS_Number *pn)
{
    size_t i = v - args;
    if (cerr[i]) return RJS_ERR;
    *pn = dv[i]; return RJS_OK;
}
static void in_args(void)
{
    int i;
    for (i = 0; i < MAXARG; i ++) {
        cerr[i] = IN_RANGE(20 + i, 0, 7) == 7;
        args[i] = num_in(10 + i); dv[i] = vf_num(args[i]);
#ifdef VF_NATIVE
        if (cerr[i]) args[i] = (((RJS_Value)RJS_VALUE_TAG_SYMBOL) << 48);
#endif
    }
}
//@unit name=imul fns=Math_imul calls=rjs_to_uint32:vf_to_uint32 unwind=6
void h_imul(void) {
    RJS_Runtime *rt = vf_rt(); RJS_Value c = VF_UNDEF; RJS_Result r;
    u32n = 0;
    u32x = (uint32_t)IN64(0); u32y = (uint32_t)IN64(1);
#ifdef VF_NATIVE
    args[0] = vf_numv((double)u32x); args[1] = vf_numv((double)u32y);
#endif
    r = Math_imul(rt, &c, &c, args, 2, &c, &c);
    CHECK("the product modulo 2^32 is returned as int32", r == RJS_OK && c == vf_numv((double)(int32_t)(u32x * u32y)));
    REACH(); }

static double vf_buf[16];
void *vf_realloc_buf(RJS_Runtime *rt, void *p, size_t o, size_t n)
{ if (n) CHECK("vf: vector fits", p == NULL && n <= sizeof(vf_buf)); return n ? vf_buf : NULL; }
static int post_minmax(int max, size_t argc, RJS_Result r, RJS_Value got)
{
    size_t i; double x, g; int nan = 0, hit = argc == 0;
    for (i = 0; i < MAXARG; i ++)
        if (i < argc) { if (cerr[i]) return r == RJS_ERR; if (vf_isnan(vf_num(args[i]))) nan = 1; }
    if (r != RJS_OK || !vf_is_num(got)) return 0;
    g = vf_num(got);
    if (nan) return vf_isnan(g);
    if (argc == 0) return got == (max ? 0xfff0000000000000ull : 0x7ff0000000000000ull);
    /* got is one of the arguments and none lies beyond it, -0 ordered below +0 */
    for (i = 0; i < MAXARG; i ++)
        if (i < argc) {
            x = vf_num(args[i]);
            if (args[i] == got) hit = 1;
            if (max ? x > g : x < g) return 0;
            if (x == g && args[i] != got && (int)(got >> 63) == max) return 0;
        }
    return hit;
}
#define MINMAX(nm, mx) \
void h_##nm(void) { \
    RJS_Runtime *rt = vf_rt(); RJS_Value c = VF_UNDEF, u = VF_UNDEF; size_t argc = IN_RANGE(8, 0, MAXARG); RJS_Result r; \
    in_args(); \
    r = Math_##nm(rt, &u, &u, args, argc, &u, &c); \
    CHECK("the extreme argument is returned", post_minmax(mx, argc, r, c)); REACH(); }
//@unit name=max solver=cadical calls=rjs_realloc_assert:vf_realloc_buf,rjs_to_number:vf_to_number unwind=6 fns=Math_max bounded="at most 4 arguments"
MINMAX(max, 1)
//@unit name=min solver=cadical calls=rjs_realloc_assert:vf_realloc_buf,rjs_to_number:vf_to_number unwind=6 fns=Math_min bounded="at most 4 arguments"
MINMAX(min, 0)
