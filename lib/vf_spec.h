/* vf_spec.h - specification functions (ECMA-262 abstract operations written
 * over the IEEE-754 encoding in integer arithmetic, independent of the code). */
#ifndef VF_SPEC_H
#define VF_SPEC_H
#include "vf.h"
/* exponent/significand of a double */
static inline int      sp_exp(double d) { return (int)((vf_dbits(d) >> 52) & 0x7ff); }
static inline uint64_t sp_man(double d) { return vf_dbits(d) & 0xfffffffffffffull; }
static inline int      sp_isinf(double d) { return sp_exp(d) == 0x7ff && sp_man(d) == 0; }
static inline int      sp_isnan(double d) { return sp_exp(d) == 0x7ff && sp_man(d) != 0; }
/* truncate(d) modulo 2^64, 0 for NaN and infinities */
static inline uint64_t sp_trunc_mod64(double d)
{
    int e = sp_exp(d);
    uint64_t m = sp_man(d) | 0x10000000000000ull, r;
    if (e == 0x7ff || e < 1023) return 0;
    e -= 1075;
    if (e >= 64) r = 0;
    else if (e >= 0) r = m << e;
    else r = m >> (-e);
    return vf_neg(d) ? (uint64_t)0 - r : r;
}
static inline uint32_t sp_uint32(double d) { return (uint32_t)sp_trunc_mod64(d); }
static inline int32_t  sp_int32(double d) { return (int32_t)sp_uint32(d); }
static inline int sp_isint(double d);
/* d is the Number of the integer i (0 is +0) */
static inline int sp_int_is(double d, int64_t i)
{ return sp_isint(d) && sp_trunc_mod64(d) == (uint64_t)i && (i || vf_dbits(d) == 0) && sp_exp(d) < 1023 + 62; }
/* is d an integer (finite, no fraction) */
static inline int sp_isint(double d)
{
    int e = sp_exp(d);
    if (e == 0x7ff) return 0;
    if ((vf_dbits(d) << 1) == 0) return 1;
    if (e < 1023) return 0;
    if (e >= 1075) return 1;
    return (sp_man(d) & ((1ull << (1075 - e)) - 1)) == 0;
}
/* odd integer */
static inline int sp_isodd(double d)
{
    int e = sp_exp(d);
    if (!sp_isint(d) || e < 1023 || e > 1075) return 0;
    return (((sp_man(d) | 0x10000000000000ull) >> (1075 - e)) & 1);
}
static inline double   sp_bdbl(uint64_t u) { union { uint64_t u; double d; } x; x.u = u; return x.d; }
/* truncation toward zero keeping the sign (as a Number) */
static inline double sp_trunc(double d)
{
    int e = sp_exp(d);
    if (e >= 1075) return d;
    if (e < 1023) return sp_bdbl(vf_dbits(d) & 0x8000000000000000ull);
    return sp_bdbl(vf_dbits(d) & ~((1ull << (1075 - e)) - 1));
}
/* total order of non-NaN doubles by value: a < b */
static inline int sp_less(double a, double b)
{
    uint64_t x = vf_dbits(a), y = vf_dbits(b);
    if ((x << 1) == 0 && (y << 1) == 0) return 0;
    if (x >> 63) return (y >> 63) ? x > y : 1;
    return (y >> 63) ? 0 : x < y;
}
static inline int sp_eq(double a, double b)
{
    uint64_t x = vf_dbits(a), y = vf_dbits(b);
    if (sp_isnan(a) || sp_isnan(b)) return 0;
    return x == y || ((x << 1) == 0 && (y << 1) == 0);
}
#endif
