/* C17: MakeTime, MakeDay, MakeDate, TimeClip. */
#include "vf.h"
#include "lib/rjs_date_object_inc.c"
#include "vf_rt.h"

//@assume MakeDay: the calendar functions stand for their contracts (units/datecore.c)
//@default props=C17 unwind=13 calls=VF_BOX
#define D 86400000
static int64_t g_d0, g_q, g_t, g_y, g_res; static int g_r, g_i, g_leap; static double g_n;
/* floor division, dividend shifted to be positive */
#define FD(a, b) ((int32_t)((uint32_t)((int32_t)(a) + 400000) / (b)) - 400000 / (b))
#define DFY(y) (365 * ((int32_t)(y) - 1970) + FD((y) - 1969, 4) - FD((y) - 1901, 100) + FD((y) - 1601, 400))
#define LEAP(y) (((y) % 4 == 0 && (y) % 100 != 0) || (y) % 400 == 0)
static int cum(int m, int leap)
{ static const int c[13] = {0,31,59,90,120,151,181,212,243,273,304,334,365}; return c[m] + (m > 1 ? leap : 0); }
#define YR(in) ((int64_t)IN_RANGE(in, 0, 600000) - 300000)
#define YR2(in) ((int64_t)IN_RANGE(in, 0, 550000) - 275000)
static void time_in(int64_t lo, int64_t hi) { g_q = (int64_t)IN_RANGE(0, 0, hi - lo) + lo; g_r = (int)IN_RANGE(1, 0, D - 1); g_t = g_q * D + g_r; }
#ifndef VF_NATIVE
int64_t k_day (int64_t t) { __CPROVER_assert(t == g_t, "day of the time itself"); return g_q; }
int64_t k_year (int64_t t) { __CPROVER_assert(t == g_t, "year of the time itself"); return g_y; }
int64_t k_dfy (double y) { __CPROVER_assert(y == (double)g_y, "day from the year itself"); return g_d0; }
int k_twd (int64_t t) { __CPROVER_assert(t == g_t, "time within day of the time itself"); return g_r; }
int k_leap (int64_t t) { __CPROVER_assert(t == g_t, "leap year of the time itself"); return g_leap; }
#else
/* natively the quotient and year are those of the real time */
#endif

/* ---- composition ---- */
static double g_a[4], g_d; static int64_t g_dd;
static double any_num(int in) { uint64_t u = IN64(in); ASSUME(vf_num_ok(u)); return vf_bdbl(u); }
#define FIN(x) ((x) - (x) == 0.0)
#ifndef VF_NATIVE
RJS_Result k_toint (RJS_Runtime *rt, RJS_Value *v, RJS_Number *n)
{ double x = vf_num(*rjs_value_get_pointer(rt, v)); *n = trunc(x) == 0.0 ? 0.0 : trunc(x); return RJS_OK; }
#endif
static double tr(double x) { double t = trunc(x); return t == 0.0 ? 0.0 : t; }
//@unit name=clip fns=time_clip calls=VF_BOX,rjs_to_integer_or_infinity:k_toint
void h_clip(void)
{
    RJS_Runtime *rt = vf_rt(); double n = any_num(0), w;
    g_d = time_clip(rt, n); w = !FIN(n) || n > 8.64e15 || n < -8.64e15 ? 0.0/0.0 : tr(n);
    CHECK("TimeClip", vf_same(g_d, w)); REACH();
}
static void mktime4(int h, int m, int sec, int ms)
{
    RJS_Runtime *rt = vf_rt();
    g_d = make_time(rt, h, m, sec, ms);
    CHECK("MakeTime", g_d == (double)(((int64_t)h * 60 + m) * 60000 + sec * 1000 + ms)); REACH();
}
//@unit name=mktime_hm fns=make_time calls=VF_BOX,rjs_to_integer_or_infinity:k_toint bounded="integer hours within +-31, minutes within +-63, 7 s, 5 ms"
void h_mktime_hm(void) { mktime4((int)IN_RANGE(0, 0, 62) - 31, (int)IN_RANGE(1, 0, 126) - 63, 7, 5); }
//@unit name=mktime_sms fns=make_time calls=VF_BOX,rjs_to_integer_or_infinity:k_toint bounded="11 h, 3 min, integer seconds within +-63, milliseconds within +-1023"
void h_mktime_sms(void) { mktime4(11, 3, (int)IN_RANGE(0, 0, 126) - 63, (int)IN_RANGE(1, 0, 2046) - 1023); }
//@unit name=mktime_bad fns=make_time calls=VF_BOX,rjs_to_integer_or_infinity:k_toint
void h_mktime_bad(void)
{
    RJS_Runtime *rt = vf_rt(); int i;
    for (i = 0; i < 4; i ++) g_a[i] = any_num(i);
    ASSUME(!FIN(g_a[0]) || !FIN(g_a[1]) || !FIN(g_a[2]) || !FIN(g_a[3]));
    g_d = make_time(rt, g_a[0], g_a[1], g_a[2], g_a[3]);
    CHECK("a part that is not finite gives no time", g_d != g_d); REACH();
}
//@unit name=mkdate fns=make_date bounded="days within +-1023, time within +-4095 ms"
void h_mkdate(void)
{
    RJS_Runtime *rt = vf_rt(); int d = (int)IN_RANGE(0, 0, 2046) - 1023, t = (int)IN_RANGE(1, 0, 8190) - 4095;
    g_d = make_date(rt, d, t);
    CHECK("MakeDate", g_d == (double)((int64_t)d * D + t)); REACH();
}
//@unit name=mkdate_bad fns=make_date
void h_mkdate_bad(void)
{
    RJS_Runtime *rt = vf_rt(); int i;
    for (i = 0; i < 2; i ++) g_a[i] = any_num(i);
    ASSUME(!FIN(g_a[0]) || !FIN(g_a[1]) || g_a[0] > 1e305 || g_a[0] < -1e305);
    g_d = make_date(rt, g_a[0], g_a[1]);
    CHECK("a part that is not finite gives no date", g_d != g_d || (FIN(g_a[0]) && FIN(g_a[1]) && FIN(g_d))); REACH();
}
#ifndef VF_NATIVE
int64_t k_tfy2 (int64_t y) { __CPROVER_assert(y == g_y, "first instant of the year reached by the months"); return g_t; }
#endif
/* years and months as integers, month carried into the year */
static void mkday(double y, double m, double d, int64_t yi, int64_t mi, int64_t di)
{
    RJS_Runtime *rt = vf_rt(); int64_t fm = mi >= 0 ? mi / 12 : -((-mi + 11) / 12); int mn = (int)(mi - fm * 12);
    g_y = yi + fm;
#ifdef VF_NATIVE
    g_d0 = DFY(g_y); g_leap = LEAP(g_y); g_q = g_d0;
#else
    g_t = 12345678; g_leap = (int)IN_RANGE(10, 0, 1); g_q = (int64_t)IN_RANGE(11, 0, 210000000) - 105000000;
#endif
    g_d = make_day(rt, y, m, d);
    CHECK("MakeDay", g_d == (double)(g_q + cum(mn, g_leap) + di - 1)); REACH();
}
//@unit name=mkday_int fns=make_day bounded="months within +-63, days within +-255" calls=VF_BOX,rjs_to_integer_or_infinity:k_toint,time_from_year:k_tfy2,in_leap_year:k_leap,day:k_day
void h_mkday_int(void)
{
    int64_t y = YR2(0), m = (int64_t)IN_RANGE(1, 0, 126) - 63, d = (int64_t)IN_RANGE(2, 0, 510) - 255;
    mkday((double)y, (double)m, (double)d, y, m, d);
}
//@unit name=mkday_frac fns=make_day bounded="years 1900-2155 of either sign, months to 32, days to 64, quarters" calls=VF_BOX,rjs_to_integer_or_infinity:k_toint,time_from_year:k_tfy2,in_leap_year:k_leap,day:k_day
void h_mkday_frac(void)
{
    int64_t y = (int64_t)IN_RANGE(0, 0, 255) + 1900, m = (int64_t)IN_RANGE(1, 0, 31) + 1, d = (int64_t)IN_RANGE(2, 0, 63) + 1, f = IN_RANGE(3, 0, 3), s = IN_RANGE(4, 0, 7);
    int64_t ys = s & 1 ? -1 : 1, ms = s & 2 ? -1 : 1, ds = s & 4 ? -1 : 1;
    mkday(ys * ((double)y + f * 0.25), ms * ((double)m + f * 0.25), ds * ((double)d + f * 0.25), ys * y, ms * m, ds * d);
}
//@unit name=mkday_bad fns=make_day calls=VF_BOX,rjs_to_integer_or_infinity:k_toint,floor:k_flr,time_from_year:k_any,in_leap_year:k_leap2,day:k_any
#ifndef VF_NATIVE
int64_t k_any (int64_t t) { return (int64_t)IN64(30); }
int k_leap2 (int64_t t) { return (int)IN_RANGE(31, 0, 1); }
double k_flr (double x) { return vf_bdbl(IN64(32)); }
#endif
void h_mkday_bad(void)
{
    RJS_Runtime *rt = vf_rt(); int i;
    for (i = 0; i < 3; i ++) g_a[i] = any_num(i);
    ASSUME(!FIN(g_a[0]) || !FIN(g_a[1]) || !FIN(g_a[2]));
    g_d = make_day(rt, g_a[0], g_a[1], g_a[2]);
    CHECK("a part that is not finite gives no day", g_d != g_d); REACH();
}
