/* C17: the calendar arithmetic of Date. */
#include "vf.h"
#include "lib/rjs_date_object_inc.c"
#include "vf_rt.h"

//@assume day_from_year and the callers of day(): floor of a quotient of integers is the floor division, discharged separately (units floor4, floor100, floor400; day on windows of days around the epoch and the ends of the range)
//@assume year search: D*v < D*q+r iff v < q or (v == q and r > 0), for 0 <= r < D (integer arithmetic, used by the stub)
//@assume years -300000..300000 and times within +-9e15 ms
//@default props=C17 unwind=13 calls=VF_BOX
#define D 86400000
static int64_t g_d0, g_q, g_t, g_y, g_res; static int g_r, g_i, g_leap; static double g_n;
/* floor division, dividend shifted to be positive */
#define FD(a, b) ((int32_t)((uint32_t)((int32_t)(a) + 400000) / (b)) - 400000 / (b))
#define DFY(y) (365 * ((int32_t)(y) - 1970) + FD((y) - 1969, 4) - FD((y) - 1901, 100) + FD((y) - 1601, 400))
#define LEAP(y) (((y) % 4 == 0 && (y) % 100 != 0) || (y) % 400 == 0)
static int cum(int m, int leap)
{ static const int c[13] = {0,31,59,90,120,151,181,212,243,273,304,334,365}; return c[m] + (m > 1 ? leap : 0); }
#define YR(in) ((int64_t)IN_RANGE(in, 0, 600000) - 300000)
#define YR2(in) ((int64_t)IN_RANGE(in, 0, 550000) - 275000)
static void time_in(int64_t lo, int64_t hi) { g_q = (int64_t)IN_RANGE(0, 0, hi - lo) + lo; g_r = (int)IN_RANGE(1, 0, D - 1); g_t = g_q * D + g_r; }
#ifndef VF_NATIVE
double k_floor (double x)
{
    double y = (double)g_y;
    if (x == (y - 1969) / 4) return (double)FD(g_y - 1969, 4);
    if (x == (y - 1901) / 100) return (double)FD(g_y - 1901, 100);
    if (x == (y - 1601) / 400) return (double)FD(g_y - 1601, 400);
    __CPROVER_assert(0, "floor of an unexpected quotient");
    return 0;
}
int64_t k_day (int64_t t) { __CPROVER_assert(t == g_t, "day of the time itself"); return g_q; }
int64_t k_year (int64_t t) { __CPROVER_assert(t == g_t, "year of the time itself"); return g_y; }
int64_t k_dfy (double y) { __CPROVER_assert(y == (double)g_y, "day from the year itself"); return g_d0; }
int k_twd (int64_t t) { __CPROVER_assert(t == g_t, "time within day of the time itself"); return g_r; }
int k_leap (int64_t t) { __CPROVER_assert(t == g_t, "leap year of the time itself"); return g_leap; }
#else
/* natively the quotient and year are those of the real time */
#endif
//@unit name=day_epoch fns=day bounded="days -1000..1000"
void h_day_epoch(void) { time_in(-1000, 1000); g_res = day(g_t); CHECK("day is the floor division", g_res == g_q); REACH(); }
//@unit name=day_lo fns=day bounded="the first 600 days in range"
void h_day_lo(void) { time_in(-100000001, -99999400); g_res = day(g_t); CHECK("day is the floor division", g_res == g_q); REACH(); }
//@unit name=day_hi fns=day bounded="the last 600 days in range"
void h_day_hi(void) { time_in(99999400, 100000001); g_res = day(g_t); CHECK("day is the floor division", g_res == g_q); REACH(); }
//@unit name=twd fns=time_within_day solver=cvc5
void h_twd(void)
{
    int64_t t = (int64_t)IN_RANGE(0, 0, 18000000000000000ull) - 9000000000000000ll;
    g_r = time_within_day(t); CHECK("time within day", (int64_t)g_r == (t % D < 0 ? t % D + D : t % D)); REACH();
}
//@unit name=weekday fns=week_day calls=VF_BOX,day:k_day
void h_weekday(void) { int64_t w; time_in(-104000000, 104000000); g_res = week_day(g_t); w = (g_q + 7 * 20000000 + 4) % 7; CHECK("week day", g_res == w); REACH(); }
//@unit name=fields fns=hour_from_time,min_from_time,sec_from_time calls=VF_BOX,time_within_day:k_twd solver=cvc5
void h_fields(void)
{
    int h, m, s; time_in(-104000000, 104000000); h = hour_from_time(g_t); m = min_from_time(g_t); s = sec_from_time(g_t);
    CHECK("hour", h == g_r / 3600000); CHECK("minute", m == (g_r / 60000) % 60); CHECK("second", s == (g_r / 1000) % 60); REACH();
}
//@unit name=field_ms fns=ms_from_time solver=cvc5
void h_field_ms(void)
{
    int64_t t = (int64_t)IN_RANGE(0, 0, 18000000000000000ull) - 9000000000000000ll;
    g_r = ms_from_time(t); CHECK("millisecond", (int64_t)g_r == (t % 1000 < 0 ? t % 1000 + 1000 : t % 1000)); REACH();
}
/* sign and size of DFY, used in k_tfy */
//@unit name=dfysign fns=day_from_year
void h_dfysign(void) { int32_t y = (int32_t)IN_RANGE(0, 0, 560000) - 280000; CHECK("sign of the first day", y >= 1970 ? DFY(y) >= 0 : DFY(y) < 0); CHECK("size", DFY(y) >= -110000000 && DFY(y) <= 110000000); REACH(); }
//@unit name=floor100 fns=day_from_year
void h_floor100(void) { int q = (int)IN_RANGE(0, 0, 6100) - 3050, r = (int)IN_RANGE(1, 0, 99); CHECK("floor(n/100)", floor((double)(q * 100 + r) / 100) == q); REACH(); }
//@unit name=floor400 fns=day_from_year
void h_floor400(void) { int q = (int)IN_RANGE(0, 0, 1600) - 800, r = (int)IN_RANGE(1, 0, 399); CHECK("floor(n/400)", floor((double)(q * 400 + r) / 400) == q); REACH(); }
//@unit name=floor4 fns=day_from_year
void h_floor4(void) { int q = (int)IN_RANGE(0, 0, 160000) - 80000, r = (int)IN_RANGE(1, 0, 3); CHECK("floor(n/4)", floor((double)(q * 4 + r) / 4) == q); REACH(); }
//@unit name=leap fns=days_in_year,is_leap_year solver=cvc5
void h_leap(void) { int64_t y = (int64_t)IN64(0); g_i = days_in_year(y); CHECK("days in year", g_i == (LEAP(y) ? 366 : 365)); CHECK("leap", is_leap_year(y) == (LEAP(y) ? 1 : 0)); REACH(); }
//@unit name=dfy_now fns=day_from_year calls=floor:k_floor bounded="years 1906..2033"
void h_dfy_now(void) { g_y = (int64_t)IN_RANGE(0, 0, 127) + 1906; g_res = day_from_year((double)g_y); CHECK("day from year", g_res == DFY(g_y)); REACH(); }
//@unit name=dfy_old fns=day_from_year calls=floor:k_floor bounded="years 1538..1665"
void h_dfy_old(void) { g_y = (int64_t)IN_RANGE(0, 0, 127) + 1538; g_res = day_from_year((double)g_y); CHECK("day from year", g_res == DFY(g_y)); REACH(); }
//@unit name=dfy_neg fns=day_from_year calls=floor:k_floor bounded="years -271821..-271694"
void h_dfy_neg(void) { g_y = (int64_t)IN_RANGE(0, 0, 127) - 271821; g_res = day_from_year((double)g_y); CHECK("day from year", g_res == DFY(g_y)); REACH(); }
//@unit name=dfy_far fns=day_from_year calls=floor:k_floor bounded="years 275633..275760"
void h_dfy_far(void) { g_y = (int64_t)IN_RANGE(0, 0, 127) + 275633; g_res = day_from_year((double)g_y); CHECK("day from year", g_res == DFY(g_y)); REACH(); }
//@unit name=tfy fns=time_from_year calls=day_from_year:k_dfy
void h_tfy(void)
{
    g_y = YR2(0);
#ifdef VF_NATIVE
    g_d0 = DFY(g_y);
#else
    g_d0 = (int64_t)IN_RANGE(1, 0, 210000000) - 105000000;
#endif
    g_res = time_from_year(g_y); CHECK("time from year", g_res == g_d0 * D); REACH();
}
/* the length of a year, over the formula DFY */
//@unit name=yearlen fns=day_from_year solver=z3new
void h_yearlen(void) { int32_t y = (int32_t)IN_RANGE(0, 0, 560000) - 280000, l; l = LEAP(y) ? 366 : 365; CHECK("a year has 365 or 366 days", DFY(y + 1) - DFY(y) == l); REACH(); }
/* first guess of the year, over the formula DFY */
//@unit name=guess_pos fns=year_from_time solver=z3new
void h_guess_pos(void) { int32_t d = (int32_t)IN_RANGE(0, 0, 100000001), y = d / 365 + 1970; CHECK("the guess is not too early", DFY(y + 1) > d); REACH(); }
//@unit name=guess_neg fns=year_from_time solver=z3new
void h_guess_neg(void) { int32_t d = -1 - (int32_t)IN_RANGE(0, 0, 100000000), y = d / 365 + 1969; CHECK("the guess is not too late", DFY(y) <= d); REACH(); }
/* the search, over any function F of the year (G, P: its two last arguments and values) that satisfies the guess lemma */
static struct { int64_t y, v, py, pv; } G;
#ifndef VF_NATIVE
int64_t nondet_i64(void);
int64_t k_tfy (int64_t y)
{
    if (y != G.y) { G.py = G.y; G.pv = G.v; G.y = y; G.v = nondet_i64(); }
    __CPROVER_assume(G.v >= -110000000 && G.v <= 110000000 && (y >= 1970 ? G.v >= 0 : G.v < 0));
    /* D * v against D * q + r (0 <= r < D): order of multiples */
    { int64_t yt = nondet_i64(); __CPROVER_assume((yt < g_t) == (G.v < g_q || (G.v == g_q && g_r > 0)) && (yt == g_t) == (G.v == g_q && g_r == 0)); return yt; }
}
#endif
static void seed(int64_t y, int neg)
{
    G.y = y; G.v = neg ? g_q - (int64_t)IN_RANGE(2, 0, 1000) : g_q + 1 + (int64_t)IN_RANGE(2, 0, 1000); G.py = -1000000; G.pv = 0;
}
static int found(void)
{
#ifdef VF_NATIVE
    return DFY(g_res) <= g_q && DFY(g_res + 1) > g_q;
#else
    return (G.y == g_res && G.v <= g_q && G.py == g_res + 1 && G.pv > g_q) || (G.py == g_res && G.pv <= g_q && G.y == g_res + 1 && G.v > g_q);
#endif
}
#ifdef VF_NATIVE
#define year_in time_in
#else
static void year_in(int64_t lo, int64_t hi) { g_q = (int64_t)IN_RANGE(0, 0, hi - lo) + lo; g_r = (int)IN_RANGE(1, 0, D - 1); g_t = (int64_t)IN_RANGE(3, 0, 18000000000000000ull) - 9000000000000000ll; }
#endif
//@unit name=year_pos fns=year_from_time calls=day:k_day,time_from_year:k_tfy loops=date.loops.json fallback=3
void h_year_pos(void) { year_in(0, 100000001); seed(g_q / 365 + 1971, 0); g_res = year_from_time(g_t); CHECK("the day lies in the year", found()); REACH(); }
//@unit name=year_neg fns=year_from_time calls=day:k_day,time_from_year:k_tfy loops=date.loops.json fallback=3
void h_year_neg(void) { year_in(-100000001, -1); seed(g_q / 365 + 1969, 1); g_res = year_from_time(g_t); CHECK("the day lies in the year", found()); REACH(); }
//@unit name=inleap fns=in_leap_year solver=cvc5 calls=year_from_time:k_year
void h_inleap(void)
{
    time_in(-100000001, 100000001);
#ifdef VF_NATIVE
    g_y = year_from_time(g_t);
#else
    g_y = YR2(2);
#endif
    g_i = in_leap_year(g_t); CHECK("leap year", g_i == (LEAP(g_y) ? 1 : 0)); REACH();
}
//@unit name=mdate fns=day_within_year,month_from_time,date_from_time calls=day:k_day,year_from_time:k_year,day_from_year:k_dfy,in_leap_year:k_leap
void h_mdate(void)
{
    int m, d, leap;
#ifdef VF_NATIVE
    time_in(-100000001, 100000001); g_y = year_from_time(g_t); g_d0 = DFY(g_y); g_leap = LEAP(g_y);
#else
    /* the year and its first day: year_pos, year_neg and yearlen give this relation */
    g_y = YR2(2); g_leap = (int)IN_RANGE(3, 0, 1); time_in(-100000001, 100000001); g_d0 = (int64_t)IN_RANGE(4, 0, 210000000) - 105000000;
    ASSUME(g_d0 <= g_q && g_d0 + 365 + g_leap > g_q);
#endif
    m = month_from_time(g_t); d = date_from_time(g_t); leap = g_leap;
    CHECK("month in range", m >= 0 && m <= 11);
    CHECK("date in range", d >= 1 && d <= cum(m + 1, leap) - cum(m, leap));
    CHECK("year, month and date give the day back", g_d0 + cum(m, leap) + d - 1 == g_q); REACH();
}

