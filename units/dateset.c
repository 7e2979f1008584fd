/* C17: Date getters and setters against the contracts of the calendar functions (units/datecore.c). */
#include "vf.h"
#define rjs_throw_type_error vf_throw_type_error
#include "lib/rjs_date_object_inc.c"
#define VF_THINGS 6
#include "vf_rt.h"

//@assume ToNumber of an argument is a stub: any Number, or a throw
//@assume under the verifier the calendar functions (day, year_from_time, make_day, ... time_clip) are arbitrary-result stubs that record their arguments; natively they are the real ones
//@assume local setters: the composed date is an integer within +-9e15 when it is converted to int64_t by utc()
//@default props=C17 unwind=9 calls=VF_BOX,day:k_day,time_within_day:k_twd,year_from_time:k_year,month_from_time:k_mon,date_from_time:k_date,hour_from_time:k_hour,min_from_time:k_min,sec_from_time:k_sec,ms_from_time:k_ms,week_day:k_wd,local_time:k_local,utc:k_utc,make_day:k_mday,make_time:k_mtime,make_date:k_mdate,time_clip:k_clip,rjs_to_number:vf_to_number
static RJS_Date dt; static RJS_Value vdate, g_args[7], g_rv, g_f;
static struct { double a[7]; int fail; int argc; int64_t t; int nan; int64_t lt, day, u; int year, twd, mon, date, hour, min, sec, ms, wd; double md, mt, mdate, clip; } Q;
static struct { int conv, bad, nmd, nmt, nmdate, nutc, nclip, nlocal; double md[3], mt[4], mdate[2], clip; int64_t utc; } S;
static int g_r;

#ifndef VF_NATIVE
RJS_Result vf_to_number (RJS_Runtime *rt, RJS_Value *v, RJS_Number *n)
{
    RJS_Value x = *rjs_value_get_pointer(rt, v); int i = x == VF_UNDEF ? S.conv : (int)(x & 7);
    if (i != S.conv || i >= 7 || (x != VF_UNDEF && i >= Q.argc)) { S.bad |= 1; i = 0; }
    S.conv ++;
    if (i == Q.fail) return RJS_ERR;
    *n = x == VF_UNDEF ? 0.0/0.0 : Q.a[i];
    return RJS_OK;
}
#endif
RJS_Result vf_throw_type_error (RJS_Runtime *rt, const char *f, ...) { return RJS_ERR; }
static int g_local;
#ifndef VF_NATIVE
#define B(t) if ((t) != (Q.nan ? 0 : g_local ? Q.lt : Q.t)) S.bad |= 2
int64_t k_day (int64_t t) { B(t); return Q.day; }
int k_twd (int64_t t) { B(t); return Q.twd; }
int64_t k_year (int64_t t) { B(t); return Q.year; }
int k_mon (int64_t t) { B(t); return Q.mon; }
int k_date (int64_t t) { B(t); return Q.date; }
int k_hour (int64_t t) { B(t); return Q.hour; }
int k_min (int64_t t) { B(t); return Q.min; }
int k_sec (int64_t t) { B(t); return Q.sec; }
int k_ms (int64_t t) { B(t); return Q.ms; }
int k_wd (int64_t t) { B(t); return Q.wd; }
int64_t k_local (RJS_Runtime *rt, int64_t t) { if (t != Q.t) S.bad |= 4; S.nlocal ++; return Q.lt; }
int64_t k_utc (RJS_Runtime *rt, int64_t t) { S.nutc ++; S.utc = t; return Q.u; }
double k_mday (RJS_Runtime *rt, double y, double m, double d) { S.nmd ++; S.md[0] = y; S.md[1] = m; S.md[2] = d; return Q.md; }
double k_mtime (RJS_Runtime *rt, double h, double m, double s, double ms) { S.nmt ++; S.mt[0] = h; S.mt[1] = m; S.mt[2] = s; S.mt[3] = ms; return Q.mt; }
double k_mdate (RJS_Runtime *rt, double d, double t) { S.nmdate ++; S.mdate[0] = d; S.mdate[1] = t; return Q.mdate; }
double k_clip (RJS_Runtime *rt, double t) { S.nclip ++; S.clip = t; return Q.clip; }
#endif
static double any_num(int in) { uint64_t u = IN64(in); ASSUME(vf_num_ok(u)); return vf_bdbl(u); }
static RJS_Runtime *world(void)
{
    RJS_Runtime *rt = vf_rt(); int i;
    static RJS_ObjectOps ops;
    memset(&S, 0, sizeof S);
    ops.gc_thing_ops.type = RJS_GC_THING_DATE;
    dt.object.gc_thing.ops = (RJS_GcThingOps*)&ops; vdate = vf_new_thing(RJS_VALUE_TAG_OBJECT, &dt);
    for (i = 0; i < 7; i ++) { g_args[i] = (((RJS_Value)RJS_VALUE_TAG_INDEX_STRING) << 48) | i; Q.a[i] = any_num(i); }
    Q.argc = (int)IN_RANGE(7, 0, 7); Q.fail = (int)IN_RANGE(8, 0, 7); Q.nan = IN_RANGE(9, 0, 1);
    Q.t = (int64_t)IN_RANGE(10, 0, 17280000000000000ull) - 8640000000000000ll; if (Q.nan) Q.t = 0;
    dt.date = Q.nan ? 0.0/0.0 : (double)Q.t;
    Q.lt = Q.t;
#ifndef VF_NATIVE
    { int off = (int)IN_RANGE(11, 0, 172800000) - 86400000; Q.lt += off; }
    Q.day = (int)IN_RANGE(12, 0, 200000004) - 100000002; Q.year = (int)IN_RANGE(13, 0, 600000) - 300000; Q.twd = IN_RANGE(14, 0, 86399999);
    Q.mon = IN_RANGE(15, 0, 11); Q.date = IN_RANGE(16, 1, 31); Q.hour = IN_RANGE(17, 0, 23); Q.min = IN_RANGE(18, 0, 59); Q.sec = IN_RANGE(19, 0, 59); Q.ms = IN_RANGE(20, 0, 999);
    Q.md = any_num(21); Q.mt = any_num(22); Q.mdate = (double)((int64_t)IN_RANGE(23, 0, 18000000000000000ull) - 9000000000000000ll); Q.clip = any_num(24); Q.u = (int64_t)IN_RANGE(25, 0, 18000000000000000ull) - 9000000000000000ll;
    Q.wd = IN_RANGE(26, 0, 6);
#else
    Q.fail = 7; S.conv = -1;
    for (i = 0; i < 7; i ++) g_args[i] = vf_numv(Q.a[i]);
    /* natively: the fields of the UTC time, computed here by the civil-from-days method */
    {
        int64_t d = Q.t / 86400000, z, era, doe, yoe, doy, mp; int64_t w = Q.t % 86400000;
        if (w < 0) { w += 86400000; d --; }
        Q.day = d; Q.twd = w; z = d + 719468; era = (z >= 0 ? z : z - 146096) / 146097; doe = z - era * 146097;
        yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; doy = doe - (365 * yoe + yoe / 4 - yoe / 100); mp = (5 * doy + 2) / 153;
        Q.date = doy - (153 * mp + 2) / 5 + 1; Q.mon = mp < 10 ? mp + 2 : mp - 10; Q.year = yoe + era * 400 + (Q.mon <= 1);
        Q.hour = w / 3600000; Q.min = w / 60000 % 60; Q.sec = w / 1000 % 60; Q.ms = w % 1000; Q.wd = ((d + 4) % 7 + 7) % 7;
    }
#endif
    g_rv = VF_UNDEF; g_f = VF_UNDEF;
    return rt;
}
#define SAMEB(x, y) (vf_b(x) == vf_b(y) || ((x) != (x) && (y) != (y)))
static uint64_t vf_b(double d) { union { uint64_t u; double d; } x; x.d = d; return x.u; }
static double vf_d(uint64_t u) { union { uint64_t u; double d; } x; x.u = u; return x.d; }
#ifdef VF_NATIVE
/* days from civil */
static double n_mday(double y, double m, double d)
{
    double ym, mn; int64_t yy, era, yoe, doy; int mm;
    if (!isfinite(y) || !isfinite(m) || !isfinite(d)) return 0.0/0.0;
    y = trunc(y); m = trunc(m); d = trunc(d);
    if (fabs(y) > 400000 || fabs(m) > 4000000 || fabs(d) > 400000000) vf_skip();
    ym = y + floor(m / 12); mn = m - 12 * floor(m / 12); mm = (int)mn + 1;
    yy = (int64_t)ym - (mm <= 2); era = (yy >= 0 ? yy : yy - 399) / 400; yoe = yy - era * 400; doy = (153 * (mm + (mm > 2 ? -3 : 9)) + 2) / 5;
    return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468 + d - 1;
}
static double n_mtime(double h, double m, double s, double ms)
{ if (!isfinite(h) || !isfinite(m) || !isfinite(s) || !isfinite(ms)) return 0.0/0.0; return ((trunc(h) * 3600000 + trunc(m) * 60000) + trunc(s) * 1000) + trunc(ms); }
static double n_clip(double t) { if (!isfinite(t) || fabs(t) > 8.64e15) return 0.0/0.0; return trunc(t) + 0.0; }
#endif
/* a setter with conversions 0..n-1 mandatory first; ty: 1 = time setter, 0 = date setter.  f0: index of the first field (time: 0 h..3 ms; date: 0 y..2 d) */
static int sp_set(int r, int ty, int f0, int nmax, int nan_zero)
{
    int n = Q.argc < 1 ? 1 : Q.argc < nmax ? Q.argc : nmax, i; double v[4], w;
    if (S.bad) return 0;
    if (Q.fail < n && !(Q.fail == 0 && Q.argc == 0 && 0)) return r == RJS_ERR && S.conv == Q.fail + 1 && SAMEB(dt.date, Q.nan ? 0.0/0.0 : (double)Q.t);
    if (r != RJS_OK || (S.conv != n && S.conv != -1)) return 0;
    if (Q.nan && !nan_zero) return dt.date != dt.date && vf_d(g_rv) != vf_d(g_rv);
    if (ty) { v[0] = Q.hour; v[1] = Q.min; v[2] = Q.sec; v[3] = Q.ms; } else { v[0] = Q.year; v[1] = Q.mon; v[2] = Q.date; v[3] = 0; }
    for (i = 0; i < n; i ++) v[f0 + i] = Q.argc ? Q.a[i] : 0.0/0.0;
#ifndef VF_NATIVE
    if (ty) {
        if (S.nmt != 1 || S.nmd || !SAMEB(S.mt[0], v[0]) || !SAMEB(S.mt[1], v[1]) || !SAMEB(S.mt[2], v[2]) || !SAMEB(S.mt[3], v[3])) return 0;
        if (!SAMEB(S.mdate[0], (double)Q.day) || !SAMEB(S.mdate[1], Q.mt)) return 0;
    } else {
        if (S.nmd != 1 || S.nmt || !SAMEB(S.md[0], v[0]) || !SAMEB(S.md[1], v[1]) || !SAMEB(S.md[2], v[2])) return 0;
        if (!SAMEB(S.mdate[0], Q.md) || !SAMEB(S.mdate[1], (double)Q.twd)) return 0;
    }
    if (S.nmdate != 1 || S.nclip != 1) return 0;
    if (g_local) { if (S.nutc != 1 || S.utc != (int64_t)Q.mdate || !SAMEB(S.clip, (double)Q.u)) return 0; }
    else if (S.nutc || !SAMEB(S.clip, Q.mdate)) return 0;
    w = Q.clip;
#else
    w = ty ? (double)Q.day * 86400000 + n_mtime(v[0], v[1], v[2], v[3]) : n_mday(v[0], v[1], v[2]) * 86400000 + Q.twd;
    w = n_clip(w);
#endif
    return SAMEB(dt.date, w) && SAMEB(vf_d(g_rv), w);
}
static int sp_get(int r, double v) { return r == RJS_OK && !S.bad && S.conv <= 0 && SAMEB(dt.date, Q.nan ? 0.0/0.0 : (double)Q.t) && SAMEB(vf_d(g_rv), Q.nan ? 0.0/0.0 : v); }

#define A_ ASG(S, dt.date, g_rv, __CPROVER_object_whole(vf_stack_s), vf_ns_s.value.item_num)
#define SETTER(nm, loc, ty, f0, nm_, nz) \
CONTRACT(RJS_Result Date_prototype_##nm (RJS_Runtime *rt, RJS_Value *f, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *nt, RJS_Value *rv) A_ ENS(sp_set(__CPROVER_return_value, ty, f0, nm_, nz));) \
void h_##nm(void) { RJS_Runtime *rt = world(); g_local = loc; g_r = Date_prototype_##nm(rt, &g_f, &vdate, g_args, Q.argc, NULL, &g_rv); NCHECK(#nm, sp_set(g_r, ty, f0, nm_, nz)); REACH(); }
#define GETTER(nm, loc, fld) \
CONTRACT(RJS_Result Date_prototype_##nm (RJS_Runtime *rt, RJS_Value *f, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *nt, RJS_Value *rv) A_ ENS(sp_get(__CPROVER_return_value, (double)(fld)));) \
void h_##nm(void) { RJS_Runtime *rt = world(); g_local = loc; g_r = Date_prototype_##nm(rt, &g_f, &vdate, g_args, Q.argc, NULL, &g_rv); NCHECK(#nm, sp_get(g_r, (double)(fld))); REACH(); }
//@unit name=setUTCMilliseconds enforce=Date_prototype_setUTCMilliseconds
SETTER(setUTCMilliseconds, 0, 1, 3, 1, 0)
//@unit name=setUTCSeconds enforce=Date_prototype_setUTCSeconds
SETTER(setUTCSeconds, 0, 1, 2, 2, 0)
//@unit name=setUTCMinutes enforce=Date_prototype_setUTCMinutes
SETTER(setUTCMinutes, 0, 1, 1, 3, 0)
//@unit name=setUTCHours enforce=Date_prototype_setUTCHours
SETTER(setUTCHours, 0, 1, 0, 4, 0)
//@unit name=setUTCDate enforce=Date_prototype_setUTCDate
SETTER(setUTCDate, 0, 0, 2, 1, 0)
//@unit name=setUTCMonth enforce=Date_prototype_setUTCMonth
SETTER(setUTCMonth, 0, 0, 1, 2, 0)
//@unit name=setUTCFullYear enforce=Date_prototype_setUTCFullYear
SETTER(setUTCFullYear, 0, 0, 0, 3, 1)
//@unit name=setMilliseconds enforce=Date_prototype_setMilliseconds
SETTER(setMilliseconds, 1, 1, 3, 1, 0)
//@unit name=setSeconds enforce=Date_prototype_setSeconds
SETTER(setSeconds, 1, 1, 2, 2, 0)
//@unit name=setMinutes enforce=Date_prototype_setMinutes
SETTER(setMinutes, 1, 1, 1, 3, 0)
//@unit name=setHours enforce=Date_prototype_setHours
SETTER(setHours, 1, 1, 0, 4, 0)
//@unit name=setDate enforce=Date_prototype_setDate
SETTER(setDate, 1, 0, 2, 1, 0)
//@unit name=setMonth enforce=Date_prototype_setMonth
SETTER(setMonth, 1, 0, 1, 2, 0)
//@unit name=setFullYear enforce=Date_prototype_setFullYear
SETTER(setFullYear, 1, 0, 0, 3, 1)
//@unit name=getUTCMilliseconds enforce=Date_prototype_getUTCMilliseconds
GETTER(getUTCMilliseconds, 0, Q.ms)
//@unit name=getUTCSeconds enforce=Date_prototype_getUTCSeconds
GETTER(getUTCSeconds, 0, Q.sec)
//@unit name=getUTCMinutes enforce=Date_prototype_getUTCMinutes
GETTER(getUTCMinutes, 0, Q.min)
//@unit name=getUTCHours enforce=Date_prototype_getUTCHours
GETTER(getUTCHours, 0, Q.hour)
//@unit name=getUTCDate enforce=Date_prototype_getUTCDate
GETTER(getUTCDate, 0, Q.date)
//@unit name=getUTCMonth enforce=Date_prototype_getUTCMonth
GETTER(getUTCMonth, 0, Q.mon)
//@unit name=getUTCFullYear enforce=Date_prototype_getUTCFullYear
GETTER(getUTCFullYear, 0, Q.year)
//@unit name=getUTCDay enforce=Date_prototype_getUTCDay
GETTER(getUTCDay, 0, Q.wd)
//@unit name=getMilliseconds enforce=Date_prototype_getMilliseconds
GETTER(getMilliseconds, 1, Q.ms)
//@unit name=getSeconds enforce=Date_prototype_getSeconds
GETTER(getSeconds, 1, Q.sec)
//@unit name=getMinutes enforce=Date_prototype_getMinutes
GETTER(getMinutes, 1, Q.min)
//@unit name=getHours enforce=Date_prototype_getHours
GETTER(getHours, 1, Q.hour)
//@unit name=getDate enforce=Date_prototype_getDate
GETTER(getDate, 1, Q.date)
//@unit name=getMonth enforce=Date_prototype_getMonth
GETTER(getMonth, 1, Q.mon)
//@unit name=getFullYear enforce=Date_prototype_getFullYear
GETTER(getFullYear, 1, Q.year)
//@unit name=getDay enforce=Date_prototype_getDay
GETTER(getDay, 1, Q.wd)
//@unit name=getTime enforce=Date_prototype_getTime
GETTER(getTime, 0, Q.t)
//@unit name=valueOf enforce=Date_prototype_valueOf
GETTER(valueOf, 0, Q.t)
/* Date.UTC: 7 parts, two-digit years */
static double yr(double t) { if (t >= 0 && t <= 99) return t + 1900; return t; }
static double g_yt;
static int sp_utc(int r)
{
    int n = Q.argc < 1 ? 1 : Q.argc, i; double v[7], w;
    static const double dfl[7] = {0, 0, 1, 0, 0, 0, 0};
    if (S.bad) return 0;
    if (Q.fail < n) return r == RJS_ERR && S.conv == Q.fail + 1;
    if (r != RJS_OK || (S.conv != n && S.conv != -1)) return 0;
    for (i = 0; i < 7; i ++) v[i] = i < Q.argc ? Q.a[i] : dfl[i];
    if (!Q.argc) v[0] = 0.0/0.0;
    v[0] = v[0] != v[0] ? v[0] : yr(g_yt);
#ifndef VF_NATIVE
    if (S.nmt != 1 || S.nmd != 1 || S.nmdate != 1 || S.nclip != 1 || S.nutc) return 0;
    if (!SAMEB(S.md[0], v[0]) || !SAMEB(S.md[1], v[1]) || !SAMEB(S.md[2], v[2])) return 0;
    if (!SAMEB(S.mt[0], v[3]) || !SAMEB(S.mt[1], v[4]) || !SAMEB(S.mt[2], v[5]) || !SAMEB(S.mt[3], v[6])) return 0;
    if (!SAMEB(S.mdate[0], Q.md) || !SAMEB(S.mdate[1], Q.mt) || !SAMEB(S.clip, Q.mdate)) return 0;
    w = Q.clip;
#else
    w = n_clip(n_mday(v[0], v[1], v[2]) * 86400000 + n_mtime(v[3], v[4], v[5], v[6]));
#endif
    return SAMEB(vf_d(g_rv), w);
}
#ifndef VF_NATIVE
RJS_Result k_toint (RJS_Runtime *rt, RJS_Value *v, RJS_Number *n)
{ double x = vf_num(*rjs_value_get_pointer(rt, v)); if (x != Q.a[0]) S.bad |= 8; *n = g_yt; return RJS_OK; }
#endif
CONTRACT(RJS_Result Date_UTC (RJS_Runtime *rt, RJS_Value *f, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *nt, RJS_Value *rv) A_ ENS(sp_utc(__CPROVER_return_value));)
//@unit name=date_utc enforce=Date_UTC calls=VF_BOX,make_day:k_mday,make_time:k_mtime,make_date:k_mdate,time_clip:k_clip,rjs_to_number:vf_to_number,rjs_to_integer_or_infinity:k_toint
void h_date_utc(void) { RJS_Runtime *rt = world(); g_yt = trunc(Q.a[0]); if (g_yt == 0.0) g_yt = 0.0; g_r = Date_UTC(rt, &g_f, &vdate, g_args, Q.argc, NULL, &g_rv); NCHECK("Date.UTC", sp_utc(g_r)); REACH(); }
/* Date.prototype.setTime */
static int sp_settime(int r)
{
    double a = Q.argc ? Q.a[0] : 0.0/0.0, w;
    if (S.bad) return 0;
    if (Q.fail < 1) return r == RJS_ERR && S.conv == 1 && SAMEB(dt.date, Q.nan ? 0.0/0.0 : (double)Q.t);
#ifndef VF_NATIVE
    if (S.nclip != 1 || !SAMEB(S.clip, a)) return 0;
    w = Q.clip;
#else
    w = n_clip(a);
#endif
    return r == RJS_OK && SAMEB(dt.date, w) && SAMEB(vf_d(g_rv), w);
}
CONTRACT(RJS_Result Date_prototype_setTime (RJS_Runtime *rt, RJS_Value *f, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *nt, RJS_Value *rv) A_ ENS(sp_settime(__CPROVER_return_value));)
//@unit name=setTime enforce=Date_prototype_setTime
void h_setTime(void) { RJS_Runtime *rt = world(); g_r = Date_prototype_setTime(rt, &g_f, &vdate, g_args, Q.argc, NULL, &g_rv); NCHECK("setTime", sp_settime(g_r)); REACH(); }
