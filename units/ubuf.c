/* C16/C15: appending to a buffer of 16-bit units. */
#include "vf.h"
struct RJS_Runtime_s;
void *k_realloc (struct RJS_Runtime_s *rt, void *p, size_t os, size_t ns);
#define RJS_VECTOR_REALLOC_FUNC k_realloc
#include "vf_mem.h"
#include "lib/rjs_uchar_buffer.c"
#undef memcpy
#include "vf_rt.h"
//@assume growing a buffer is a stub with the contract of realloc (the old contents moved to a block of the requested size); buffers of up to 8 units before the append
//@default props=C16,C15 unwind=14 dfcc=0 calls=VF_BOX
#define CAP 40
static RJS_UChar k_a[CAP], k_b[CAP], k_old[8]; static RJS_UCharBuffer k_ub; static size_t k_n, k_got; static int k_on;
void *k_realloc (RJS_Runtime *rt, void *p, size_t os, size_t ns)
{
    size_t i;
#ifdef VF_NATIVE
    extern void *rjs_realloc_assert (RJS_Runtime*, void*, size_t, size_t);
    if (!k_on) return rjs_realloc_assert(rt, p, os, ns);
    k_on = 0;
#endif
    CHECK("the current block is grown", p == (k_ub.item_cap ? (void*)k_a : NULL) && os == k_ub.item_cap * sizeof(RJS_UChar) && ns > os);
    CHECK("stand-in block large enough", ns <= sizeof k_b);
    k_got = ns / sizeof(RJS_UChar);
    for (i = 0; i < 8; i ++) if (i < k_ub.item_cap) k_b[i] = k_a[i];
    return k_b;
}
static RJS_Runtime *world(void)
{
    RJS_Runtime *rt = vf_rt(); size_t i;
    k_n = IN_RANGE(0, 0, 8); k_ub.item_num = k_n; k_ub.item_cap = IN_RANGE(1, 0, 8); ASSUME(k_ub.item_cap >= k_n); k_got = k_ub.item_cap;
    k_ub.items = k_ub.item_cap ? k_a : NULL;
    for (i = 0; i < 8; i ++) k_old[i] = k_a[i] = (RJS_UChar)IN64(2 + i);
    k_on = 1;
    return rt;
}
static void post(size_t m, const RJS_UChar *x)
{
    size_t i;
    CHECK("size", k_ub.item_num == k_n + m && k_ub.item_cap >= k_ub.item_num && k_ub.item_cap <= k_got);
    for (i = 0; i < 8; i ++) if (i < k_n) CHECK("earlier units are kept", k_ub.items[i] == k_old[i]);
    for (i = 0; i < 12; i ++) if (i < m) CHECK("the units are appended in order", k_ub.items[k_n + i] == x[i]);
}
//@unit name=append_uchar fns=rjs_uchar_buffer_append_uchar
void h_append_uchar(void)
{
    RJS_Runtime *rt = world(); RJS_UChar x = (RJS_UChar)IN64(20); RJS_Result r = rjs_uchar_buffer_append_uchar(rt, &k_ub, x);
    CHECK("ok", r == RJS_OK); post(1, &x); REACH();
}
//@unit name=append_uc fns=rjs_uchar_buffer_append_uc,rjs_uc_to_surrogate_pair
void h_append_uc(void)
{
    RJS_Runtime *rt = world(); int c = (int)IN_RANGE(20, 0, 0x10ffff); RJS_UChar x[2]; RJS_Result r = rjs_uchar_buffer_append_uc(rt, &k_ub, c);
    CHECK("ok", r == RJS_OK);
    if (c < 0x10000) { x[0] = (RJS_UChar)c; post(1, x); }
    else { x[0] = (RJS_UChar)(0xd800 + (c - 0x10000) / 1024); x[1] = (RJS_UChar)(0xdc00 + (c - 0x10000) % 1024); post(2, x); }
    REACH();
}
//@unit name=append_chars fns=rjs_uchar_buffer_append_chars bounded="at most 12 units"
void h_append_chars(void)
{
    RJS_Runtime *rt = world(); char b[12]; RJS_UChar x[12]; int i; size_t m = IN_RANGE(20, 0, 12); RJS_Result r;
    for (i = 0; i < 12; i ++) { b[i] = (char)IN_RANGE(21 + i, 1, 127); x[i] = (RJS_UChar)b[i]; }
    r = rjs_uchar_buffer_append_chars(rt, &k_ub, b, m);
    CHECK("ok", r == RJS_OK); post(m, x); REACH();
}
//@unit name=append_uchars fns=rjs_uchar_buffer_append_uchars bounded="at most 12 units"
void h_append_uchars(void)
{
    RJS_Runtime *rt = world(); RJS_UChar x[12]; int i; size_t m = IN_RANGE(20, 0, 12); RJS_Result r;
    for (i = 0; i < 12; i ++) x[i] = (RJS_UChar)IN64(21 + i);
    r = rjs_uchar_buffer_append_uchars(rt, &k_ub, x, m);
    CHECK("ok", r == RJS_OK); post(m, x); REACH();
}
