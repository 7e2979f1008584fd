/* C18: the merge sort. */
#include "vf.h"
#include "ratjs_internal.h"
#define memcpy vf_memcpy
#define malloc vf_malloc
#define free vf_free
static void vf_memcpy(void *d, const void *s, size_t n);
static void *vf_malloc(size_t n);
static void vf_free(void *p);
#include "lib/rjs_sort.c"
#undef memcpy
#undef malloc
#undef free
//@assume malloc does not fail (the code asserts it)
//@default props=C18 unwind=40 dfcc=0 flags="--object-bits 12" bounded="at most 5 items of 1 byte, 3 of 8 bytes; every sequence of answers of the comparison, every ordering with ties"
#define SZ 24
static uint8_t B[SZ], T[SZ]; static int g_n, g_size, s_malloc, s_free, s_calls, g_err, g_mode, s_rank[6];
static void vf_memcpy(void *d, const void *s, size_t n) { size_t i; uint8_t *p = d; const uint8_t *q = s; for (i = 0; i < SZ; i ++) if (i < n) { p[i] = q[i]; } }
static void *vf_malloc(size_t n) { CHECK("room for all items", n == (size_t)(g_n * g_size)); s_malloc ++; return T; }
static void vf_free(void *p) { CHECK("released", p == T); s_free ++; }
/* item ids are 1..n in their first byte; the rest of an item repeats it */
static RJS_CompareResult cmp(const void *a, const void *b, void *arg)
{
    const uint8_t *x = a, *y = b; int i, r;
    CHECK("compares two different items of the array", (const void*)x >= (void*)B && x + g_size <= B + g_n * g_size && y >= B && y + g_size <= B + g_n * g_size && (x - B) % g_size == 0 && (y - B) % g_size == 0 && *x >= 1 && *x <= g_n && *y >= 1 && *y <= g_n && *x != *y && arg == &g_mode);
    s_calls ++;
    if (g_mode == 0) { r = (int)IN_RANGE(20 + s_calls, 0, 3); return r == 3 ? RJS_ERR : r == 0 ? RJS_COMPARE_EQUAL : r == 1 ? RJS_COMPARE_LESS : RJS_COMPARE_GREATER; }
    return s_rank[*x] == s_rank[*y] ? RJS_COMPARE_EQUAL : s_rank[*x] < s_rank[*y] ? RJS_COMPARE_LESS : RJS_COMPARE_GREATER;
}
static void run(int n, int size, int mode)
{
    int i, j, c, ok = 1; RJS_Result r;
    g_n = n; g_size = size; g_mode = mode; s_malloc = s_free = s_calls = 0;
    for (i = 0; i < SZ; i ++) { B[i] = i < n * size ? 1 + i / size : 99; T[i] = 77; }
    for (i = 1; i <= 5; i ++) s_rank[i] = (int)IN_RANGE(i, 0, 4);
    r = rjs_sort(B, n, size, cmp, &g_mode);
    for (j = 1; j <= 5; j ++) if (j <= n) { for (i = c = 0; i < SZ; i ++) c += i < n * size && B[i] == j; ok &= c == size; }
    for (i = 0; i < SZ; i ++) if (i < n * size) ok &= B[i] == B[i - i % size]; else ok &= B[i] == 99;
    CHECK("every item is there exactly once, whatever the comparison answers; nothing beyond is touched", ok);
    CHECK("scratch buffer released", s_malloc == s_free && s_malloc == (n > 1));
    if (mode == 1) {
        CHECK("succeeds", r == RJS_OK);
        for (i = 1; i < 5; i ++) if (i < n) { int p = B[(i - 1) * size], q = B[i * size]; CHECK("sorted, and equal items keep their order", s_rank[p] < s_rank[q] || (s_rank[p] == s_rank[q] && p < q)); }
    }
    REACH();
}
#ifndef VF_NATIVE
#define EACH(N,body) do { int xn = (int)IN_RANGE(0, 0, N), a; for (a = 0; a <= N; a ++) if (xn == a) { int n = a; body; ASSUME(0); } } while (0)
#else
#define EACH(N,body) do { int n = (int)IN_RANGE(0, 0, N); body; } while (0)
#endif
//@unit name=sort_any_answers fns=rjs_sort,sort,merge
void h_sort_any_answers(void) { EACH(4, run(n, 1, 0)); }
//@unit name=sort_stable fns=rjs_sort,sort,merge
void h_sort_stable(void) { EACH(5, run(n, 1, 1)); }
//@unit name=sort_wide fns=rjs_sort,sort,merge
void h_sort_wide(void) { int m = (int)IN_RANGE(9, 0, 1); EACH(3, run(n, 8, m)); }
