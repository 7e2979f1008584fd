/* C19: the hash table - lookup, insertion, growth, removal keep exactly the entries inserted and not removed. */
#include "vf.h"
#define memset vf_memset
static void *vf_memset(void *p, int c, unsigned long n);
#include "lib/rjs_hash.c"
#undef memset
//@assume bounded: at most 4 entries in chains of at most 3 before the operation; chains are followed one link at a time
//@default props=C19 unwind=26 dfcc=0 flags="--object-bits 12" bounded="tables of 1, 8 or 24 lists with at most 4 entries; hash values from {0, 1, 7, 2^64-1 and neighbours}"
#define NE 5
typedef struct { size_t kv; int id; } K;
static RJS_Hash g_h; static RJS_HashEntry *g_lists[24]; static RJS_HashEntry E[NE]; static K k[NE], g_probe; static int in[NE], s_keys, s_free, s_alloc; static RJS_HashEntry *g_new[24];
static struct { int n, c; } X;
static void *vf_memset(void *p, int c, unsigned long n) { unsigned long i; RJS_HashEntry **q = p; for (i = 0; i < 24; i ++) if (i < n / sizeof(*q)) q[i] = NULL; return p; }
static void *o_realloc(void *d, void *p, size_t os, size_t ns)
{
    if (ns == 0) { CHECK("the old lists are released with their size", p == g_lists && os == sizeof(RJS_HashEntry*) * g_h.list_num && g_h.list_num > 1); s_free ++; return NULL; }
    CHECK("new lists, one pointer each", p == NULL && os == 0 && ns % sizeof(RJS_HashEntry*) == 0 && ns <= sizeof g_new && ns > sizeof(RJS_HashEntry*)); s_alloc = ns / sizeof(RJS_HashEntry*); return g_new;
}
static size_t o_key(void *d, void *p) { s_keys ++; return ((K*)p)->kv; }
static RJS_Bool o_equal(void *d, void *a, void *b) { return ((K*)a)->id == ((K*)b)->id; }
static const RJS_HashOps ops = { o_realloc, o_key, o_equal };
static const size_t KV[4] = { 0, 7, (size_t)-1, 16 };
/* the table: n entries, the hash value of entry i by two bits of c, newest first in its chain */
static void build(int ln)
{
    int i; RJS_HashEntry **b;
    rjs_hash_init(&g_h); g_h.list_num = ln; s_free = s_alloc = 0;
    for (i = 0; i < 24; i ++) { g_lists[i] = NULL; g_new[i] = &E[4]; }
    if (ln > 1) g_h.e.lists = g_lists;
    for (i = 0; i < NE; i ++) { k[i].id = i; k[i].kv = KV[(X.c >> 2 * i) & 3]; in[i] = i < X.n; }
    for (i = 0; i < NE; i ++) if (i < X.n) { E[i].key = &k[i]; b = ln == 1 ? &g_h.e.list : &g_lists[k[i].kv % ln]; E[i].next = *b; *b = &E[i]; g_h.entry_num ++; }
}
/* exactly the entries marked present, each in its own list */
static int intact(void)
{
    int i, j, n = 0, c = 0; RJS_HashEntry *e;
    for (i = 0; i < NE; i ++) n += in[i];
    if (g_h.entry_num != (size_t)n) return 0;
    for (j = 0; j < 24; j ++) if (j < (int)g_h.list_num)
        for (e = g_h.list_num == 1 ? g_h.e.list : g_h.e.lists[j], i = 0; e && i < 6; e = e->next, i ++) { K *q = e->key; if (e != &E[q->id] || q != &k[q->id] || !in[q->id] || (g_h.list_num > 1 && q->kv % g_h.list_num != (size_t)j)) return 0; c ++; }
    for (i = 0; i < NE; i ++) if (in[i]) { for (e = g_h.list_num == 1 ? g_h.e.list : g_h.e.lists[k[i].kv % g_h.list_num], j = 0; e && j < 6; e = e->next, j ++) if (e == &E[i]) break; if (!e) return 0; }
    return c == n;
}
#ifndef VF_NATIVE
#define EACH(N0,N,body) do { int xn = (int)IN_RANGE(0, N0, N), xc = (int)IN_RANGE(1, 0, 255), a, b; for (a = N0; a <= N; a ++) for (b = 0; b < (1 << 2 * a); b ++) if (xn == a && xc == b) { X.n = a; X.c = b; body; ASSUME(0); } } while (0)
#else
#define EACH(N0,N,body) do { X.n = (int)IN_RANGE(0, N0, N); X.c = (int)IN_RANGE(1, 0, 255); body; } while (0)
#endif
static void do_ops(int ln)
{
    RJS_HashEntry *e, **pe; RJS_Result r; int i;
    for (i = 0; i < NE; i ++) if (i <= X.n) {
        build(ln); g_probe = k[i];
        r = rjs_hash_lookup(&g_h, &g_probe, &e, &pe, &ops, NULL);
        CHECK("lookup finds exactly the entries in the table", r == (i < X.n) && e == (i < X.n ? &E[i] : NULL) && intact());
        if (r) {
            CHECK("and the place it hangs from", *pe == e);
            rjs_hash_remove(&g_h, pe, NULL); in[i] = 0;
            CHECK("removal takes exactly that entry", intact() && s_free == 0 && s_alloc == 0);
        } else {
            rjs_hash_insert(&g_h, &k[i], &E[i], pe, &ops, NULL); in[i] = 1;
            CHECK("insertion adds exactly that entry", intact());
            CHECK("growth happens only when the lists are full, into zeroed lists", s_alloc == (X.n >= 3 * ln ? 8 : 0) && g_h.list_num == (X.n >= 3 * ln ? 8u : (unsigned)ln) && s_free == 0);
        }
    }
    REACH();
}
//@unit name=hash_one unwind=66 fns=rjs_hash_lookup,rjs_hash_insert,rjs_hash_remove,hash_expand
void h_hash_one(void) { EACH(0, 3, do_ops(1)); }
//@unit name=hash_eight unwind=66 fns=rjs_hash_lookup,rjs_hash_insert,rjs_hash_remove
void h_hash_eight(void) { EACH(0, 3, do_ops(8)); }
//@unit name=hash_grow_again unwind=66 fns=rjs_hash_insert,hash_expand
static void do_grow(void)
{
    RJS_HashEntry *e, **pe; int i;
    build(8); g_h.entry_num = 24;
    rjs_hash_lookup(&g_h, &k[X.n], &e, &pe, &ops, NULL);
    rjs_hash_insert(&g_h, &k[X.n], &E[X.n], pe, &ops, NULL); in[X.n] = 1;
    CHECK("24 lists, the old ones released", g_h.list_num == 24 && g_h.e.lists == g_new && s_free == 1 && s_alloc == 24 && g_h.entry_num == 25);
    g_h.entry_num = 0; for (i = 0; i < NE; i ++) g_h.entry_num += in[i];
    CHECK("no entry is lost", intact()); REACH();
}
void h_hash_grow_again(void) { EACH(0, 3, do_grow()); }
//@unit name=hash_deinit fns=rjs_hash_deinit
void h_hash_deinit(void)
{
    int ln = (int)IN_RANGE(0, 0, 1) ? 8 : 1; X.n = 2; X.c = 5; build(ln);
    rjs_hash_deinit(&g_h, &ops, NULL); CHECK("lists released once, only if allocated", s_free == (ln > 1)); REACH();
}
