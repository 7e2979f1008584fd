/* C20: Map and Set - the ordered hash and its iterators. */
#include "vf.h"
#define rjs_throw_type_error vf_throw_type
#define rjs_create_iter_result_object vf_iter_result
#define rjs_array_new vf_array_new
#include "ratjs_internal.h"
RJS_Result vf_set_index (RJS_Runtime *rt, RJS_Value *v, int64_t i, RJS_Value *x, RJS_Bool th);
#define rjs_set_index vf_set_index
RJS_Result vf_call (RJS_Runtime *rt, RJS_Value *fn, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *rv);
#define rjs_call vf_call
#define rjs_is_callable(rt,v) (*(double*)(v) == 55)
#include "lib/rjs_hash_object_inc.c"
#include "lib/rjs_map_object_inc.c"
#include "lib/rjs_set_object_inc.c"
#define VF_THINGS 6
#include "vf_rt.h"

//@assume the hash table stands for its map contract under the verifier (C19); natively it is the real one
//@assume bounded: at most 3 entries before an operation and 2 iterators; list surgery is local to an entry's two neighbours and every iterator is treated independently
//@default props=C20 flags="--object-bits 12" unwind=8 dfcc=0 calls=VF_BOX,VF_DIR,rjs_hash_lookup:k_lookup,rjs_hash_insert:k_insert,rjs_hash_remove:k_remove,rjs_hash_deinit:k_deinit,rjs_alloc_assert_0:k_alloc,rjs_alloc_assert:k_alloc,rjs_free:k_free,rjs_object_init:k_object_init bounded="at most 3 entries and 2 iterators before the operation"
#define NP 6
static RJS_HashObject ho; static RJS_HashIter it[2]; static RJS_Value g_hash, g_iter[2], g_args[2], g_rv, g_this; static RJS_MapEntry *P[NP]; static int g_n, g_ni, g_cur[2];
static RJS_ObjectOps g_ops, g_iops;
static int s_throw, s_res, s_arr, s_set, s_done, s_bad; static RJS_Value s_v, s_el[2];
RJS_Result vf_throw_type (RJS_Runtime *rt, const char *m, ...) { s_throw ++; return RJS_ERR; }
RJS_Result vf_iter_result (RJS_Runtime *rt, RJS_Value *v, RJS_Bool done, RJS_Value *rv) { s_res ++; s_v = *rjs_value_get_pointer(rt, v); s_done = done; return RJS_OK; }
RJS_Result vf_array_new (RJS_Runtime *rt, RJS_Value *v, RJS_Number n, RJS_Value *proto) { s_arr ++; if (n != 2 || proto) s_bad = 1; v = rjs_value_get_pointer(rt, v); *v = vf_numv(777); return RJS_OK; }
RJS_Result vf_set_index (RJS_Runtime *rt, RJS_Value *v, int64_t i, RJS_Value *x, RJS_Bool th) { if (i < 0 || i > 1 || vf_num(*rjs_value_get_pointer(rt, v)) != 777) s_bad = 1; else s_el[i] = *x; s_set ++; return RJS_OK; }
#ifndef VF_NATIVE
static RJS_MapEntry pool[NP]; static int np, alive[NP]; static RJS_HashEntry *g_slot;
static int find(RJS_Value k) { int i; for (i = 0; i < NP; i ++) if (i < np && alive[i] && vf_num(pool[i].se.key) == vf_num(k)) return i; return -1; }
static int s_size;
RJS_Result k_lookup (RJS_Hash *h, void *key, RJS_HashEntry **e, RJS_HashEntry ***pe, const RJS_HashOps *ops, void *data)
{
    int i = find(*(RJS_Value*)key);
    CHECK("the object's table, under SameValueZero", h == &ho.hash && ops == &rjs_hash_value_ops_0);
    g_slot = i < 0 ? NULL : &pool[i].se.he; if (e) *e = g_slot; if (pe) *pe = &g_slot;
    return i < 0 ? RJS_FALSE : RJS_TRUE;
}
void k_insert (RJS_Hash *h, void *key, RJS_HashEntry *e, RJS_HashEntry **pe, const RJS_HashOps *ops, void *data)
{
    int i = np - 1;
    CHECK("the new entry goes in under its own key, as +0 if it is -0", h == &ho.hash && ops == &rjs_hash_value_ops_0 && pe == &g_slot && e == &pool[i].se.he && key == &pool[i].se.key && !alive[i] && pool[i].se.key != 0x8000000000000000ull);
    alive[i] = 1; h->entry_num ++;
}
void k_remove (RJS_Hash *h, RJS_HashEntry **pe, void *data)
{ int i; CHECK("removed where found", h == &ho.hash && pe == &g_slot && g_slot); for (i = 0; i < NP; i ++) if (g_slot == &pool[i].se.he) alive[i] = 0; h->entry_num --; }
void k_deinit (RJS_Hash *h, const RJS_HashOps *ops, void *data) { int i; CHECK("cleared", h == &ho.hash); for (i = 0; i < NP; i ++) alive[i] = 0; }
void *k_alloc (RJS_Runtime *rt, size_t n) { if (s_size == 1) return &it[1]; CHECK("entry size", n == sizeof(RJS_MapEntry) || n == sizeof(RJS_SetEntry)); ASSUME(np < NP); P[np] = &pool[np]; return &pool[np ++]; }
static int s_freed; static void *s_fp[4];
void k_free (RJS_Runtime *rt, void *p, size_t n) { CHECK("freed with its size", s_size || n == (g_ops.gc_thing_ops.type == RJS_GC_THING_MAP ? sizeof(RJS_MapEntry) : sizeof(RJS_SetEntry))); if (s_freed < 4) s_fp[s_freed] = p; s_freed ++; }
RJS_Result k_object_init (RJS_Runtime *rt, RJS_Value *v, RJS_Object *o, RJS_Value *proto, const RJS_ObjectOps *ops) { if (o != &it[1].object || ops != &hash_iter_ops) s_bad = 1; s_res ++; return (int)vin[20] ? RJS_OK : RJS_ERR; }
#endif
/* the list from `from' is exactly exp[0..n) up to the head, linked both ways */
static int is_list(RJS_List *from, RJS_MapEntry **e, int n)
{
    int i; RJS_List *p = from, *b = NULL;
    for (i = 0; i < NP && i < n; i ++) { if (p != &e[i]->se.ln || (b && p->prev != b)) return 0; b = p; p = p->next; }
    return p == &ho.list && (!b || p->prev == b);
}
static int whole(RJS_MapEntry **e, int n) { return is_list(ho.list.next, e, n) && (n ? ho.list.next->prev : ho.list.prev) == &ho.list && ho.hash.entry_num == (size_t)n; }
/* one configuration: entries, iterator places, key; under the verifier every
 * configuration is a constant case so that the list surgery is followed exactly */
static struct { int n, c0, c1, k; } X;
#ifndef VF_NATIVE
#define EACH(N,C,K,body) do { int xn = (int)IN_RANGE(0, 0, N), x0 = (int)IN_RANGE(1, 0, C), x1 = (int)IN_RANGE(2, 0, C), xk = (int)IN_RANGE(3, 0, K), a, b, c, d; ASSUME(x0 <= xn && x1 <= xn); \
    for (a = 0; a <= N; a ++) for (b = 0; b <= a && b <= C; b ++) for (c = 0; c <= a && c <= C; c ++) for (d = 0; d <= K; d ++) if (xn == a && x0 == b && x1 == c && xk == d) { X.n = a; X.c0 = b; X.c1 = c; X.k = d; body; ASSUME(0); } } while (0)
#else
#define EACH(N,C,K,body) do { X.n = (int)IN_RANGE(0, 0, N); X.c0 = (int)IN_RANGE(1, 0, C); X.c1 = (int)IN_RANGE(2, 0, C); X.k = (int)IN_RANGE(3, 0, K); ASSUME(X.c0 <= X.n && X.c1 <= X.n); body; } while (0)
#endif
static double keyof(int i) { return i == 0 ? 0.0 : i + 1; }
static RJS_Runtime *world(int map, int maxit)
{
    RJS_Runtime *rt = vf_rt(); int i;
    s_throw = s_res = s_arr = s_set = s_done = s_bad = 0;
    g_ops.gc_thing_ops.type = map ? RJS_GC_THING_MAP : RJS_GC_THING_SET; g_iops.gc_thing_ops.type = RJS_GC_THING_HASH_ITERATOR;
    ho.object.gc_thing.ops = (RJS_GcThingOps*)&g_ops; rjs_hash_init(&ho.hash); rjs_list_init(&ho.list); rjs_list_init(&ho.iters);
    g_hash = vf_new_thing(RJS_VALUE_TAG_OBJECT, &ho);
    g_n = X.n; g_ni = maxit;
#ifndef VF_NATIVE
    np = g_n; s_freed = 0; s_size = 0; ho.hash.entry_num = g_n;
    for (i = 0; i < NP; i ++) alive[i] = 0;
#endif
    for (i = 0; i < 3; i ++) if (i < g_n) {
#ifndef VF_NATIVE
        P[i] = &pool[i]; alive[i] = 1; P[i]->se.key = vf_numv(keyof(i)); rjs_list_append(&ho.list, &P[i]->se.ln);
#else
        RJS_Value k = vf_numv(keyof(i)); P[i] = (RJS_MapEntry*)hash_add(rt, &g_hash, &k, map ? sizeof(RJS_MapEntry) : sizeof(RJS_SetEntry));
#endif
        if (map) P[i]->value = vf_numv(100 + i);
    }
    for (i = 0; i < 2; i ++) if (i < g_ni) {
        g_cur[i] = i ? X.c1 : X.c0;
        it[i].object.gc_thing.ops = (RJS_GcThingOps*)&g_iops; it[i].hash = g_hash; it[i].type = (int)IN_RANGE(4 + i, 0, 2); it[i].done = (int)IN_RANGE(6 + i, 0, 1);
        it[i].curr = g_cur[i] == g_n ? &ho.list : &P[g_cur[i]]->se.ln; ASSUME(!it[i].done || g_cur[i] == g_n);
        rjs_list_append(&ho.iters, &it[i].ln); g_iter[i] = vf_new_thing(RJS_VALUE_TAG_OBJECT, &it[i]);
    }
    g_rv = VF_NULL; g_this = g_hash; g_args[1] = vf_numv(IN_RANGE(9, 200, 300)); return rt;
}
/* a key: one of the entries', -0, or a new one */
static int pick(void) { int k = X.k; g_args[0] = vf_numv(k == 4 ? -0.0 : k == 3 ? 9.5 : keyof(k)); return k == 4 ? (g_n > 0 ? 0 : -1) : k < 3 && k < g_n ? k : -1; }
#define NUMV(v,d) ((v) == vf_numv(d))
#define BOOLV(v) ((v) == ((((RJS_Value)RJS_VALUE_TAG_BOOLEAN) << 48) | 1) ? 1 : (v) == (((RJS_Value)RJS_VALUE_TAG_BOOLEAN) << 48) ? 0 : -1)
/* what an unfinished iterator still has to visit is entries [c..) of the new sequence */
static int iters_at(RJS_MapEntry **e, int n, int c0, int c1)
{ return (g_ni < 1 || (is_list(it[0].curr, e + c0, n - c0))) && (g_ni < 2 || is_list(it[1].curr, e + c1, n - c1)); }
static void do_add(int map)
{
    RJS_Runtime *rt = world(map, 2); int k = pick(), n = g_n, i; RJS_Result r; RJS_List *l = ho.list.prev;
    r = map ? Map_prototype_set(rt, NULL, &g_this, g_args, 2, NULL, &g_rv) : Set_prototype_add(rt, NULL, &g_this, g_args, 1, NULL, &g_rv);
    CHECK("returns the collection", r == RJS_OK && s_throw == 0 && g_rv == g_hash);
    if (k < 0) { n = g_n + 1;
#ifdef VF_NATIVE
        P[g_n] = RJS_CONTAINER_OF(ho.list.prev, RJS_MapEntry, se.ln);
#endif
        CHECK("the key is stored, as +0 if it is -0", P[g_n]->se.key == (vf_num(g_args[0]) == 0 ? vf_numv(0) : g_args[0])); k = g_n; }
    CHECK("new keys come last, known ones keep their place", whole(P, n));
    for (i = 0; i < 3; i ++) if (map && i < n) CHECK("only the value of that key changes", P[i]->value == (i == k ? g_args[1] : vf_numv(100 + i)));
    if (map && n == 4) CHECK("the new value", P[3]->value == (k == 3 ? g_args[1] : 0));
    CHECK("iterators keep their place; unfinished ones will see the new entry", iters_at(P, n, it[0].done ? n : g_cur[0], it[1].done ? n : g_cur[1])); REACH();
}
//@unit name=map_set fns=Map_prototype_set,hash_add
void h_map_set(void) { EACH(3, 3, 4, do_add(1)); }
//@unit name=set_add fns=Set_prototype_add,hash_add
void h_set_add(void) { EACH(3, 3, 4, do_add(0)); }
static void do_del(int map)
{
    RJS_Runtime *rt = world(map, 2); int k = pick(), n = g_n, i, c0, c1; RJS_Result r; RJS_MapEntry *x = k < 0 ? NULL : P[k];
    r = map ? Map_prototype_delete(rt, NULL, &g_this, g_args, 1, NULL, &g_rv) : Set_prototype_delete(rt, NULL, &g_this, g_args, 1, NULL, &g_rv);
    CHECK("reports whether the key was there", r == RJS_OK && s_throw == 0 && BOOLV(g_rv) == (k >= 0));
    c0 = g_cur[0]; c1 = g_cur[1];
    if (k >= 0) { n --; for (i = 0; i < 3; i ++) if (i >= k && i < n) P[i] = P[i + 1]; if (c0 > k) c0 --; if (c1 > k) c1 --; }
#ifndef VF_NATIVE
    CHECK("exactly that entry is released", k < 0 ? s_freed == 0 : s_freed == 1 && s_fp[0] == x);
#endif
    CHECK("exactly that entry goes", whole(P, n));
    CHECK("iterators continue with the entries left", iters_at(P, n, c0, c1)); REACH();
}
//@unit name=map_delete fns=Map_prototype_delete,hash_delete
void h_map_delete(void) { EACH(3, 3, 4, do_del(1)); }
//@unit name=set_delete fns=Set_prototype_delete,hash_delete
void h_set_delete(void) { EACH(3, 3, 4, do_del(0)); }
static void do_clear(int map)
{
    RJS_Runtime *rt = world(map, 2); RJS_Result r = map ? Map_prototype_clear(rt, NULL, &g_this, g_args, 0, NULL, &g_rv) : Set_prototype_clear(rt, NULL, &g_this, g_args, 0, NULL, &g_rv);
    CHECK("cleared", r == RJS_OK && g_rv == VF_UNDEF && whole(P, 0) && ho.hash.list_num == 1 && ho.hash.e.list == NULL);
#ifndef VF_NATIVE
    CHECK("every entry is released once", s_freed == g_n && (g_n < 1 || s_fp[0] == P[0]) && (g_n < 2 || s_fp[1] == P[1]) && (g_n < 3 || s_fp[2] == P[2]));
#endif
    CHECK("iterators are at the end", iters_at(P, 0, 0, 0)); REACH();
}
//@unit name=map_clear fns=Map_prototype_clear,hash_clear
void h_map_clear(void) { EACH(3, 3, 0, do_clear(1)); }
//@unit name=set_clear fns=Set_prototype_clear,hash_clear
void h_set_clear(void) { EACH(3, 3, 0, do_clear(0)); }
static void do_map_get(void)
{
    RJS_Runtime *rt = world(1, 0); int k = pick();
    CHECK("get", Map_prototype_get(rt, NULL, &g_this, g_args, 1, NULL, &g_rv) == RJS_OK && g_rv == (k < 0 ? VF_UNDEF : vf_numv(100 + k)));
    CHECK("has", Map_prototype_has(rt, NULL, &g_this, g_args, 1, NULL, &g_rv) == RJS_OK && BOOLV(g_rv) == (k >= 0));
    CHECK("size", Map_prototype_size_get(rt, NULL, &g_this, g_args, 0, NULL, &g_rv) == RJS_OK && NUMV(g_rv, g_n));
    CHECK("nothing changes", whole(P, g_n)); REACH();
}
//@unit name=map_get fns=Map_prototype_get,Map_prototype_has,Map_prototype_size_get,hash_get
void h_map_get(void) { EACH(3, 0, 4, do_map_get()); }
static void do_set_has(void)
{
    RJS_Runtime *rt = world(0, 0); int k = pick();
    CHECK("has", Set_prototype_has(rt, NULL, &g_this, g_args, 1, NULL, &g_rv) == RJS_OK && BOOLV(g_rv) == (k >= 0));
    CHECK("size", Set_prototype_size_get(rt, NULL, &g_this, g_args, 0, NULL, &g_rv) == RJS_OK && NUMV(g_rv, g_n));
    CHECK("nothing changes", whole(P, g_n)); REACH();
}
//@unit name=set_has fns=Set_prototype_has,Set_prototype_size_get,hash_get
void h_set_has(void) { EACH(3, 0, 4, do_set_has()); }
static void do_wrong_this(void)
{
    int map = X.k & 1, f = X.k >> 1 & 7, k = X.k >> 4; RJS_Runtime *rt = world(!map, 1); RJS_Result r; g_args[0] = vf_numv(0);
    g_this = k == 0 ? g_hash : k == 1 ? VF_UNDEF : vf_numv(5);
#define BOTH(m,s) (map ? m(rt, NULL, &g_this, g_args, 2, NULL, &g_rv) : s(rt, NULL, &g_this, g_args, 2, NULL, &g_rv))
    switch (f) {
    case 0: r = BOTH(Map_prototype_set, Set_prototype_add); break;
    case 1: r = BOTH(Map_prototype_has, Set_prototype_has); break;
    case 2: r = BOTH(Map_prototype_delete, Set_prototype_delete); break;
    case 3: r = BOTH(Map_prototype_clear, Set_prototype_clear); break;
    case 4: r = BOTH(Map_prototype_forEach, Set_prototype_forEach); break;
    case 5: r = BOTH(Map_prototype_size_get, Set_prototype_size_get); break;
    case 6: r = BOTH(Map_prototype_get, Set_prototype_has); break;
    default: r = hash_iter_next(rt, NULL, &g_this, g_args, 0, NULL, &g_rv); break;
    }
    CHECK("TypeError on anything else, which stays as it was", r == RJS_ERR && s_throw == 1 && whole(P, g_n)); REACH();
}
//@unit name=wrong_this unwind=50 fns=Map_prototype_set,Map_prototype_get,Map_prototype_has,Map_prototype_delete,Map_prototype_clear,Map_prototype_forEach,Map_prototype_size_get,Set_prototype_add,Set_prototype_has,Set_prototype_delete,Set_prototype_clear,Set_prototype_forEach,Set_prototype_size_get,hash_iter_next
void h_wrong_this(void) { EACH(1, 0, 47, do_wrong_this()); }
static void do_iter_next(void)
{
    int map = (int)IN_RANGE(10, 0, 1); RJS_Runtime *rt = world(map, 2); RJS_Result r; int c, wd; RJS_Value k, v; c = g_cur[0];
    g_this = g_iter[0];
    r = hash_iter_next(rt, NULL, &g_this, g_args, 0, NULL, &g_rv);
    CHECK("one result", r == RJS_OK && s_res == 1 && !s_bad && whole(P, g_n));
    if (c == g_n) CHECK("at the end: done, and it stays done", s_done && s_v == VF_UNDEF && it[0].done && iters_at(P, g_n, c, g_cur[1]));
    else {
        k = vf_numv(keyof(c)); v = map ? vf_numv(100 + c) : k;
        CHECK("the entry at its place, once", !s_done && !it[0].done && iters_at(P, g_n, c + 1, g_cur[1]));
        if (it[0].type == RJS_HASH_ITER_KEY_VALUE) CHECK("[key, value]", s_arr == 1 && s_set == 2 && NUMV(s_v, 777) && s_el[0] == k && s_el[1] == v);
        else CHECK("key or value", s_arr == 0 && s_v == (it[0].type == RJS_HASH_ITER_KEY ? k : v));
    }
    REACH();
}
//@unit name=iter_next fns=hash_iter_next
void h_iter_next(void) { EACH(3, 3, 0, do_iter_next()); }
#ifndef VF_NATIVE
static void do_iter_new(void)
{
    int map = (int)IN_RANGE(10, 0, 1), ok = (int)IN_RANGE(20, 0, 1), ty = (int)IN_RANGE(11, 0, 2); RJS_Runtime *rt = world(map, 1); RJS_Result r; RJS_Value pr = VF_NULL;
    s_size = 1; r = hash_iter_new(rt, &g_rv, &g_hash, &pr, ty); s_size = 0;
    CHECK("registered at the first entry", r == (ok ? RJS_OK : RJS_ERR) && !s_bad && s_res == 1);
    if (ok) CHECK("it will visit every entry", it[1].type == ty && it[1].hash == g_hash && !it[1].done && is_list(it[1].curr, P, g_n) && ho.iters.prev == &it[1].ln && it[1].ln.next == &ho.iters && (g_ni ? it[1].ln.prev == &it[0].ln && it[0].ln.next == &it[1].ln : it[1].ln.prev == &ho.iters && ho.iters.next == &it[1].ln));
    REACH();
}
//@unit name=iter_new fns=hash_iter_new
void h_iter_new(void) { EACH(3, 3, 0, do_iter_new()); }
#endif
/* forEach against ECMAScript's own model: a list of entries in which deleted
 * ones stay as empty slots.  The callback performs one arbitrary operation. */
static struct { double key[8]; int alive[8]; RJS_Value val[8]; int n, pos, calls, fail; } G;
static RJS_Runtime *g_rt; static int g_map;
static int mfind(double k) { int i; for (i = 0; i < 6; i ++) if (i < G.n && G.alive[i] && G.key[i] == k) return i; return -1; }
RJS_Result vf_call (RJS_Runtime *rt, RJS_Value *fn, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *rv)
{
    RJS_Value *a = rjs_value_get_pointer(rt, args); RJS_Value k, x = VF_NULL, ar[2]; int i, op, w;
    for (i = 0; i < 6; i ++) if (G.pos < G.n && !G.alive[G.pos]) G.pos ++;
    CHECK("the callback sees the next live entry, in insertion order, with the collection", argc == 3 && G.pos < G.n && vf_num(*fn) == 55 && NUMV(a[1], G.key[G.pos]) && a[0] == (g_map ? G.val[G.pos] : a[1]) && a[2] == g_hash && thiz == &g_args[1]);
    G.pos ++;
    i = G.calls == 0 ? X.k % 11 : G.calls == 1 ? X.k / 11 : 0; G.calls ++; w = i >= 7 ? i - 7 : i - 3; op = i < 3 ? (i == 2 ? 3 : i) : i < 7 ? 2 : 4;
    if (op == 1) { G.fail = 1; return RJS_ERR; }
    ar[0] = k = vf_numv(w == 3 ? 9.5 : keyof(w)); ar[1] = vf_numv(300);
    if (op == 2) { i = mfind(vf_num(k)); if (i >= 0) G.alive[i] = 0; if (g_map) Map_prototype_delete(g_rt, NULL, &g_this, ar, 1, NULL, &x); else Set_prototype_delete(g_rt, NULL, &g_this, ar, 1, NULL, &x); }
    if (op == 3) { for (i = 0; i < 6; i ++) G.alive[i] = 0; if (g_map) Map_prototype_clear(g_rt, NULL, &g_this, ar, 0, NULL, &x); else Set_prototype_clear(g_rt, NULL, &g_this, ar, 0, NULL, &x); }
    if (op == 4) { i = mfind(vf_num(k)); if (i < 0) { i = G.n ++; G.key[i] = vf_num(k); G.alive[i] = 1; } G.val[i] = ar[1]; if (g_map) Map_prototype_set(g_rt, NULL, &g_this, ar, 2, NULL, &x); else Set_prototype_add(g_rt, NULL, &g_this, ar, 1, NULL, &x); }
    return RJS_OK;
}
static void do_foreach(int map)
{
    RJS_Runtime *rt = g_rt = world(map, 0); RJS_Result r; int i, left = 0; g_map = map;
    G.n = g_n; G.pos = G.calls = G.fail = 0; for (i = 0; i < 7; i ++) { G.alive[i] = i < g_n; if (i < g_n) { G.key[i] = keyof(i); G.val[i] = vf_numv(100 + i); } }
    g_args[0] = vf_numv(X.k == 0 && X.n == 0 ? 54 : 55);
    r = map ? Map_prototype_forEach(rt, NULL, &g_this, g_args, 2, NULL, &g_rv) : Set_prototype_forEach(rt, NULL, &g_this, g_args, 2, NULL, &g_rv);
    if (vf_num(g_args[0]) != 55) CHECK("TypeError unless callable", r == RJS_ERR && s_throw == 1 && G.calls == 0);
    else {
        for (i = 0; i < 6; i ++) if (i >= G.pos && i < G.n && G.alive[i]) left = 1;
        CHECK("every entry not yet visited is visited once; an exception stops it", G.fail ? r == RJS_ERR : r == RJS_OK && !left && g_rv == VF_UNDEF);
    }
    CHECK("its iterator is gone", g_ni ? ho.iters.next == &it[0].ln && ho.iters.prev == &it[0].ln && it[0].ln.next == &ho.iters && it[0].ln.prev == &ho.iters : ho.iters.next == &ho.iters && ho.iters.prev == &ho.iters); REACH();
}
#ifndef VF_NATIVE
#define CASES(A,B,body) do { int xk = (int)IN_RANGE(3, A, B), d; for (d = A; d <= B; d ++) if (xk == d) { X.n = 2; X.k = d; body; ASSUME(0); } } while (0)
#else
#define CASES(A,B,body) do { X.n = 2; X.k = (int)IN_RANGE(3, A, B); body; } while (0)
#endif
//@unit name=map_foreach fns=Map_prototype_forEach unwind=10
void h_map_foreach(void) { EACH(2, 0, 0, do_foreach(1)); }
//@unit name=map_foreach1 fns=Map_prototype_forEach unwind=48 bounded="2 entries; every operation on every key in each of the first two callbacks"
void h_map_foreach1(void) { CASES(0, 43, do_foreach(1)); }
//@unit name=map_foreach2 fns=Map_prototype_forEach unwind=48 bounded="2 entries; every operation on every key in each of the first two callbacks"
void h_map_foreach2(void) { CASES(44, 87, do_foreach(1)); }
//@unit name=map_foreach3 fns=Map_prototype_forEach unwind=48 bounded="2 entries; every operation on every key in each of the first two callbacks"
void h_map_foreach3(void) { CASES(88, 120, do_foreach(1)); }
//@unit name=set_foreach fns=Set_prototype_forEach unwind=10
void h_set_foreach(void) { EACH(2, 0, 0, do_foreach(0)); }
//@unit name=set_foreach1 fns=Set_prototype_forEach unwind=48 bounded="2 entries; every operation on every key in each of the first two callbacks"
void h_set_foreach1(void) { CASES(0, 43, do_foreach(0)); }
//@unit name=set_foreach2 fns=Set_prototype_forEach unwind=48 bounded="2 entries; every operation on every key in each of the first two callbacks"
void h_set_foreach2(void) { CASES(44, 87, do_foreach(0)); }
//@unit name=set_foreach3 fns=Set_prototype_forEach unwind=48 bounded="2 entries; every operation on every key in each of the first two callbacks"
void h_set_foreach3(void) { CASES(88, 120, do_foreach(0)); }
