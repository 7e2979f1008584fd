/* C10: the property table of objects - index keys in a dense vector or a tree, string and symbol keys in a hash and a list. */
#include "vf.h"
#include <ratjs.h>
#include <pthread.h>
#ifndef VF_NATIVE
#define union struct /* cbmc loses pointers kept in the second member of a union: the members are kept apart, so that reading a member that was not the last one written is noticed */
#endif
#include "ratjs_internal.h"
#undef union
#ifndef VF_NATIVE
static int vf_one = 1; /* which pool an allocation is for */
#undef RJS_NEW_N
#define RJS_NEW_N(r, p, n) ((p) = (vf_one = 0, rjs_alloc_assert(r, sizeof(*(p)) * (n))))
#endif
void vf_rb_insert (RJS_Rbt **root, RJS_Rbt *n);
void vf_rb_remove (RJS_Rbt **root, RJS_Rbt *n);
RJS_Rbt *vf_rb_first (RJS_Rbt **root);
RJS_Rbt *vf_rb_last (RJS_Rbt **root);
RJS_Rbt *vf_rb_next (RJS_Rbt *n);
RJS_Result vf_h_lookup (RJS_Hash *h, void *k, RJS_HashEntry **re, RJS_HashEntry ***rpe, const RJS_HashOps *ops, void *d);
void vf_h_insert (RJS_Hash *h, void *k, RJS_HashEntry *e, RJS_HashEntry **pe, const RJS_HashOps *ops, void *d);
void vf_h_remove (RJS_Hash *h, RJS_HashEntry **pe, void *d);
#ifndef VF_NATIVE
#define rjs_rbt_insert vf_rb_insert
#define rjs_rbt_remove vf_rb_remove
#define rjs_rbt_first vf_rb_first
#define rjs_rbt_last vf_rb_last
#define rjs_rbt_next vf_rb_next
#define rjs_hash_lookup vf_h_lookup
#define rjs_hash_insert vf_h_insert
#define rjs_hash_remove vf_h_remove
#endif
#include "lib/rjs_object.c"
#ifndef VF_NATIVE
#undef rjs_rbt_insert
#undef rjs_rbt_remove
#undef rjs_rbt_first
#undef rjs_rbt_last
#undef rjs_rbt_next
#undef rjs_hash_lookup
#undef rjs_hash_insert
#undef rjs_hash_remove
#endif
#include "vf_rt.h"
//@assume cbmc only: the unions of rjs_object.h (index table: vector or tree; entry: value or accessor) are laid out as structs, so a read of the member not last written gives a foreign pointer
//@assume the red-black tree and the hash table stand for their contracts (C19): a binary search tree in index order that keeps its nodes; a map from key address to entry
//@default props=C10 unwind=46 dfcc=0 calls=VF_BOX,VF_DIR,rjs_alloc_assert:vf_alloc,rjs_realloc_assert:vf_renew,rjs_free:vf_free flags="--object-bits 12" bounded="tables of at most 6 index keys from a list of dense, holed, sparse and converting states; at most 3 named keys"
#define DEL RJS_PROP_ATTR_DELETED
#define VMAX 44
#define NN 10
static RJS_Object ob; static RJS_Value vob, g_name; static RJS_PropertyName g_pn;
static RJS_Property vecA[VMAX], vecB[VMAX];
#define VP(i) ((i) ? vecB : vecA)
static int vlive[2], vlen[2];
static RJS_PropertyRbt nodes[NN]; static int nlive[NN];
static struct { int s, k, m; } X;
#define OUTSIDE 4294967294u
/* states: rbt?, capacity of the vector, keys in ascending order */
static const struct { int rbt, cap, n; uint32_t k[6]; } ST[] = {
 {0,0,0,{0}}, {0,8,0,{0}}, {0,8,1,{0}}, {0,8,1,{3}}, {0,8,1,{7}}, {0,8,2,{0,1}}, {0,8,3,{1,4,7}}, {0,17,1,{16}},
 {0,17,4,{0,1,2,16}}, {0,21,5,{0,1,2,3,20}}, {0,22,6,{0,1,2,3,4,21}}, {0,22,6,{16,17,18,19,20,21}},
 {1,0,0,{0}}, {1,0,1,{0}}, {1,0,1,{17}}, {1,0,1,{OUTSIDE}}, {1,0,2,{5,100}}, {1,0,3,{0,5,100}}, {1,0,3,{100,200,300}}, {1,0,3,{0,OUTSIDE-1,OUTSIDE}},
 {1,0,4,{0,1,2,17}}, {1,0,5,{0,1,2,3,17}}, {1,0,4,{0,1,2,12}}, {1,0,6,{1,2,3,4,5,20}} };
#define NST 24
static const uint32_t KS[] = { 0, 1, 2, 7, 8, 16, 17, 20, 21, 22, 100, OUTSIDE };
#define NKS 12
/* the expected contents */
static struct { int n; uint32_t k[8]; RJS_Value v[8]; int a[8]; } E0;

static RJS_PropertyRbt *PR(RJS_Rbt *r) { return (RJS_PropertyRbt*)r; }
#ifndef VF_NATIVE
void *vf_alloc (RJS_Runtime *rt, size_t n)
{
    int i;
    if (vf_one && n == sizeof(RJS_PropertyRbt)) { for (i = 0; i < NN; i ++) if (!nlive[i]) { nlive[i] = 1; return &nodes[i]; } __CPROVER_assert(0, "vf: node pool"); return NULL; }
    vf_one = 1;
    for (i = 0; i < 2; i ++) if (!vlive[i]) { __CPROVER_assert(n <= sizeof vecA && n % sizeof(RJS_Property) == 0, "vf: vector pool"); vlive[i] = 1; vlen[i] = (int)(n / sizeof(RJS_Property)); return VP(i); }
    __CPROVER_assert(0, "vf: vector pool"); return NULL;
}
void *vf_renew (RJS_Runtime *rt, void *p, size_t os, size_t ns)
{
    int i, j = 0; RJS_Property *q;
    if (!p) { CHECK("the old size is right", os == 0); vf_one = 0; return vf_alloc(rt, ns); }
    i = (RJS_Property*)p == vecA ? 0 : 1;
    vf_one = 0; CHECK("the vector is live and its old size right", vlive[i] && os == vlen[i] * sizeof(RJS_Property) && (RJS_Property*)p == VP(i));
    q = vf_alloc(rt, ns); vlive[i] = 0;
    for (j = 0; j < vlen[i]; j ++) q[j] = VP(i)[j];
    return q;
}
void vf_free (RJS_Runtime *rt, void *p, size_t n)
{
    int i;
    if (p && (RJS_Property*)p != vecA && (RJS_Property*)p != vecB) { CHECK("a node is freed with its size", n == sizeof(RJS_PropertyRbt)); for (i = 0; i < NN; i ++) if (p == &nodes[i]) { CHECK("a node is freed once", nlive[i]); nlive[i] = 0; } return; }
    if (!p) return;
    i = (RJS_Property*)p == vecA ? 0 : 1;
    CHECK("the vector is freed once with its size", vlive[i] && (RJS_Property*)p == VP(i) && n == vlen[i] * sizeof(RJS_Property)); vlive[i] = 0;
}
static int live_vec(RJS_Property *p, size_t cap) { int i; for (i = 0; i < 2; i ++) if (p == VP(i)) return vlive[i] && vlen[i] == (int)cap; return 0; }
static int live_node(RJS_Rbt *r) { int i; for (i = 0; i < NN; i ++) if (PR(r) == &nodes[i]) return nlive[i]; return 0; }
static RJS_PropertyRbt badn;
#define VF1 (vf_one = 1)
#define BADP (ob.prop_array.rbt = &badn.rbt, ob.prop_array.vec = (RJS_Property*)&badn)
#define NEWV(n) (vf_one = 0, vf_alloc)(rt, sizeof(RJS_Property) * (n))
#define NEWN() vf_alloc(rt, sizeof(RJS_PropertyRbt))
#else
static int live_vec(RJS_Property *p, size_t cap) { return 1; }
static int live_node(RJS_Rbt *r) { return 1; }
#define BADP ((void)0)
#define VF1 ((void)0)
#define NEWV(n) rjs_alloc_assert(rt, sizeof(RJS_Property) * (n))
#define NEWN() rjs_alloc_assert(rt, sizeof(RJS_PropertyRbt))
#endif
/* the tree: binary search tree, no rebalancing */
#ifndef VF_NATIVE
void vf_rb_insert (RJS_Rbt **root, RJS_Rbt *n) { }
void vf_rb_remove (RJS_Rbt **root, RJS_Rbt *n)
{
    RJS_Rbt **pos = root, **q, *s; uint32_t k = PR(n)->index; int i;
    for (i = 0; i < 8 && *pos && *pos != n; i ++) pos = k < PR(*pos)->index ? &(*pos)->left : &(*pos)->right;
    CHECK("the node removed is in the tree", *pos == n);
    if (!n->left) *pos = n->right; else if (!n->right) *pos = n->left;
    else { for (q = &n->right, i = 0; (*q)->left && i < 8; i ++) q = &(*q)->left; s = *q; *q = s->right; s->left = n->left; s->right = n->right; *pos = s; }
}
RJS_Rbt *vf_rb_first (RJS_Rbt **root) { RJS_Rbt *p = *root; int i; if (p) for (i = 0; i < 8 && p->left; i ++) p = p->left; return p; }
RJS_Rbt *vf_rb_last (RJS_Rbt **root) { RJS_Rbt *p = *root; int i; if (p) for (i = 0; i < 8 && p->right; i ++) p = p->right; return p; }
RJS_Rbt *vf_rb_next (RJS_Rbt *n) { RJS_Rbt *p = ob.prop_array.rbt, *b = NULL; uint32_t k = PR(n)->index; int i; for (i = 0; i < 8 && p; i ++) { if (PR(p)->index > k) { b = p; p = p->left; } else p = p->right; } return b; }
#endif
static int count(RJS_Rbt *p)
{
    RJS_Rbt *st[16]; int sp = 0, n = 0, i;
    if (p) st[sp ++] = p;
    for (i = 0; i < 12 && sp > 0; i ++) { p = st[-- sp]; n ++; if (p->left) st[sp ++] = p->left; if (p->right) st[sp ++] = p->right; }
    return sp ? 99 : n;
}

/* entries X.s with symbolic values and attributes */
static void build(RJS_Runtime *rt)
{
    int i, j, n = ST[X.s].n; RJS_Property *p, *v = NULL; RJS_PropertyRbt *t[6];
#ifndef VF_NATIVE
    for (i = 0; i < 2; i ++) vlive[i] = vlen[i] = 0;
    for (i = 0; i < NN; i ++) nlive[i] = 0;
#endif
    ob.flags = RJS_OBJECT_FL_EXTENSIBLE | (ST[X.s].rbt ? RJS_OBJECT_FL_RBT : 0); ob.array_item_cap = ST[X.s].cap; ob.array_item_num = n; ob.array_item_max = n ? ST[X.s].k[n - 1] : 0;
    BADP; ob.prop_array.vec = NULL; rjs_list_init(&ob.prop_list);
    E0.n = n;
    for (i = 0; i < 6; i ++) if (i < n) { E0.k[i] = ST[X.s].k[i]; E0.v[i] = vf_numv(100 + i); E0.a[i] = X.m < 0 ? (i * 3 + 1) % 8 : i == X.m ? RJS_PROP_ATTR_WRITABLE : RJS_PROP_ATTR_CONFIGURABLE; }
    if (ST[X.s].rbt) {
        ob.array_item_cap = 99;
        for (i = 0; i < 6; i ++) if (i < n) { t[i] = NEWN(); t[i]->index = E0.k[i]; t[i]->prop.attrs = E0.a[i]; t[i]->prop.p.value = E0.v[i]; t[i]->rbt.left = t[i]->rbt.right = NULL; t[i]->rbt.parent_color = 0; }
        BADP; ob.prop_array.rbt = NULL;
#ifdef VF_NATIVE
        for (i = 0; i < n; i ++) { RJS_Rbt **pos = &ob.prop_array.rbt, *pp = NULL; while (*pos) { pp = *pos; pos = &pp->right; } rjs_rbt_link(&t[i]->rbt, pp, pos); rjs_rbt_insert(&ob.prop_array.rbt, &t[i]->rbt); }
        n = 0;
#endif
        if (n) { j = n / 2; ob.prop_array.rbt = &t[j]->rbt; for (i = j; i > 0; i --) t[i]->rbt.left = &t[i - 1]->rbt; for (i = j; i + 1 < n; i ++) t[i]->rbt.right = &t[i + 1]->rbt; }
    } else if (ST[X.s].cap) {
        v = NEWV(ST[X.s].cap); ob.prop_array.vec = v;
        for (i = 0; i < ST[X.s].cap; i ++) { v[i].attrs = DEL | (i * 5 + 3) % 8; v[i].p.value = VF_NULL; }
        for (i = 0; i < 6; i ++) if (i < n) { p = &v[E0.k[i]]; p->attrs = E0.a[i]; p->p.value = E0.v[i]; }
    }
}
/* the table holds exactly E0 and its bookkeeping is right */
static void valid(void)
{
    int i, j; RJS_Rbt *p; uint32_t mx = E0.n ? E0.k[E0.n - 1] : 0; RJS_Property *q;
    CHECK("the number of index keys", ob.array_item_num == (uint32_t)E0.n);
    CHECK("the highest index key", ob.array_item_max == mx);
    if (ob.flags & RJS_OBJECT_FL_RBT) {
        CHECK("the tree has no other entry", count(ob.prop_array.rbt) == E0.n);
        for (i = 0; i < 8; i ++) if (i < E0.n) {
            p = ob.prop_array.rbt;
            for (j = 0; j < 8 && p && PR(p)->index != E0.k[i]; j ++) p = E0.k[i] < PR(p)->index ? p->left : p->right;
            CHECK("every key is found in the tree, unfreed", p && PR(p)->index == E0.k[i] && live_node(p));
            if (p) CHECK("with its value", PR(p)->prop.attrs == E0.a[i] && PR(p)->prop.p.value == E0.v[i]);
        }
    } else {
        if (!ob.array_item_cap) { CHECK("an empty vector has no entry", E0.n == 0 && !ob.prop_array.vec); return; }
        CHECK("the vector is live, of its capacity, and covers the highest key", live_vec(ob.prop_array.vec, ob.array_item_cap) && mx < ob.array_item_cap);
        q = ob.prop_array.vec;
        for (i = 0; i < (int)ob.array_item_cap; i ++) {
            for (j = 0; j < 8; j ++) if (j < E0.n && E0.k[j] == (uint32_t)i) break;
            if (j < 8) CHECK("every key is in the vector with its value", q[i].attrs == E0.a[j] && q[i].p.value == E0.v[j]);
            else CHECK("the vector has no other entry", q[i].attrs & DEL);
        }
    }
}
static int find(uint32_t k) { int i; for (i = 0; i < 8; i ++) if (i < E0.n && E0.k[i] == k) return i; return -1; }
static void put(uint32_t k, int a, RJS_Value v) { int i; for (i = E0.n; i > 0 && E0.k[i - 1] > k; i --) { E0.k[i] = E0.k[i - 1]; E0.a[i] = E0.a[i - 1]; E0.v[i] = E0.v[i - 1]; } E0.k[i] = k; E0.a[i] = a; E0.v[i] = v; E0.n ++; }
static void rem(int j) { int i; E0.n --; for (i = j; i < 7; i ++) if (i < E0.n) { E0.k[i] = E0.k[i + 1]; E0.a[i] = E0.a[i + 1]; E0.v[i] = E0.v[i + 1]; } }

static RJS_Runtime *world(void) { RJS_Runtime *rt = vf_rt(); VF1; X.m = -1; vob = vf_new_thing(RJS_VALUE_TAG_OBJECT, &ob); return rt; }
static void name(uint32_t k) { g_name = (((RJS_Value)RJS_VALUE_TAG_INDEX_STRING) << 48) | k; g_pn.name = &g_name; g_pn.flags = RJS_PROP_NAME_FL_INDEX|RJS_PROP_NAME_FL_RESOLVED; g_pn.index = k; }
#ifndef VF_NATIVE
#define EACH(S0,S1,K,body) do { int xs = (int)IN_RANGE(0, S0, S1), xk = (int)IN_RANGE(1, 0, K), a, b; for (a = S0; a <= S1; a ++) for (b = 0; b <= K; b ++) if (xs == a && xk == b) { X.s = a; X.k = b; body; ASSUME(0); } } while (0)
#else
#define EACH(S0,S1,K,body) do { X.s = (int)IN_RANGE(0, S0, S1); X.k = (int)IN_RANGE(1, 0, K); body; } while (0)
#endif
static void do_lookup(void)
{
    RJS_Runtime *rt = world(); RJS_Property *p; int j; uint32_t k = KS[X.k];
    build(rt); name(k); j = find(k);
    p = prop_lookup(rt, &vob, &g_pn);
    CHECK("present exactly if it was added", (p != NULL) == (j >= 0));
    if (p && j >= 0) CHECK("and it is the entry of that key", p->attrs == E0.a[j] && p->p.value == E0.v[j]);
    valid(); REACH();
}
static void do_add(void)
{
    RJS_Runtime *rt = world(); RJS_Property *p; uint32_t k = KS[X.k]; int a; RJS_Value v;
    build(rt); if (find(k) >= 0) { ASSUME(0); return; } name(k);
    p = prop_add(rt, &vob, &g_pn);
    v = vf_numv(-1); a = 5;
    CHECK("an entry to fill in is returned", p != NULL);
    if (p) { p->attrs = a; p->p.value = v; }
    put(k, a, v); valid(); REACH();
}
static void do_del(void)
{
    RJS_Runtime *rt = world(); uint32_t k; int j = X.k;
    if (j >= ST[X.s].n) { ASSUME(0); return; }
    build(rt); k = E0.k[j]; name(k);
    prop_delete(rt, &vob, &g_pn);
    rem(j); valid(); REACH();
}
static const uint32_t CUT[] = { 0, 1, 2, 5, 17, 100 };
static void do_cut(void)
{
    RJS_Runtime *rt = world(); RJS_Result r; uint32_t li = 77, nl, mx; int i, st, d;
    X.m = X.k & 3; if (X.m == 3) X.m = ST[X.s].n; nl = CUT[X.k >> 2]; build(rt); mx = E0.n ? E0.k[E0.n - 1] + 1 : 0; st = -1;
    d = X.m;
    r = rjs_ordinary_object_delete_from_index(rt, &vob, mx, nl, &li);
    for (i = 5; i >= 0; i --) if (i < E0.n && E0.k[i] >= nl) { if (i == d) { st = i; break; } rem(i); }
    CHECK("stops at the highest element that cannot be deleted", r == (st >= 0 ? RJS_FALSE : RJS_TRUE) && (st < 0 || li == E0.k[st]));
    valid(); REACH();
}
/* ---- named keys: a hash from key address to entry, and a list in order of creation ---- */
#define NK 4
static RJS_PropertyNode PN[NK]; static RJS_GcThing kt[NK + 1]; static RJS_GcThingOps kops[2]; static RJS_Value vk[NK + 1];
static int inhash[NK], islive[NK], g_n;   /* entries of the hash; g_n = entries before the operation */
static RJS_HashEntry *hpos[NK];
RJS_Result vf_h_lookup (RJS_Hash *h, void *k, RJS_HashEntry **re, RJS_HashEntry ***rpe, const RJS_HashOps *ops, void *d)
{
    int i;
    CHECK("the object's own table, keyed by address", h == &ob.prop_hash && ops == &rjs_hash_size_ops);
    for (i = 0; i < NK; i ++) if (inhash[i] && PN[i].he.key == k) { if (re) *re = &PN[i].he; hpos[i] = &PN[i].he; if (rpe) *rpe = &hpos[i]; return RJS_TRUE; }
    return RJS_FALSE;
}
void vf_h_insert (RJS_Hash *h, void *k, RJS_HashEntry *e, RJS_HashEntry **pe, const RJS_HashOps *ops, void *d)
{
    int i; CHECK("the object's own table, keyed by address", h == &ob.prop_hash && ops == &rjs_hash_size_ops);
    for (i = 0; i < NK; i ++) if (e == &PN[i].he) { CHECK("an entry is inserted once", !inhash[i]); inhash[i] = 1; PN[i].he.key = k; ob.prop_hash.entry_num ++; return; }
    CHECK("the entry inserted is a new one", 0);
}
void vf_h_remove (RJS_Hash *h, RJS_HashEntry **pe, void *d)
{
    int i; CHECK("the object's own table", h == &ob.prop_hash);
    for (i = 0; i < NK; i ++) if (pe == &hpos[i]) { CHECK("an entry is removed once", inhash[i]); inhash[i] = 0; ob.prop_hash.entry_num --; return; }
    CHECK("the entry removed is one that was looked up", 0);
}
#ifndef VF_NATIVE
void *vf_nalloc (RJS_Runtime *rt, size_t n) { CHECK("one node", n == sizeof(RJS_PropertyNode) && g_n < NK && !islive[g_n]); islive[g_n] = 1; return &PN[g_n]; }
void vf_nfree (RJS_Runtime *rt, void *p, size_t n) { int i; for (i = 0; i < NK; i ++) if (p == &PN[i]) { CHECK("a node is freed once, out of the table", islive[i] && n == sizeof(RJS_PropertyNode) && !inhash[i]); islive[i] = 0; return; } CHECK("the node freed is one of the table", 0); }
/* the list is exactly e[0..n) in both directions */
static int order(const int *e, int n)
{
    RJS_List *l = &ob.prop_list; int i;
    for (i = 0; i < n; i ++) { if (l->next != &PN[e[i]].ln || PN[e[i]].ln.prev != l) return 0; l = l->next; }
    return l->next == &ob.prop_list && ob.prop_list.prev == l;
}
static void nbuild(RJS_Runtime *rt)
{
    int i; g_n = X.s;
    rjs_list_init(&ob.prop_list); ob.prop_hash.entry_num = 0; ob.flags = 0; ob.array_item_cap = ob.array_item_num = ob.array_item_max = 0; ob.prop_array.vec = NULL;
    kops[0].type = RJS_GC_THING_STRING; kops[1].type = RJS_GC_THING_SYMBOL;
    for (i = 0; i < NK + 1; i ++) { kt[i].ops = &kops[X.m >> i & 1]; vk[i] = vf_new_thing((X.m >> i & 1) ? RJS_VALUE_TAG_SYMBOL : RJS_VALUE_TAG_STRING, &kt[i]); }
    for (i = 0; i < NK; i ++) { inhash[i] = islive[i] = i < g_n; PN[i].prop.attrs = i; PN[i].prop.p.value = vf_numv(i); PN[i].he.key = &kt[i]; if (i < g_n) { rjs_list_append(&ob.prop_list, &PN[i].ln); ob.prop_hash.entry_num ++; } }
    g_pn.name = &vk[X.k]; g_pn.flags = RJS_PROP_NAME_FL_RESOLVED; g_pn.index = 5;
}
static void do_named(void)
{
    RJS_Runtime *rt = world(); RJS_Property *p; int i, j, n, e[NK + 1]; int op;
    if (X.k > X.s) { ASSUME(0); return; }
    X.m = X.k & 1 ? 5 : 0; nbuild(rt); n = g_n; op = X.k < n;
    p = prop_lookup(rt, &vob, &g_pn);
    CHECK("a named key is found exactly if present, and gives its own entry", p == (op ? &PN[X.k].prop : NULL));
    for (i = 0; i < n; i ++) e[i] = i;
    CHECK("looking up changes nothing", order(e, n) && ob.prop_hash.entry_num == n);
    if (op) {
        prop_delete(rt, &vob, &g_pn);
        for (i = j = 0; i < n; i ++) if (i != X.k) e[j ++] = i;
        CHECK("the deleted key is gone and the others keep their order", order(e, n - 1) && !inhash[X.k] && !islive[X.k] && ob.prop_hash.entry_num == n - 1);
    } else if (n < NK) {
        p = prop_add(rt, &vob, &g_pn);
        e[n] = n;
        CHECK("a new key comes last and is in the table", p == &PN[n].prop && order(e, n + 1) && inhash[n] && PN[n].he.key == &kt[X.k] && ob.prop_hash.entry_num == n + 1);
    }
    REACH();
}
/* ---- listing the own keys ---- */
static RJS_PropertyKeyList pkl; static RJS_Value keyv[16], vpkl;
static void do_keys(void)
{
    RJS_Runtime *rt = world(); int i, j, c, m = X.k, nn = m == 0 ? 0 : 3;
    build(rt);
    kops[0].type = RJS_GC_THING_STRING; kops[1].type = RJS_GC_THING_SYMBOL;
    for (i = 0; i < 3; i ++) { kt[i].ops = &kops[m >> i & 1]; PN[i].he.key = &kt[i]; if (i < nn) rjs_list_append(&ob.prop_list, &PN[i].ln); }
    pkl.keys.items = keyv; pkl.keys.item_num = 0; pkl.keys.item_cap = 16; vpkl = vf_new_thing(RJS_VALUE_TAG_GC_THING, &pkl);
    for (i = 0; i < 16; i ++) keyv[i] = VF_NULL;
    rjs_property_key_list_add_own_keys(rt, &vpkl, &vob);
    CHECK("every key is listed once", pkl.keys.item_num == (size_t)(E0.n + nn));
    for (i = 0; i < 6; i ++) if (i < E0.n) CHECK("index keys first, ascending", keyv[i] == ((((RJS_Value)RJS_VALUE_TAG_INDEX_STRING) << 48) | E0.k[i]));
    j = E0.n;
    for (c = 0; c < 2; c ++) for (i = 0; i < 3; i ++) if (i < nn && (m >> i & 1) == c) { CHECK("then strings, then symbols, in order of creation", rjs_value_get_gc_thing(rt, &keyv[j]) == (void*)&kt[i] && (c ? rjs_value_is_symbol(rt, &keyv[j]) : rjs_value_is_string(rt, &keyv[j]))); j ++; }
    REACH();
}
//@unit name=props_named fns=prop_lookup,prop_add,prop_delete calls=VF_BOX,VF_DIR,rjs_alloc_assert:vf_nalloc,rjs_free:vf_nfree
void h_props_named(void) { EACH(0, 3, 4, do_named()); }
//@unit name=props_keys0 fns=rjs_property_key_list_add_own_keys
void h_props_keys0(void) { EACH(0, 11, 7, do_keys()); }
//@unit name=props_keys1 fns=rjs_property_key_list_add_own_keys
void h_props_keys1(void) { EACH(12, 23, 7, do_keys()); }
#else
void h_props_named(void) { vf_skip(); }
void h_props_keys0(void) { vf_skip(); }
void h_props_keys1(void) { vf_skip(); }
#endif
//@unit name=props_cut0 props=C10,C11 fns=rjs_ordinary_object_delete_from_index,update_array_item_max,prop_array_fixup
void h_props_cut0(void) { EACH(0, 5, 23, do_cut()); }
//@unit name=props_cut1 props=C10,C11 fns=rjs_ordinary_object_delete_from_index,update_array_item_max,prop_array_fixup
void h_props_cut1(void) { EACH(6, 11, 23, do_cut()); }
//@unit name=props_cut2 props=C10,C11 fns=rjs_ordinary_object_delete_from_index,update_array_item_max,prop_array_fixup
void h_props_cut2(void) { EACH(12, 17, 23, do_cut()); }
//@unit name=props_cut3 props=C10,C11 fns=rjs_ordinary_object_delete_from_index,update_array_item_max,prop_array_fixup
void h_props_cut3(void) { EACH(18, 23, 23, do_cut()); }
//@unit name=props_lookup0 fns=prop_lookup
void h_props_lookup0(void) { EACH(0, 11, NKS - 1, do_lookup()); }
//@unit name=props_lookup1 fns=prop_lookup
void h_props_lookup1(void) { EACH(12, 23, NKS - 1, do_lookup()); }
//@unit name=props_add0 fns=prop_add,prop_array_fixup,prop_vec_to_rbt
void h_props_add0(void) { EACH(0, 5, NKS - 1, do_add()); }
//@unit name=props_add1 fns=prop_add,prop_array_fixup,prop_vec_to_rbt
void h_props_add1(void) { EACH(6, 11, NKS - 1, do_add()); }
//@unit name=props_add2 fns=prop_add,prop_array_fixup,prop_rbt_to_vec,prop_rbt_set_vec,prop_rbt_free_all
void h_props_add2(void) { EACH(12, 17, NKS - 1, do_add()); }
//@unit name=props_add3 fns=prop_add,prop_array_fixup,prop_rbt_to_vec,prop_rbt_set_vec,prop_rbt_free_all
void h_props_add3(void) { EACH(18, 23, NKS - 1, do_add()); }
//@unit name=props_delete0 fns=prop_delete,update_array_item_max,prop_array_fixup,prop_vec_to_rbt
void h_props_delete0(void) { EACH(2, 8, 5, do_del()); }
//@unit name=props_delete2 fns=prop_delete,update_array_item_max,prop_array_fixup,prop_vec_to_rbt
void h_props_delete2(void) { EACH(9, 11, 5, do_del()); }
//@unit name=props_delete1 fns=prop_delete,update_array_item_max,prop_array_fixup,prop_rbt_to_vec
void h_props_delete1(void) { EACH(13, 23, 5, do_del()); }
