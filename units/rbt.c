/* C19: red-black trees - order, colours and balance after every insertion and removal. */
#include "vf.h"
#include "ratjs_internal.h"
#ifndef VF_NATIVE
#undef RJS_PTR2SIZE
#undef RJS_SIZE2PTR
#define RJS_PTR2SIZE(p) vf_p2s(p)
#define RJS_SIZE2PTR(s) ((void*)vf_s2p(s))
size_t vf_p2s(void *p); RJS_Rbt *vf_s2p(size_t s);
#endif
#include "lib/rjs_rbt.c"
//@assume under the verifier a node's address is an even handle (the colour bit shares its word, as in the code); natively addresses are real
//@default props=C19 unwind=9 dfcc=0 flags="--object-bits 12" bounded="every red-black tree of at most 7 nodes, every position"
#ifndef RBT_BIG
#define M 7
#else
#define M 10
#define RBT_SHAPES
#endif
typedef struct { signed char n, root, l[M], r[M]; int red; } Shape;
static const Shape shapes[] = {
#ifndef RBT_BIG
#include "rbt_shapes.inc"
#else
#include "rbt_big.inc"
#endif
};
static RJS_Rbt N[M + 1], *g_root; static struct { int t, g; } X;
#ifndef VF_NATIVE
size_t vf_p2s(void *p) { int i; for (i = 0; i < M + 1; i ++) if (p == &N[i]) return 8 * (i + 1); return 0; }
RJS_Rbt *vf_s2p(size_t s) { int i; for (i = 0; i < M + 1; i ++) if (s == 8u * (i + 1)) return &N[i]; __CPROVER_assert(s == 0, "a node's address, without the colour"); return NULL; }
#endif
static RJS_Rbt *nd(int i) { return i < 0 ? NULL : &N[i]; }
static void build(void)
{
    const Shape *s = &shapes[X.t]; int i;
    g_root = nd(s->root);
    for (i = 0; i < M + 1; i ++) { N[i].left = N[i].right = NULL; N[i].parent_color = 0; }
    for (i = 0; i < M; i ++) if (i < s->n) { N[i].left = nd(s->l[i]); N[i].right = nd(s->r[i]); }
    for (i = 0; i < M; i ++) if (i < s->n) { if (N[i].left) N[i].left->parent_color = RJS_PTR2SIZE(&N[i]); if (N[i].right) N[i].right->parent_color = RJS_PTR2SIZE(&N[i]); }
    for (i = 0; i < M; i ++) if (i < s->n && !(s->red >> i & 1)) N[i].parent_color |= RBT_COLOR_BLACK;
}
/* in order the tree is e[0..n), links agree both ways, no red node has a red child, all paths have as many black nodes */
static int valid(const int *e, int n)
{
    int i, j, bh = -1, h; RJS_Rbt *p, *q;
    if (n == 0) return g_root == NULL;
    if (!g_root || (g_root->parent_color & ~(size_t)1) || !(g_root->parent_color & 1)) return 0;
    for (p = g_root, i = 0; p->left && i < M + 1; i ++) p = p->left;
    for (i = 0; i < n; i ++) {
        if (p != &N[e[i]]) return 0;
        if ((p->left && RJS_SIZE2PTR(p->left->parent_color & ~(size_t)1) != p) || (p->right && RJS_SIZE2PTR(p->right->parent_color & ~(size_t)1) != p)) return 0;
        if (!(p->parent_color & 1) && ((p->left && !(p->left->parent_color & 1)) || (p->right && !(p->right->parent_color & 1)))) return 0;
        if (!p->left || !p->right) { for (h = 0, q = p, j = 0; q && j < M + 1; q = RJS_SIZE2PTR(q->parent_color & ~(size_t)1), j ++) h += q->parent_color & 1; if (bh >= 0 && h != bh) return 0; bh = h; }
        /* successor by structure, independent of the code's own */
        if (p->right) { for (p = p->right, j = 0; p->left && j < M + 1; j ++) p = p->left; }
        else { for (j = 0; j < M + 1; j ++) { q = RJS_SIZE2PTR(p->parent_color & ~(size_t)1); if (!q) { p = NULL; break; } if (q->left == p) { p = q; break; } p = q; } }
        if (!p && i != n - 1) return 0;
    }
    return p == NULL;
}
#ifndef VF_NATIVE
#define EACH(T0,T1,G,body) do { int xt = (int)IN_RANGE(0, T0, T1), xg = (int)IN_RANGE(1, 0, G), a, b; for (a = T0; a <= T1; a ++) for (b = 0; b <= G; b ++) if (xt == a && xg == b) { X.t = a; X.g = b; body; ASSUME(0); } } while (0)
#else
#define EACH(T0,T1,G,body) do { X.t = (int)IN_RANGE(0, T0, T1); X.g = (int)IN_RANGE(1, 0, G); body; } while (0)
#endif
static void do_insert(void)
{
    int n, g, i, e[M + 1]; RJS_Rbt *p, **pos;
    n = shapes[X.t].n; g = X.g; ASSUME(g <= n); if (g > n) return; build();
    if (n == 0) { p = NULL; pos = &g_root; } else if (g > 0 && !N[g - 1].right) { p = &N[g - 1]; pos = &p->right; } else { p = &N[g]; pos = &p->left; }
    N[M].parent_color = RJS_PTR2SIZE(p); N[M].left = N[M].right = NULL; *pos = &N[M];
    rjs_rbt_insert(&g_root, &N[M]);
    for (i = 0; i <= n; i ++) e[i] = i < g ? i : i == g ? M : i - 1;
    CHECK("the new node is at its place, order, colours and balance hold", valid(e, n + 1)); REACH();
}
static void do_remove(void)
{
    int n, g, i, e[M + 1];
    n = shapes[X.t].n; g = X.g; ASSUME(g < n); if (g >= n) return; build();
    rjs_rbt_remove(&g_root, &N[g]);
    for (i = 0; i < n - 1; i ++) e[i] = i < g ? i : i + 1;
    CHECK("exactly that node is gone, order, colours and balance hold", valid(e, n - 1)); REACH();
}
static void do_walk(void)
{
    int n, i; n = shapes[X.t].n; build();
    CHECK("first and last", rjs_rbt_first(&g_root) == nd(n ? 0 : -1) && rjs_rbt_last(&g_root) == nd(n - 1));
    for (i = 0; i < M; i ++) if (i < n) CHECK("next and previous", rjs_rbt_next(&N[i]) == nd(i + 1 < n ? i + 1 : -1) && rjs_rbt_prev(&N[i]) == nd(i - 1));
    REACH();
}
#ifndef RBT_BIG
//@unit name=rbt_insert0 unwind=20 fns=rjs_rbt_insert
void h_rbt_insert0(void) { EACH(0, 9, 4, do_insert()); }
//@unit name=rbt_insert1 unwind=20 fns=rjs_rbt_insert
void h_rbt_insert1(void) { EACH(10, 17, 5, do_insert()); }
//@unit name=rbt_insert2 unwind=20 fns=rjs_rbt_insert
void h_rbt_insert2(void) { EACH(18, 25, 6, do_insert()); }
//@unit name=rbt_insert3 unwind=20 fns=rjs_rbt_insert
void h_rbt_insert3(void) { EACH(26, 33, 6, do_insert()); }
//@unit name=rbt_insert4 unwind=20 fns=rjs_rbt_insert
void h_rbt_insert4(void) { EACH(34, 40, 7, do_insert()); }
//@unit name=rbt_insert5 unwind=20 fns=rjs_rbt_insert
void h_rbt_insert5(void) { EACH(41, 47, 7, do_insert()); }
//@unit name=rbt_insert6 unwind=20 fns=rjs_rbt_insert
void h_rbt_insert6(void) { EACH(48, 54, 7, do_insert()); }
//@unit name=rbt_insert7 unwind=20 fns=rjs_rbt_insert
void h_rbt_insert7(void) { EACH(55, 60, 7, do_insert()); }
//@unit name=rbt_insert8 unwind=20 fns=rjs_rbt_insert
void h_rbt_insert8(void) { EACH(61, 66, 7, do_insert()); }
//@unit name=rbt_remove0 unwind=20 fns=rjs_rbt_remove,rbt_fixup
void h_rbt_remove0(void) { EACH(0, 17, 4, do_remove()); }
//@unit name=rbt_remove1 unwind=20 fns=rjs_rbt_remove,rbt_fixup
void h_rbt_remove1(void) { EACH(18, 33, 5, do_remove()); }
//@unit name=rbt_remove2 unwind=20 fns=rjs_rbt_remove,rbt_fixup
void h_rbt_remove2(void) { EACH(34, 42, 6, do_remove()); }
//@unit name=rbt_remove3 unwind=20 fns=rjs_rbt_remove,rbt_fixup
void h_rbt_remove3(void) { EACH(43, 50, 6, do_remove()); }
//@unit name=rbt_remove4 unwind=20 fns=rjs_rbt_remove,rbt_fixup
void h_rbt_remove4(void) { EACH(51, 58, 6, do_remove()); }
//@unit name=rbt_remove5 unwind=20 fns=rjs_rbt_remove,rbt_fixup
void h_rbt_remove5(void) { EACH(59, 66, 6, do_remove()); }
//@unit name=rbt_walk unwind=70 fns=rjs_rbt_first,rjs_rbt_last,rjs_rbt_next,rjs_rbt_prev
void h_rbt_walk(void) { EACH(0, 66, 0, do_walk()); }
#endif
