/* C19: the intrusive list. */
#include "vf.h"
#include "ratjs_internal.h"
//@assume list surgery touches a node's two neighbours only: lists of up to 3 nodes show every aliasing of them
//@default props=C19 unwind=9 dfcc=0 bounded="lists of at most 3 nodes, every position"
static RJS_List H, H2, N[4], M[3];
static struct { int n, m, k; } X;
static int is(RJS_List *h, RJS_List **e, int n) { int i; RJS_List *p = h; for (i = 0; i < n; i ++) { if (p->next != e[i] || e[i]->prev != p) return 0; p = p->next; } return p->next == h && h->prev == p; }
#ifndef VF_NATIVE
#define EACH(body) do { int xn = (int)IN_RANGE(0, 0, 3), xm = (int)IN_RANGE(1, 0, 3), xk = (int)IN_RANGE(2, 0, 3), a, b, c; for (a = 0; a <= 3; a ++) for (b = 0; b <= 3; b ++) for (c = 0; c <= 3; c ++) if (xn == a && xm == b && xk == c) { X.n = a; X.m = b; X.k = c; body; ASSUME(0); } } while (0)
#else
#define EACH(body) do { X.n = (int)IN_RANGE(0, 0, 3); X.m = (int)IN_RANGE(1, 0, 3); X.k = (int)IN_RANGE(2, 0, 3); body; } while (0)
#endif
static void do_list(void)
{
    RJS_List *e[8], *p, *t; int i, n = X.n, c = 0;
    rjs_list_init(&H); rjs_list_init(&H2);
    for (i = 0; i < 3; i ++) if (i < n) { rjs_list_append(&H, &N[i]); e[i] = &N[i]; }
    CHECK("appended in order", is(&H, e, n) && rjs_list_is_empty(&H) == (n == 0) && rjs_list_has_1_node(&H) == (n == 1));
    rjs_list_foreach(&H, p) { CHECK("forward", p == e[c]); c ++; }
    CHECK("all", c == n);
    rjs_list_foreach_r(&H, p) { c --; CHECK("backward", p == e[c]); }
    CHECK("all back", c == 0);
    for (i = 0; i < 3; i ++) if (i < X.m) rjs_list_append(&H2, &M[i]);
    rjs_list_join(&H, &H2);
    for (i = 0; i < 3; i ++) if (i < X.m) e[n + i] = &M[i];
    n += X.m; CHECK("joined", is(&H, e, n));
    rjs_list_prepend(&H, &N[3]);
    for (i = 6; i > 0; i --) if (i <= n) e[i] = e[i - 1];
    e[0] = &N[3]; n ++; CHECK("prepended", is(&H, e, n));
    if (X.k < n) { rjs_list_remove(e[X.k]); for (i = 0; i < 6; i ++) if (i >= X.k && i + 1 < n) e[i] = e[i + 1]; n --; CHECK("exactly that node removed", is(&H, e, n)); }
    rjs_list_foreach_safe(&H, p, t) { rjs_list_init(p); c ++; }
    CHECK("the safe walk survives losing its node", c == n); REACH();
}
//@unit name=list_ops fns=rjs_list_append,rjs_list_prepend,rjs_list_remove,rjs_list_join,rjs_list_is_empty,rjs_list_has_1_node
void h_list_ops(void) { EACH(do_list()); }
