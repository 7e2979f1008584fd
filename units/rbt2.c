/* C19: red-black trees of 8 to 10 nodes, one insertion or removal for each distinct local change. */
#define RBT_BIG
#include "rbt.c"
#undef RBT_SHAPES
//@assume under the verifier a node's address is an even handle (the colour bit shares its word, as in the code); natively addresses are real
//@default props=C19 unwind=14 dfcc=0 flags="--object-bits 12" bounded="trees of 8 to 10 nodes: one for each distinct combination of changed links, colours and neighbours"
static const struct { short t, g; } cases[] = {
#include "rbt_big.inc"
};
#ifndef VF_NATIVE
#define EACHC(C0,C1,body) do { int xc = (int)IN_RANGE(0, C0, C1), c; for (c = C0; c <= C1; c ++) if (xc == c) { X.t = cases[c].t; X.g = cases[c].g; body; ASSUME(0); } } while (0)
#else
#define EACHC(C0,C1,body) do { int c = (int)IN_RANGE(0, C0, C1); X.t = cases[c].t; X.g = cases[c].g; body; } while (0)
#endif
//@unit name=big_insert0 unwind=38 fns=rjs_rbt_insert
void h_big_insert0(void) { EACHC(0, 35, do_insert()); }
//@unit name=big_insert1 unwind=38 fns=rjs_rbt_insert
void h_big_insert1(void) { EACHC(36, 71, do_insert()); }
//@unit name=big_remove0 unwind=57 fns=rjs_rbt_remove,rbt_fixup
void h_big_remove0(void) { EACHC(72, 126, do_remove()); }
//@unit name=big_remove1 unwind=58 fns=rjs_rbt_remove,rbt_fixup
void h_big_remove1(void) { EACHC(127, 182, do_remove()); }
//@unit name=big_remove2 unwind=57 fns=rjs_rbt_remove,rbt_fixup
void h_big_remove2(void) { EACHC(183, 237, do_remove()); }
//@unit name=big_remove3 unwind=58 fns=rjs_rbt_remove,rbt_fixup
void h_big_remove3(void) { EACHC(238, 293, do_remove()); }
//@unit name=big_remove4 unwind=58 fns=rjs_rbt_remove,rbt_fixup
void h_big_remove4(void) { EACHC(294, 349, do_remove()); }
