/* C13: [[SetPrototypeOf]] on chains of any length. */
#include "vf.h"
#include "lib/rjs_object.c"
#include "lib/rjs_operation.c"
#define VF_THINGS 24
#include "vf_rt.h"

/* The prototype chain is a ghost sequence: object i (0 <= i < G.n) is followed
 * by object i+1, the last one by null; object G.k has another
 * [[GetPrototypeOf]] (a proxy).  The object under test is number G.v: on the
 * chain exactly when G.v < G.n.  The candidate prototype is number 0 (or null when G.n is 0). */
//@assume the chain is represented by its next-object function (the contract of ordinary [[GetPrototypeOf]], proved in get_proto); SameValue on objects is identity (C02)
//@default props=C13 unwind=12
static struct { uint64_t n, k, m, v, i, cur; int ext; RJS_Value oldp; } G;
static RJS_Object ob, other, other2, odd;
static RJS_ObjectOps ops_ord, ops_ord2, ops_odd;   /* ordinary objects of several classes */
static RJS_Value vob, vproto, vold;
static int g_r; static RJS_Value g_base, g_null;
#ifndef VF_NATIVE
#define OBJV(i) ((((RJS_Value)RJS_VALUE_TAG_OBJECT) << 48) | (0x1000 + (i)))
void *vf_chain_obj (RJS_Runtime *rt, RJS_Value *v)
{
    uint64_t i = (*v & 0xffffffffffffull) - 0x1000;
    CHECK("an object of the chain", vf_tag(*v) == RJS_VALUE_TAG_OBJECT);
    return i == G.v ? &ob : i == G.k ? &odd : i == G.m ? &other2 : &other;
}
RJS_Bool vf_sameobj (RJS_Runtime *rt, RJS_Value *a, RJS_Value *b) { return *rjs_value_get_pointer(rt, a) == *rjs_value_get_pointer(rt, b); }
RJS_Result vf_next (RJS_Runtime *rt, RJS_Value *v, RJS_Value *p)
{
    uint64_t i = (*rjs_value_get_pointer(rt, v) & 0xffffffffffffull) - 0x1000;
    CHECK("follows the chain in order", i == G.i && i < G.n && i != G.k);
    G.i = i + 1;
    *rjs_value_get_pointer(rt, p) = G.i < G.n ? OBJV(G.i) : VF_NULL;
    return RJS_OK;
}
#define OBJX OBJV
#define NMAX (1ull << 40)
#else
#define OBJX(i) OBV(i)
#define NMAX 8
static RJS_Object objs[2 * NMAX + 4];
#endif
static int sp_setp(RJS_Result r)
{
    if (vold == vproto) return r == RJS_TRUE && ob.prototype == vold;
    if (!G.ext) return r == RJS_FALSE && ob.prototype == vold;
    if (G.v < G.n && G.v < G.k) return r == RJS_FALSE && ob.prototype == vold;   /* it would close a cycle */
    return r == RJS_TRUE && ob.prototype == vproto;
}
CONTRACT(RJS_Result rjs_ordinary_object_op_set_prototype_of (RJS_Runtime *rt, RJS_Value *v, RJS_Value *proto)
ASG(ob.prototype, G.i, __CPROVER_object_whole(vf_stack_s), vf_ns_s.value.item_num) ENS(sp_setp(__CPROVER_return_value)) ENS(vf_ns_s.value.item_num == __CPROVER_old(vf_ns_s.value.item_num));)
//@unit name=set_proto enforce=rjs_ordinary_object_op_set_prototype_of loops=proto.loops.json fallback=6 calls=rjs_value_pointer_get_gc_thing:vf_chain_obj,rjs_same_value:vf_sameobj,rjs_ordinary_object_op_get_prototype_of:vf_next
void h_set_proto(void)
{
    RJS_Runtime *rt = vf_rt();
    G.n = IN_RANGE(0, 0, NMAX); G.v = IN_RANGE(1, 0, NMAX); G.k = IN_RANGE(2, 0, NMAX); G.cur = IN_RANGE(3, 0, NMAX); G.i = 0; G.m = IN_RANGE(6, 0, NMAX);
    ASSUME(G.k != G.v && (G.cur != G.v));
    G.ext = IN_RANGE(4, 0, 1); g_base = (((RJS_Value)RJS_VALUE_TAG_OBJECT) << 48) + 0x1000; g_null = VF_NULL;
    ops_ord.gc_thing_ops.type = ops_odd.gc_thing_ops.type = ops_ord2.gc_thing_ops.type = RJS_GC_THING_OBJECT;
    ops_ord2.get_prototype_of = ops_ord.get_prototype_of = rjs_ordinary_object_op_get_prototype_of; ops_odd.get_prototype_of = NULL;
    other2.gc_thing.ops = (RJS_GcThingOps*)&ops_ord2; ob.gc_thing.ops = other.gc_thing.ops = (RJS_GcThingOps*)&ops_ord; odd.gc_thing.ops = (RJS_GcThingOps*)&ops_odd;
    ob.flags = G.ext ? RJS_OBJECT_FL_EXTENSIBLE : 0;
#ifndef VF_NATIVE
    vob = OBJV(G.v); vproto = G.n ? OBJV(0) : VF_NULL; vold = IN_RANGE(5, 0, 1) ? OBJV(G.cur) : VF_NULL;
#else
    {
        uint64_t i;
#define OB(i) ((i) == G.v ? &ob : &objs[i])
#define OBV(i) vf_box(RJS_VALUE_TAG_OBJECT, OB(i))
        for (i = 0; i < 2 * NMAX + 2; i ++) objs[i].gc_thing.ops = (RJS_GcThingOps*)(i == G.k ? &ops_odd : i == G.m && i != G.v ? &ops_ord2 : &ops_ord);
        vob = OBV(G.v); vproto = G.n ? OBV(0) : VF_NULL; vold = IN_RANGE(5, 0, 1) ? OBV(G.cur) : VF_NULL;
        for (i = 0; i < G.n; i ++) OB(i)->prototype = i + 1 < G.n ? OBV(i + 1) : VF_NULL;
        /* before the change the heap has no cycle, so on the chain the object's own prototype is the next one */
        if (G.v < G.n) vold = ob.prototype;
    }
#endif
    ASSUME(G.v >= G.n || vold == (G.v + 1 < G.n ? OBJX(G.v + 1) : VF_NULL));
    ob.prototype = vold;
    g_r = rjs_ordinary_object_op_set_prototype_of(rt, &vob, &vproto);
    NCHECK("[[SetPrototypeOf]]", sp_setp(g_r)); REACH();
}
