/* C13/C09: SetIntegrityLevel and TestIntegrityLevel (Object.freeze, seal, isFrozen, isSealed). */
#include "vf.h"
#define rjs_throw_type_error vf_throw_type_error
#include "lib/rjs_operation.c"
#define VF_THINGS 8
#include "vf_rt.h"

//@assume the internal methods of the object are arbitrary-result stubs (they may throw); at most 2 own keys
//@default props=C13 unwind=5 calls=VF_BOX,rjs_object_prevent_extensions:st_pe,rjs_object_is_extensible:st_ext,rjs_object_own_property_keys:st_keys,rjs_object_get_own_property:st_own,rjs_object_define_own_property:st_def,rjs_to_desc_chars:st_desc
const char *st_desc (RJS_Runtime *rt, RJS_Value *v, RJS_CharBuffer *b, const char *n) { return ""; }
#define NK 2
static RJS_Object ob; static RJS_ObjectOps ops_ob; static RJS_Value vob, vkeys, items[NK]; static RJS_PropertyKeyList pkl;
static RJS_GcThingOps pkl_ops;
static struct { int pe, ext, keys, nk, own[NK], fl[NK], def[NK]; } Q;
static struct { int pe, ext, keys, own, ndef, defk[NK], deff[NK], thrown, order; } S;
static int g_r, g_level;
#define ACCF (RJS_PROP_FL_HAS_GET|RJS_PROP_FL_HAS_SET)

static int key_of(RJS_Runtime *rt, RJS_PropertyName *pn) { return (int)(*rjs_value_get_pointer(rt, pn->name) & 0xffffffff) - 100; }
RJS_Result vf_throw_type_error (RJS_Runtime *rt, const char *f, ...) { return RJS_ERR; }
RJS_Result st_pe (RJS_Runtime *rt, RJS_Value *o) { CHECK("no key was touched before", !S.own && !S.ndef); S.pe ++; return Q.pe; }
RJS_Result st_ext (RJS_Runtime *rt, RJS_Value *o) { S.ext ++; return Q.ext; }
RJS_Result st_keys (RJS_Runtime *rt, RJS_Value *o, RJS_Value *keys) { S.keys ++; if (Q.keys == RJS_ERR) return RJS_ERR; *rjs_value_get_pointer(rt, keys) = vkeys; return RJS_OK; }
RJS_Result st_own (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_PropertyDesc *pd)
{ int k = key_of(rt, pn); S.own ++; if (k < 0 || k >= NK) k = 0; if (Q.own[k] == RJS_TRUE) pd->flags = Q.fl[k]; return Q.own[k]; }
RJS_Result st_def (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_PropertyDesc *pd)
{ int k = key_of(rt, pn); if (k < 0 || k >= NK) k = 0; if (S.ndef < NK) { S.defk[S.ndef] = k; S.deff[S.ndef] = pd->flags; } S.ndef ++; return Q.def[k]; }

static RJS_Runtime *world(void)
{
    RJS_Runtime *rt = vf_rt(); int i;
    memset(&S, 0, sizeof S);
    ops_ob.gc_thing_ops.type = RJS_GC_THING_OBJECT; ops_ob.prevent_extensions = st_pe; ops_ob.is_extensible = st_ext; ops_ob.own_property_keys = st_keys;
    ops_ob.get_own_property = st_own; ops_ob.define_own_property = st_def;
    ob.gc_thing.ops = (RJS_GcThingOps*)&ops_ob; vob = vf_new_thing(RJS_VALUE_TAG_OBJECT, &ob);
    pkl_ops.type = RJS_GC_THING_PROP_KEY_LIST; pkl.gc_thing.ops = &pkl_ops; vkeys = vf_new_thing(RJS_VALUE_TAG_GC_THING, &pkl);
    Q.nk = IN_RANGE(0, 0, NK); pkl.keys.items = items; pkl.keys.item_num = Q.nk; pkl.keys.item_cap = NK;
    for (i = 0; i < NK; i ++) {
        items[i] = (((RJS_Value)RJS_VALUE_TAG_INDEX_STRING) << 48) | (100 + i);
        Q.own[i] = (int)IN_RANGE(1 + 3 * i, 0, 2) - 1; Q.fl[i] = IN64(2 + 3 * i) & 0x7ff; Q.def[i] = (int)IN_RANGE(3 + 3 * i, 0, 2) - 1;
        /* a full descriptor: data or accessor */
        Q.fl[i] |= RJS_PROP_FL_HAS_ENUMERABLE|RJS_PROP_FL_HAS_CONFIGURABLE;
        if (Q.fl[i] & ACCF) Q.fl[i] = (Q.fl[i] | ACCF) & ~(RJS_PROP_FL_WRITABLE|RJS_PROP_FL_HAS_WRITABLE|RJS_PROP_FL_HAS_VALUE); else Q.fl[i] |= RJS_PROP_FL_HAS_WRITABLE|RJS_PROP_FL_HAS_VALUE;
    }
    Q.pe = (int)IN_RANGE(10, 0, 2) - 1; Q.ext = (int)IN_RANGE(11, 0, 2) - 1; Q.keys = IN_RANGE(12, 0, 1) ? RJS_OK : RJS_ERR; g_level = IN_RANGE(13, 0, 1) ? RJS_INTEGRITY_FROZEN : RJS_INTEGRITY_SEALED;
    return rt;
}
/* ECMAScript 7.3.16: the object is non-extensible, and every own property was made non-configurable (and, frozen data, non-writable) */
static int sp_set(RJS_Result r)
{
    int i, n = 0, want = RJS_ERR, stop = 0;
    if (S.pe != 1) return 0;
    if (Q.pe != RJS_TRUE) return r == Q.pe && S.ndef == 0;
    if (Q.keys == RJS_ERR) return r == RJS_ERR && S.ndef == 0;
    want = RJS_TRUE;
    for (i = 0; i < NK; i ++) if (i < Q.nk && !stop) {
        int f = RJS_PROP_FL_HAS_CONFIGURABLE;
        if (g_level == RJS_INTEGRITY_FROZEN) {
            if (Q.own[i] == RJS_ERR) { want = RJS_ERR; stop = 1; continue; }
            if (Q.own[i] == RJS_FALSE) continue;
            if (!(Q.fl[i] & ACCF)) f |= RJS_PROP_FL_HAS_WRITABLE;
        }
        if (n >= S.ndef || S.defk[n] != i || S.deff[n] != f) return 0;
        n ++;
        if (Q.def[i] != RJS_TRUE) { want = RJS_ERR; stop = 1; }
    }
    return r == want && S.ndef == n;
}
static int sp_test(RJS_Result r)
{
    int i;
    if (S.ndef || S.pe) return 0;
    if (Q.ext != RJS_FALSE) return r == (Q.ext == RJS_ERR ? RJS_ERR : RJS_FALSE);
    if (Q.keys == RJS_ERR) return r == RJS_ERR;
    for (i = 0; i < NK; i ++) if (i < Q.nk) {
        if (Q.own[i] == RJS_ERR) return r == RJS_ERR;
        if (Q.own[i] == RJS_FALSE) continue;
        if (Q.fl[i] & RJS_PROP_FL_CONFIGURABLE) return r == RJS_FALSE;
        if (g_level == RJS_INTEGRITY_FROZEN && !(Q.fl[i] & ACCF) && (Q.fl[i] & RJS_PROP_FL_WRITABLE)) return r == RJS_FALSE;
    }
    return r == RJS_TRUE;
}
CONTRACT(RJS_Result rjs_set_integrity_level (RJS_Runtime *rt, RJS_Value *o, RJS_IntegrityLevel level)
ASG(S, __CPROVER_object_whole(vf_stack_s), vf_ns_s.value.item_num) ENS(sp_set(__CPROVER_return_value)) ENS(vf_ns_s.value.item_num == __CPROVER_old(vf_ns_s.value.item_num));)
//@unit name=set_integrity enforce=rjs_set_integrity_level bounded="at most 2 own keys"
void h_set_integrity(void) { RJS_Runtime *rt = world(); g_r = rjs_set_integrity_level(rt, &vob, g_level); NCHECK("SetIntegrityLevel", sp_set(g_r)); REACH(); }
CONTRACT(RJS_Result rjs_test_integrity_level (RJS_Runtime *rt, RJS_Value *o, RJS_IntegrityLevel level)
ASG(S, __CPROVER_object_whole(vf_stack_s), vf_ns_s.value.item_num) ENS(sp_test(__CPROVER_return_value)) ENS(vf_ns_s.value.item_num == __CPROVER_old(vf_ns_s.value.item_num));)
//@unit name=test_integrity enforce=rjs_test_integrity_level bounded="at most 2 own keys"
void h_test_integrity(void) { RJS_Runtime *rt = world(); g_r = rjs_test_integrity_level(rt, &vob, g_level); NCHECK("TestIntegrityLevel", sp_test(g_r)); REACH(); }
