/* C09: ValidateAndApplyPropertyDescriptor and the ordinary internal methods; C13: prototype and extensibility. */
#include "vf.h"
#define VF_THINGS 10
#include "lib/rjs_object.c"
#include "lib/rjs_operation.c"
#include "vf_rt.h"

//@assume the property table (lookup, insertion, removal) stands for its map contract: one cell per key; the table itself is C10
//@assume getters, setters and the internal methods of other objects are arbitrary-result stubs
//@default props=C09 unwind=12 calls=VF_BOX,prop_lookup:vf_lookup,prop_add:vf_add,prop_delete:vf_delete,rjs_object_get_own_property:vf_own,rjs_object_is_extensible:vf_ext,rjs_object_get_prototype_of:vf_gpo,rjs_object_get:vf_pget,rjs_object_set:vf_pset,rjs_object_has_property:vf_phas,rjs_object_define_own_property:vf_def,rjs_call:vf_call
#define NE 4
static RJS_Object ob, par, rcv, fn[2];
static RJS_ObjectOps ops_ob, ops_par, ops_rcv, ops_fn;
static RJS_Property vec[NE];
static RJS_Value vob, vpar, vrcv, vfn[2], g_name, g_val, g_get, g_set, g_out, c_val, c_get, c_set;
static RJS_PropertyName g_pn; static RJS_PropertyDesc g_pd, c_pd;
static int g_k, g_r;
/* the property before, as a ghost: present, attrs, two slots */
static struct { int present, attrs; RJS_Value a, b; uint32_t num, max; int ext; } O;
/* stub answers and records */
static struct { int gpo, pflags, call, own, oflags, def; RJS_Value pv, ov; } Q;
static struct { int calls, pget, pset, phas, defs, dflags, owns; RJS_Value f, self, arg, dval, rec; } S;

#define W RJS_PROP_FL_WRITABLE
#define E RJS_PROP_FL_ENUMERABLE
#define C RJS_PROP_FL_CONFIGURABLE
#define ACC RJS_PROP_ATTR_ACCESSOR
#define DEL RJS_PROP_ATTR_DELETED
#define HW RJS_PROP_FL_HAS_WRITABLE
#define HE RJS_PROP_FL_HAS_ENUMERABLE
#define HC RJS_PROP_FL_HAS_CONFIGURABLE
#define HV RJS_PROP_FL_HAS_VALUE
#define HG RJS_PROP_FL_HAS_GET
#define HS RJS_PROP_FL_HAS_SET

static RJS_Value rd(RJS_Runtime *rt, RJS_Value *v) { return *rjs_value_get_pointer(rt, v); }
/* any value: undefined, null, boolean, any Number, one of two objects */
static RJS_Value any(int in)
{
    int k = IN_RANGE(in, 0, 5); uint64_t x = IN64(in + 1);
    if (k == 0) return VF_UNDEF;
    if (k == 1) return VF_NULL;
    if (k == 2) return (((RJS_Value)RJS_VALUE_TAG_BOOLEAN) << 48) | (x & 1);
    if (k == 3) return vfn[x & 1];
    ASSUME(vf_num_ok(x));
    return x;
}
static RJS_Value fnval(int in) { int k = IN_RANGE(in, 0, 2); return k == 0 ? VF_UNDEF : vfn[k - 1]; }
/* SameValue on that universe */
static int sp_same(RJS_Value a, RJS_Value b)
{
    if (vf_is_num(a) && vf_is_num(b) && ((a >> 52) & 0x7ff) == 0x7ff && (a & 0xfffffffffffffull) && ((b >> 52) & 0x7ff) == 0x7ff && (b & 0xfffffffffffffull)) return 1;
    return a == b;
}
static int flags_ok(int f)
{ return !(f & ~(W|E|C|HW|HE|HC|HV|HG|HS)) && (!(f & W) || (f & HW)) && (!(f & E) || (f & HE)) && (!(f & C) || (f & HC)) && !((f & (HW|HV)) && (f & (HG|HS))); }

static RJS_Result f_call (RJS_Runtime *rt, RJS_Value *o, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *rv)
{ S.calls ++; S.f = rd(rt, o); S.self = rd(rt, thiz); S.arg = argc ? rd(rt, args) : VF_UNDEF; if (rv) *rjs_value_get_pointer(rt, rv) = 0x4000000000000000ull; return Q.call; }
static RJS_Result p_get (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_Value *rec, RJS_Value *v) { S.pget ++; S.rec = rd(rt, rec); *rjs_value_get_pointer(rt, v) = Q.pv; return Q.pflags; }
static RJS_Result p_set (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_Value *v, RJS_Value *rec) { S.pset ++; S.rec = rd(rt, rec); S.arg = rd(rt, v); return Q.pflags; }
static RJS_Result p_has (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn) { S.phas ++; return Q.pflags; }
/* a receiver with arbitrary answers */
static RJS_Result r_own (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_PropertyDesc *pd)
{ S.owns ++; if (Q.own == RJS_TRUE) { pd->flags = Q.oflags; *rjs_value_get_pointer(rt, pd->value) = Q.ov; } return Q.own; }
static RJS_Result r_def (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_PropertyDesc *pd)
{ S.defs ++; S.dflags = pd->flags; S.dval = rd(rt, pd->value); return Q.def; }

#ifndef VF_DEFSELF
#define VF_DEFSELF 0
#endif
#ifndef VF_NATIVE
/* the map contract of the property table, for the one key under test */
static void key_ok(RJS_Runtime *rt, RJS_Value *v, RJS_PropertyName *n)
{ CHECK("storage is used on the object and key of the operation", rd(rt, v) == vob && n == &g_pn && (n->flags & RJS_PROP_NAME_FL_INDEX) && n->index == g_k); }
RJS_Property *vf_lookup (RJS_Runtime *rt, RJS_Value *v, RJS_PropertyName *n) { key_ok(rt, v, n); return (vec[g_k].attrs & DEL) ? NULL : &vec[g_k]; }
RJS_Property *vf_add (RJS_Runtime *rt, RJS_Value *v, RJS_PropertyName *n)
{ key_ok(rt, v, n); CHECK("only an absent key is added", vec[g_k].attrs & DEL); ob.array_item_num ++; if (g_k > (int)ob.array_item_max) ob.array_item_max = g_k; return &vec[g_k]; }
void vf_delete (RJS_Runtime *rt, RJS_Value *v, RJS_PropertyName *n)
{ key_ok(rt, v, n); CHECK("only a present key is removed", !(vec[g_k].attrs & DEL)); vec[g_k].attrs |= DEL; ob.array_item_num --; }
/* dispatch through the operations table: the object under test is ordinary, the others are the stubs above */
RJS_Result vf_own (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_PropertyDesc *pd)
{ return rd(rt, o) == vob ? rjs_ordinary_object_op_get_own_property(rt, o, pn, pd) : r_own(rt, o, pn, pd); }
RJS_Result vf_def (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_PropertyDesc *pd)
{ return VF_DEFSELF ? rjs_ordinary_object_op_define_own_property(rt, o, pn, pd) : r_def(rt, o, pn, pd); }
RJS_Result vf_ext (RJS_Runtime *rt, RJS_Value *o) { return rjs_ordinary_object_op_is_extensible(rt, o); }
RJS_Result vf_gpo (RJS_Runtime *rt, RJS_Value *o, RJS_Value *p) { return rjs_ordinary_object_op_get_prototype_of(rt, o, p); }
RJS_Result vf_pget (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_Value *rec, RJS_Value *v) { CHECK("asks the prototype", rd(rt, o) == vpar); return p_get(rt, o, pn, rec, v); }
RJS_Result vf_pset (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_Value *v, RJS_Value *rec) { CHECK("asks the prototype", rd(rt, o) == vpar); return p_set(rt, o, pn, v, rec); }
RJS_Result vf_phas (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn) { CHECK("asks the prototype", rd(rt, o) == vpar); return p_has(rt, o, pn); }
RJS_Result vf_call (RJS_Runtime *rt, RJS_Value *o, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *rv) { return f_call(rt, o, thiz, args, argc, rv); }
#endif

static RJS_Runtime *world(void)
{
    RJS_Runtime *rt = vf_rt(); int i;
    memset(&S, 0, sizeof S);
    S.f = S.self = S.arg = S.dval = S.rec = 0;
    ops_ob.gc_thing_ops.type = ops_par.gc_thing_ops.type = ops_rcv.gc_thing_ops.type = ops_fn.gc_thing_ops.type = RJS_GC_THING_OBJECT;
    ops_ob.get_own_property = rjs_ordinary_object_op_get_own_property; ops_ob.define_own_property = rjs_ordinary_object_op_define_own_property;
    ops_ob.is_extensible = rjs_ordinary_object_op_is_extensible; ops_ob.get_prototype_of = rjs_ordinary_object_op_get_prototype_of;
    ops_par.get = p_get; ops_par.set = p_set; ops_par.has_property = p_has; ops_fn.call = f_call;
    ops_rcv.get_own_property = r_own; ops_rcv.define_own_property = r_def;
    ob.gc_thing.ops = (RJS_GcThingOps*)&ops_ob; par.gc_thing.ops = (RJS_GcThingOps*)&ops_par; rcv.gc_thing.ops = (RJS_GcThingOps*)&ops_rcv;
    vob = vf_new_thing(RJS_VALUE_TAG_OBJECT, &ob); vpar = vf_new_thing(RJS_VALUE_TAG_OBJECT, &par); vrcv = vf_new_thing(RJS_VALUE_TAG_OBJECT, &rcv);
    for (i = 0; i < 2; i ++) { fn[i].gc_thing.ops = (RJS_GcThingOps*)&ops_fn; vfn[i] = vf_new_thing(RJS_VALUE_TAG_OBJECT, &fn[i]); }
    /* the object: NE dense elements, element g_k is the property under test */
    g_k = 2;
    ob.flags = IN_RANGE(1, 0, 1) ? RJS_OBJECT_FL_EXTENSIBLE : 0;
    ob.prototype = IN_RANGE(2, 0, 1) ? vpar : VF_NULL;
    ob.prop_array.vec = vec; ob.array_item_cap = NE;
    ob.array_item_num = 0; ob.array_item_max = 0;
    for (i = 0; i < NE; i ++) {
        int a = i == g_k ? (int)IN_RANGE(4 + i, 0, 31) : i == 0 ? W : DEL;
        if (a & ACC) a &= ~W;
        vec[i].attrs = a;
        vec[i].p.a.get = VF_UNDEF; vec[i].p.a.set = VF_UNDEF;
        if (!(a & DEL)) { ob.array_item_num ++; ob.array_item_max = i; }
    }
    if (vec[g_k].attrs & ACC) { vec[g_k].p.a.get = fnval(10); vec[g_k].p.a.set = fnval(11); } else vec[g_k].p.value = any(12);
    O.present = !(vec[g_k].attrs & DEL); O.attrs = vec[g_k].attrs; O.a = vec[g_k].p.a.get; O.b = vec[g_k].p.a.set; O.num = ob.array_item_num; O.max = ob.array_item_max; O.ext = ob.flags != 0;
    g_name = (((RJS_Value)RJS_VALUE_TAG_INDEX_STRING) << 48) | g_k;
    g_pn.name = &g_name; g_pn.flags = 0; g_pn.index = 0;
    /* the descriptor */
    g_pd.flags = IN64(14) & 0x7ff; ASSUME(flags_ok(g_pd.flags)); g_pd.value = &g_val; g_pd.get = &g_get; g_pd.set = &g_set;
    g_val = any(15); g_get = fnval(17); g_set = fnval(18); g_out = VF_NULL;
    Q.pflags = (int)IN_RANGE(19, 0, 2) - 1; Q.call = (int)IN_RANGE(20, 0, 1) ? RJS_OK : RJS_ERR; Q.pv = any(21);
    Q.own = (int)IN_RANGE(23, 0, 2) - 1; Q.oflags = IN64(24) & 0x7ff; Q.ov = any(25); Q.def = (int)IN_RANGE(27, 0, 2) - 1;
    return rt;
}
#define STK __CPROVER_object_whole(vf_stack_s), vf_ns_s.value.item_num
#define TOP(r) ENS(vf_ns_s.value.item_num == __CPROVER_old(vf_ns_s.value.item_num))

/* ---- the descriptor algebra (ECMAScript 10.1.6.3) ---- */
static int sp_allowed(int present, int ext, int attrs, RJS_Value a, RJS_Value b, int f, RJS_Value val, RJS_Value get, RJS_Value set)
{
    int cacc = (attrs & ACC) != 0, dacc = (f & (HG|HS)) != 0, ddat = (f & (HV|HW)) != 0;
    if (!present) return ext;
    if (attrs & C) return 1;
    if ((f & HC) && (f & C)) return 0;
    if ((f & HE) && !(f & E) != !(attrs & E)) return 0;
    if ((dacc && !cacc) || (ddat && cacc)) return 0;
    if (cacc) return (!(f & HG) || sp_same(get, a)) && (!(f & HS) || sp_same(set, b));
    if (!(attrs & W)) return !((f & HW) && (f & W)) && (!(f & HV) || sp_same(val, a));
    return 1;
}
/* attributes and slots after a successful definition */
static int sp_after(int present, int attrs, RJS_Value a, RJS_Value b, int f, RJS_Value val, RJS_Value get, RJS_Value set)
{
    RJS_Property *p = &vec[g_k];
    int cacc = present && (attrs & ACC), dacc = (f & (HG|HS)) != 0, ddat = (f & (HV|HW)) != 0, racc, e, c, w;
    if (!present) attrs = 0;
    racc = dacc ? 1 : ddat ? 0 : cacc != 0;
    e = (f & HE) ? (f & E) != 0 : (attrs & E) != 0; c = (f & HC) ? (f & C) != 0 : (attrs & C) != 0;
    w = (f & HW) ? (f & W) != 0 : present && !cacc ? (attrs & W) != 0 : 0;
    if ((p->attrs & DEL) || !!(p->attrs & ACC) != racc || !!(p->attrs & E) != e || !!(p->attrs & C) != c) return 0;
    if (racc) return !(p->attrs & W) && p->p.a.get == ((f & HG) ? get : cacc ? a : VF_UNDEF) && p->p.a.set == ((f & HS) ? set : cacc ? b : VF_UNDEF);
    return !!(p->attrs & W) == w && p->p.value == ((f & HV) ? val : present && !cacc ? a : VF_UNDEF);
}
static int sp_unchanged(void)
{ RJS_Property *p = &vec[g_k]; return p->attrs == O.attrs && ((O.attrs & DEL) || (p->p.a.get == O.a && (!(O.attrs & ACC) || p->p.a.set == O.b))) && ob.array_item_num == O.num && ob.array_item_max == O.max; }
static int sp_define(RJS_Result r)
{
    if (!sp_allowed(O.present, O.ext, O.attrs, O.a, O.b, g_pd.flags, g_val, g_get, g_set)) return r == RJS_FALSE && sp_unchanged();
    return r == RJS_TRUE && sp_after(O.present, O.attrs, O.a, O.b, g_pd.flags, g_val, g_get, g_set);
}
CONTRACT(RJS_Result rjs_ordinary_object_op_define_own_property (RJS_Runtime *rt, RJS_Value *v, RJS_PropertyName *pn, RJS_PropertyDesc *pd)
ASG(STK, vec[g_k], ob.array_item_num, ob.array_item_max, g_pn.flags, g_pn.index) ENS(sp_define(__CPROVER_return_value)) TOP();)
//@unit name=op_define enforce=rjs_ordinary_object_op_define_own_property fns=rjs_ordinary_object_op_define_own_property,validate_and_apply_property,rjs_ordinary_object_op_get_own_property
void h_op_define(void) { RJS_Runtime *rt = world();
    g_r = rjs_ordinary_object_op_define_own_property(rt, &vob, &g_pn, &g_pd);
    NCHECK("[[DefineOwnProperty]]", sp_define(g_r)); REACH(); }

static int sp_compat(RJS_Result r)
{
    int cf = c_pd.flags, ok;
    if (!g_k) ok = O.ext;
    else ok = sp_allowed(1, O.ext, (cf & (W|E|C)) | ((cf & (HG|HS)) ? ACC : 0), (cf & (HG|HS)) ? c_get : c_val, c_set, g_pd.flags, g_val, g_get, g_set);
    return r == (ok ? RJS_TRUE : RJS_FALSE);
}
CONTRACT(RJS_Result rjs_is_compatible_property_descriptor (RJS_Runtime *rt, RJS_Bool ext, RJS_PropertyDesc *desc, RJS_PropertyDesc *curr)
ASG() ENS(sp_compat(__CPROVER_return_value));)
//@unit name=compat enforce=rjs_is_compatible_property_descriptor fns=rjs_is_compatible_property_descriptor,validate_and_apply_property props=C09,C14
void h_compat(void) { RJS_Runtime *rt = world();
    c_pd.flags = IN64(30) & 0x7ff; ASSUME(flags_ok(c_pd.flags)); ASSUME((c_pd.flags & (HE|HC)) == (HE|HC) && ((c_pd.flags & (HG|HS)) == (HG|HS) || (c_pd.flags & (HV|HW)) == (HV|HW)));
    c_val = any(31); c_get = fnval(33); c_set = fnval(34); c_pd.value = &c_val; c_pd.get = &c_get; c_pd.set = &c_set;
    g_r = rjs_is_compatible_property_descriptor(rt, O.ext, &g_pd, g_k ? &c_pd : NULL);
    NCHECK("IsCompatiblePropertyDescriptor", sp_compat(g_r)); REACH(); }

static int sp_own(RJS_Result r)
{
    int m;
    if (!O.present) return r == RJS_FALSE;
    if (r != RJS_TRUE || !sp_unchanged()) return 0;
    m = O.attrs & (E|C|W);
    if (O.attrs & ACC) return c_pd.flags == (RJS_PROP_FL_ACCESSOR | (m & ~W)) && c_get == O.a && c_set == O.b;
    return c_pd.flags == (RJS_PROP_FL_DATA | m) && c_val == O.a;
}
CONTRACT(RJS_Result rjs_ordinary_object_op_get_own_property (RJS_Runtime *rt, RJS_Value *v, RJS_PropertyName *pn, RJS_PropertyDesc *pd)
ASG(c_pd, c_val, c_get, c_set, g_pn.flags, g_pn.index) ENS(sp_own(__CPROVER_return_value));)
//@unit name=op_get_own enforce=rjs_ordinary_object_op_get_own_property
void h_op_get_own(void) { RJS_Runtime *rt = world(); c_pd.flags = 0; c_pd.value = &c_val; c_pd.get = &c_get; c_pd.set = &c_set; c_val = c_get = c_set = VF_NULL;
    g_r = rjs_ordinary_object_op_get_own_property(rt, &vob, &g_pn, &c_pd);
    NCHECK("[[GetOwnProperty]]", sp_own(g_r)); REACH(); }

static int sp_del(RJS_Result r)
{
    if (!O.present) return r == RJS_TRUE && sp_unchanged();
    if (!(O.attrs & C)) return r == RJS_FALSE && sp_unchanged();
    return r == RJS_TRUE && (vec[g_k].attrs & DEL);
}
CONTRACT(RJS_Result rjs_ordinary_object_op_delete (RJS_Runtime *rt, RJS_Value *v, RJS_PropertyName *pn)
ASG(STK, vec[g_k], ob.array_item_num, ob.array_item_max, g_pn.flags, g_pn.index) ENS(sp_del(__CPROVER_return_value)) TOP();)
//@unit name=op_delete enforce=rjs_ordinary_object_op_delete fns=rjs_ordinary_object_op_delete,rjs_ordinary_object_op_get_own_property
void h_op_delete(void) { RJS_Runtime *rt = world();
    g_r = rjs_ordinary_object_op_delete(rt, &vob, &g_pn);
    NCHECK("[[Delete]]", sp_del(g_r)); REACH(); }

static int sp_has(RJS_Result r)
{ if (O.present) return r == RJS_TRUE && S.phas == 0; if (ob.prototype == VF_NULL) return r == RJS_FALSE && S.phas == 0; return S.phas == 1 && r == Q.pflags; }
CONTRACT(RJS_Result rjs_ordinary_object_op_has_property (RJS_Runtime *rt, RJS_Value *v, RJS_PropertyName *pn)
ASG(STK, S, g_pn.flags, g_pn.index) ENS(sp_has(__CPROVER_return_value)) TOP();)
//@unit name=op_has enforce=rjs_ordinary_object_op_has_property
void h_op_has(void) { RJS_Runtime *rt = world();
    g_r = rjs_ordinary_object_op_has_property(rt, &vob, &g_pn);
    NCHECK("[[HasProperty]]", sp_has(g_r)); REACH(); }

static int sp_get(RJS_Result r)
{
    if (!O.present) {
        if (ob.prototype == VF_NULL) return r == RJS_OK && g_out == VF_UNDEF && S.pget == 0 && S.calls == 0;
        return S.pget == 1 && S.calls == 0 && r == Q.pflags && g_out == Q.pv && S.rec == vrcv;
    }
    if (S.pget) return 0;
    if (!(O.attrs & ACC)) return r == RJS_OK && g_out == O.a && S.calls == 0;
    if (O.a == VF_UNDEF) return r == RJS_OK && g_out == VF_UNDEF && S.calls == 0;
    return S.calls == 1 && S.f == O.a && S.self == vrcv && r == Q.call && g_out == 0x4000000000000000ull;
}
CONTRACT(RJS_Result rjs_ordinary_object_op_get (RJS_Runtime *rt, RJS_Value *v, RJS_PropertyName *pn, RJS_Value *receiver, RJS_Value *pv)
ASG(STK, S, g_out, g_pn.flags, g_pn.index) ENS(sp_get(__CPROVER_return_value)) TOP();)
//@unit name=op_get enforce=rjs_ordinary_object_op_get
void h_op_get(void) { RJS_Runtime *rt = world();
    g_r = rjs_ordinary_object_op_get(rt, &vob, &g_pn, &vrcv, &g_out);
    NCHECK("[[Get]]", sp_get(g_r)); REACH(); }

/* [[Set]]: receiver is another object with arbitrary answers (1), the object itself (0), or a primitive (2) */
static int g_rk; static RJS_Value g_rec;
static int sp_set(RJS_Result r)
{
    int dflt = RJS_PROP_FL_DATA | W | E | C;
    if (!O.present && ob.prototype != VF_NULL) return sp_unchanged() && S.pset == 1 && S.calls == 0 && S.defs == 0 && r == Q.pflags && S.rec == g_rec && S.arg == g_val;
    if (S.pset) return 0;
    if (O.present && (O.attrs & ACC)) {
        if (!sp_unchanged() || S.defs) return 0;
        if (O.b == VF_UNDEF) return r == RJS_FALSE && S.calls == 0;
        return S.calls == 1 && S.f == O.b && S.self == g_rec && S.arg == g_val && (Q.call == RJS_ERR ? r == RJS_ERR : r == RJS_TRUE);
    }
    if (S.calls) return 0;
    if (O.present && !(O.attrs & W)) return r == RJS_FALSE && sp_unchanged() && S.defs == 0;
    if (g_rk == 2) return r == RJS_FALSE && sp_unchanged();
    if (g_rk == 1) {
        if (!sp_unchanged() || S.owns != 1) return 0;
        if (Q.own == RJS_ERR) return r == RJS_ERR && S.defs == 0;
        if (Q.own == RJS_TRUE) {
            if ((Q.oflags & (HG|HS)) || !(Q.oflags & W)) return r == RJS_FALSE && S.defs == 0;
            return S.defs == 1 && S.dflags == HV && S.dval == g_val && r == Q.def;
        }
        return S.defs == 1 && S.dflags == dflt && S.dval == g_val && r == Q.def;
    }
    /* the object itself: an own property keeps its attributes, a new one is fully open */
    if (!O.present && !O.ext) return r == RJS_FALSE && sp_unchanged();
    return r == RJS_TRUE && (O.present ? sp_after(1, O.attrs, O.a, O.b, HV, g_val, g_get, g_set) : sp_after(0, 0, 0, 0, dflt, g_val, g_get, g_set));
}
CONTRACT(RJS_Result rjs_ordinary_object_op_set (RJS_Runtime *rt, RJS_Value *v, RJS_PropertyName *pn, RJS_Value *pv, RJS_Value *receiver)
ASG(STK, S, vec[g_k], ob.array_item_num, ob.array_item_max, g_pn.flags, g_pn.index) ENS(sp_set(__CPROVER_return_value)) TOP();)
static void do_set(RJS_Runtime *rt, int k)
{
    g_rk = k; g_rec = k == 0 ? vob : k == 1 ? vrcv : 0x4008000000000000ull;
    if (k == 1) ASSUME(flags_ok(Q.oflags) && (Q.oflags & (HV|HW|HG|HS)));
    g_r = rjs_ordinary_object_op_set(rt, &vob, &g_pn, &g_val, &g_rec);
    NCHECK("[[Set]]", sp_set(g_r)); REACH();
}
//@unit name=op_set_self defs=-DVF_DEFSELF=1 enforce=rjs_ordinary_object_op_set
void h_op_set_self(void) { do_set(world(), 0); }
//@unit name=op_set_other enforce=rjs_ordinary_object_op_set
void h_op_set_other(void) { do_set(world(), 1); }
//@unit name=op_set_prim enforce=rjs_ordinary_object_op_set
void h_op_set_prim(void) { do_set(world(), 2); }

/* ---- C13: prototypes ---- */
CONTRACT(RJS_Result rjs_ordinary_object_op_is_extensible (RJS_Runtime *rt, RJS_Value *v) ASG() ENS(__CPROVER_return_value == (O.ext ? RJS_TRUE : RJS_FALSE));)
//@unit name=is_ext enforce=rjs_ordinary_object_op_is_extensible props=C13
void h_is_ext(void) { RJS_Runtime *rt = world(); g_r = rjs_ordinary_object_op_is_extensible(rt, &vob); NCHECK("[[IsExtensible]]", g_r == (O.ext ? RJS_TRUE : RJS_FALSE)); REACH(); }
CONTRACT(RJS_Result rjs_ordinary_object_op_prevent_extensions (RJS_Runtime *rt, RJS_Value *v) ASG(ob.flags)
ENS(__CPROVER_return_value == RJS_TRUE && ob.flags == (__CPROVER_old(ob.flags) & ~RJS_OBJECT_FL_EXTENSIBLE));)
//@unit name=prevent_ext enforce=rjs_ordinary_object_op_prevent_extensions props=C13
void h_prevent_ext(void) { RJS_Runtime *rt = world(); int of; ob.flags |= IN_RANGE(60, 0, 1) ? RJS_OBJECT_FL_RBT : 0; of = ob.flags; g_r = rjs_ordinary_object_op_prevent_extensions(rt, &vob); NCHECK("[[PreventExtensions]]", g_r == RJS_TRUE && ob.flags == (of & ~RJS_OBJECT_FL_EXTENSIBLE)); REACH(); }
static int sp_proto(RJS_Result r) { return r == RJS_OK && g_out == ob.prototype; }
CONTRACT(RJS_Result rjs_ordinary_object_op_get_prototype_of (RJS_Runtime *rt, RJS_Value *v, RJS_Value *p) ASG(g_out) ENS(sp_proto(__CPROVER_return_value));)
//@unit name=get_proto enforce=rjs_ordinary_object_op_get_prototype_of props=C13
void h_get_proto(void) { RJS_Runtime *rt = world(); g_r = rjs_ordinary_object_op_get_prototype_of(rt, &vob, &g_out); NCHECK("[[GetPrototypeOf]]", sp_proto(g_r)); REACH(); }
