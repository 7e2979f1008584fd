/* C21: the binding index cache and module and function environments. */
#include "vf.h"
#define rjs_throw_reference_error vf_throw_ref
#define rjs_string_to_enc_chars vf_enc
#include "lib/rjs_decl_env.c"
#include "lib/rjs_module_env_opt.c"
#define function_env_op_gc_scan fe_gc_scan
#include "lib/rjs_function_env.c"
#undef rjs_string_to_enc_chars
#include "vf_rt.h"

//@assume fewer than 65535 bindings per environment (the index cache has 16 bits)
//@assume the hash table stands for its map contract (C19); string interning by C15; the environment of another module is a stub
//@default props=C21 unwind=9 dfcc=0 calls=VF_BOX,rjs_hash_lookup:k_hl,rjs_hash_insert:k_hi,rjs_hash_remove:k_hr,rjs_string_to_property_key:k_key,rjs_realloc_assert:k_realloc,rjs_alloc_assert:k_alloc,rjs_free:k_free,rjs_env_get_binding_value:k_other
static RJS_ModuleEnv k_me; static RJS_FunctionEnv k_fe; static RJS_Environment *k_env; static RJS_ValueBinding k_b[4]; static RJS_ImportBinding k_ib; static RJS_Binding *k_items[8], *k_items2[40];
static RJS_String k_str; static RJS_Value k_n, k_v, k_out, k_modv, k_n2; static RJS_BindingName k_bn; static RJS_Module k_mod; static RJS_Environment k_oenv;
static RJS_HashEntry *k_slot;
static int g_hit, g_m, s_kind, s_ins, s_rem, s_free, s_hl, s_other, g_isimport, g_flags; static size_t g_num;
RJS_Result vf_throw_ref (RJS_Runtime *rt, const char *m, ...) { s_kind |= 1; return RJS_ERR; }
const char *vf_enc (RJS_Runtime *rt, RJS_Value *v, RJS_CharBuffer *cb, const char *enc) { return ""; }
static RJS_Binding *bind(void) { return g_isimport ? &k_ib.b : &k_b[g_m].b; }
#ifndef VF_NATIVE
RJS_Result k_hl (RJS_Hash *h, void *key, RJS_HashEntry **re, RJS_HashEntry ***rpe, const RJS_HashOps *ops, void *data)
{
    CHECK("the name in the table of this environment", h == &k_me.decl_env.binding_hash && key == &k_str && ops == &rjs_hash_size_ops); s_hl ++;
    k_slot = g_hit ? &bind()->he : NULL; if (re) *re = k_slot; if (rpe) *rpe = &k_slot;
    return g_hit ? RJS_TRUE : RJS_FALSE;
}
void k_hi (RJS_Hash *h, void *key, RJS_HashEntry *e, RJS_HashEntry **pe, const RJS_HashOps *ops, void *data)
{ CHECK("inserted once under the name", h == &k_me.decl_env.binding_hash && key == &k_str && pe == &k_slot && ops == &rjs_hash_size_ops && (!g_hit || s_rem)); s_ins ++; k_slot = e; }
void k_hr (RJS_Hash *h, RJS_HashEntry **pe, void *data) { CHECK("the found entry", g_hit && pe == &k_slot); s_rem ++; }
RJS_Result k_key (RJS_Runtime *rt, RJS_Value *v) { CHECK("the name", *rjs_value_get_pointer(rt, v) == k_n); return RJS_OK; }
void *k_realloc (RJS_Runtime *rt, void *p, size_t os, size_t ns)
{ size_t i; CHECK("the vector grows", p == k_items && os == g_num * sizeof(void*) && ns <= sizeof k_items2 && ns > os); for (i = 0; i < 3; i ++) if (i < g_num) k_items2[i] = k_items[i]; return k_items2; }
void *k_alloc (RJS_Runtime *rt, size_t n) { return &k_ib; }
void k_free (RJS_Runtime *rt, void *p, size_t n) { CHECK("the replaced binding is released after removal", s_rem == 1 && p == &k_b[g_m]); s_free ++; }
RJS_Result k_other (RJS_Runtime *rt, RJS_Environment *env, RJS_BindingName *n, RJS_Bool strict, RJS_Value *v)
{ CHECK("the exporting module's own binding is read", env == &k_oenv && n == &k_ib.bn && strict); s_other ++; *rjs_value_get_pointer(rt, v) = k_v; return RJS_OK; }
#endif
static RJS_Value anyv(int in) { uint64_t x = IN64(in); int k = (int)IN_RANGE(in + 1, 0, 2); if (k == 0) return VF_UNDEF; if (k == 1) return VF_NULL; ASSUME(vf_num_ok(x)); return x; }
static RJS_Runtime *world(void)
{
    RJS_Runtime *rt = vf_rt(); int i;
#ifdef VF_NATIVE
    vf_skip();
#endif
    s_kind = s_ins = s_rem = s_free = s_hl = s_other = 0;
    k_env = &k_me.decl_env.env; k_n = vf_new_thing(RJS_VALUE_TAG_STRING, &k_str); k_bn.name = &k_n; k_bn.env_idx = (uint16_t)IN_RANGE(0, 0, 0xffff); k_bn.binding_idx = 0xffff;
    k_modv = vf_new_thing(RJS_VALUE_TAG_GC_THING, &k_mod); k_v = anyv(20); k_n2 = anyv(22); k_out = VF_NULL;
    k_env->gc_thing.ops = (RJS_GcThingOps*)&module_env_ops;
    g_num = IN_RANGE(1, 0, 3);
    for (i = 0; i < 3; i ++) { k_b[i].b.idx = (uint16_t)i; k_items[i] = &k_b[i].b; k_b[i].b.flags = (uint16_t)IN_RANGE(5 + i, 0, 15); k_b[i].value = anyv(10 + 2 * i); }
    k_me.decl_env.binding_vec.items = k_items; k_me.decl_env.binding_vec.item_num = g_num; k_me.decl_env.binding_vec.item_cap = g_num;
    k_env->cache_enable = (RJS_Bool)IN_RANGE(3, 0, 1);
    g_m = (int)IN_RANGE(2, 0, 2); g_hit = (int)IN_RANGE(4, 0, 1); g_isimport = 0;
    ASSUME((size_t)g_m < g_num || !g_hit); g_flags = k_b[g_m].b.flags;
    return rt;
}
//@unit name=lookup fns=rjs_decl_env_lookup_binding
void h_lookup(void)
{
    RJS_Runtime *rt = world(); RJS_Binding *b = NULL; RJS_Result r; RJS_HashEntry **pe; int want = (int)IN_RANGE(8, 0, 1);
    /* a cached index is the index of the binding of that name */
    if (IN_RANGE(9, 0, 1)) { ASSUME(g_hit); k_bn.binding_idx = k_b[g_m].b.idx; }
    r = rjs_decl_env_lookup_binding(rt, k_env, &k_bn, &b, want ? &pe : NULL);
    CHECK("found exactly if the name is bound, and it is that binding", r == (g_hit ? RJS_TRUE : RJS_FALSE) && (!g_hit || b == &k_b[g_m].b));
    CHECK("the position in the table is returned if asked", !want || (s_hl == 1 && pe == &k_slot));
    CHECK("a cached index is the index of the binding of that name", k_bn.binding_idx == 0xffff || (g_hit && k_bn.binding_idx == k_b[g_m].b.idx));
    REACH();
}
//@unit name=add fns=rjs_decl_env_add_binding
void h_add(void)
{
    RJS_Runtime *rt = world(); size_t i; ASSUME(!g_hit); k_slot = NULL;
    k_b[3].b.idx = 77; k_b[3].b.flags = 5;
    rjs_decl_env_add_binding(rt, k_env, &k_bn, &k_b[3].b, &k_slot);
    CHECK("inserted in the table", s_ins == 1 && k_slot == &k_b[3].b.he && k_b[3].b.flags == 5);
    for (i = 0; i < 3; i ++) if (i < g_num) CHECK("the earlier bindings keep their indices", k_me.decl_env.binding_vec.items[i] == &k_b[i].b && k_b[i].b.idx == i);
    if (k_env->cache_enable) CHECK("the new index denotes the new binding", k_me.decl_env.binding_vec.item_num == g_num + 1 && k_b[3].b.idx == g_num && k_me.decl_env.binding_vec.items[g_num] == &k_b[3].b);
    REACH();
}
//@unit name=import fns=rjs_env_create_import_binding
void h_import(void)
{
    RJS_Runtime *rt = world(); RJS_Result r; k_env->cache_enable = 0;
    g_isimport = (int)IN_RANGE(8, 0, 1); k_ib.b.flags = RJS_BINDING_FL_IMPORT|RJS_BINDING_FL_INITIALIZED|RJS_BINDING_FL_IMMUTABLE;
    ASSUME(!g_isimport || g_hit);
    r = rjs_env_create_import_binding(rt, k_env, &k_n, &k_modv, &k_n2);
    CHECK("one immutable initialised import binding of that name", r == RJS_OK && k_ib.b.flags == (RJS_BINDING_FL_IMPORT|RJS_BINDING_FL_INITIALIZED|RJS_BINDING_FL_IMMUTABLE));
    CHECK("target", k_ib.module == k_modv && k_ib.name == k_n2 && k_ib.bn.name == &k_ib.name || g_isimport);
    CHECK("replaces a value binding, updates an import", s_ins == !g_isimport && s_rem == (g_hit && !g_isimport) && s_free == s_rem && (g_isimport || k_slot == &k_ib.b.he));
    REACH();
}
//@unit name=module_get fns=module_env_op_get_binding_value
void h_module_get(void)
{
    RJS_Runtime *rt = world(); RJS_Result r; int noenv = (int)IN_RANGE(9, 0, 1); ASSUME(g_hit); k_env->cache_enable = 0;
    g_isimport = (int)IN_RANGE(8, 0, 1); k_ib.b.flags = RJS_BINDING_FL_IMPORT|RJS_BINDING_FL_INITIALIZED|RJS_BINDING_FL_IMMUTABLE; k_ib.module = k_modv; k_mod.env = noenv ? NULL : &k_oenv;
    r = module_env_op_get_binding_value(rt, k_env, &k_bn, 1, &k_out);
    if (g_isimport && noenv) CHECK("not linked yet: ReferenceError", r == RJS_ERR && s_kind == 1);
    else if (g_isimport) CHECK("an import reads the exporter's binding", r == RJS_OK && s_other == 1 && k_out == k_v);
    else if (!(g_flags & RJS_BINDING_FL_INITIALIZED)) CHECK("uninitialised: ReferenceError", r == RJS_ERR && s_kind == 1);
    else CHECK("the value last assigned", r == RJS_OK && k_out == k_b[g_m].value);
    CHECK("nothing changes", k_b[g_m].b.flags == g_flags);
    REACH();
}
static RJS_Runtime *fworld(void)
{
    RJS_Runtime *rt = world();
    k_fe.this_status = IN_RANGE(30, 0, 1) ? RJS_THIS_STATUS_INITIALIZED : RJS_THIS_STATUS_UNINITIALIZED; k_fe.this_value = anyv(31);
    k_fe.decl_env.env.gc_thing.ops = (RJS_GcThingOps*)&function_env_ops;
    return rt;
}
//@unit name=bind_this fns=rjs_env_bind_this_value
void h_bind_this(void)
{
    RJS_Runtime *rt = fworld(); int st = k_fe.this_status; RJS_Value o = k_fe.this_value; RJS_Result r = rjs_env_bind_this_value(rt, &k_fe.decl_env.env, &k_v);
    if (st == RJS_THIS_STATUS_INITIALIZED) CHECK("this is bound once", r == RJS_ERR && s_kind == 1 && k_fe.this_value == o && k_fe.this_status == st);
    else CHECK("this takes the value", r == RJS_OK && s_kind == 0 && k_fe.this_value == k_v && k_fe.this_status == RJS_THIS_STATUS_INITIALIZED);
    REACH();
}
//@unit name=get_this fns=function_env_op_get_this_binding
void h_get_this(void)
{
    RJS_Runtime *rt = fworld(); RJS_Value o = k_fe.this_value; RJS_Result r = function_env_op_get_this_binding(rt, &k_fe.decl_env.env, &k_out);
    if (k_fe.this_status == RJS_THIS_STATUS_INITIALIZED) CHECK("this", r == RJS_OK && k_out == o && k_fe.this_value == o);
    else CHECK("this before super(): ReferenceError", r == RJS_ERR && s_kind == 1);
    REACH();
}
