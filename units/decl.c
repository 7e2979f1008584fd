/* C21: declarative environment records. */
#include "vf.h"
#define rjs_throw_reference_error vf_throw_ref
#define rjs_throw_type_error vf_throw_type
#define rjs_string_to_enc_chars vf_enc
#include "lib/rjs_decl_env.c"
#undef rjs_string_to_enc_chars
#include "vf_rt.h"

//@assume the binding table stands for its map contract: one binding per name (the hash table is C19; the index cache is in the cache units)
//@assume callers establish what the specification asserts: a binding is created once and initialised once, and is read, initialised or deleted only if it exists
//@default props=C21 unwind=9 dfcc=0 calls=VF_BOX,rjs_decl_env_lookup_binding:k_lookup,rjs_decl_env_add_binding:k_add,rjs_hash_remove:k_remove,rjs_alloc_assert:k_alloc,rjs_free:k_free,rjs_env_create_mutable_binding:k_cmb,rjs_env_initialize_binding:k_ib
static RJS_DeclEnv k_de; static RJS_Environment *k_env; static RJS_ValueBinding k_vb, k_new, *k_p; static RJS_String k_str; static RJS_Value k_n, k_v, k_out, g_val0; static RJS_BindingName k_bn;
static int g_present, g_flags, s_kind, s_added, s_removed, s_freed, s_cmb, s_ib;
#define D RJS_BINDING_FL_DELETABLE
#define I RJS_BINDING_FL_INITIALIZED
#define M RJS_BINDING_FL_IMMUTABLE
#define S RJS_BINDING_FL_STRICT
RJS_Result vf_throw_ref (RJS_Runtime *rt, const char *m, ...) { s_kind |= 1; return RJS_ERR; }
RJS_Result vf_throw_type (RJS_Runtime *rt, const char *m, ...) { s_kind |= 2; return RJS_ERR; }
const char *vf_enc (RJS_Runtime *rt, RJS_Value *v, RJS_CharBuffer *cb, const char *enc) { return ""; }
#ifndef VF_NATIVE
static RJS_HashEntry *k_slot;
RJS_Result k_lookup (RJS_Runtime *rt, RJS_Environment *env, RJS_BindingName *bn, RJS_Binding **b, RJS_HashEntry ***pe)
{
    CHECK("the binding of that name in that environment", env == k_env && bn == &k_bn);
    if (g_present) *b = &k_vb.b;
    k_slot = &k_vb.b.he;
    if (pe) *pe = &k_slot;
    return g_present ? RJS_TRUE : RJS_FALSE;
}
void k_add (RJS_Runtime *rt, RJS_Environment *env, RJS_BindingName *bn, RJS_Binding *b, RJS_HashEntry **pe)
{ CHECK("the new binding is added under its name", env == k_env && bn == &k_bn && b == &k_new.b && pe == &k_slot && !g_present); s_added ++; }
void k_remove (RJS_Hash *h, RJS_HashEntry **pe, void *data) { CHECK("removed from its table", h == &k_de.binding_hash && pe == &k_slot); s_removed ++; }
void *k_alloc (RJS_Runtime *rt, size_t n) { CHECK("size", n >= sizeof k_new); return &k_new; }
void k_free (RJS_Runtime *rt, void *p, size_t n) { CHECK("freed after removal", p == &k_vb && s_removed == 1); s_freed ++; }
RJS_Result k_cmb (RJS_Runtime *rt, RJS_Environment *env, RJS_BindingName *n, RJS_Bool del) { CHECK("created deletable", env == k_env && n == &k_bn && del && s_ib == 0); s_cmb ++; return RJS_OK; }
RJS_Result k_ib (RJS_Runtime *rt, RJS_Environment *env, RJS_BindingName *n, RJS_Value *v) { CHECK("initialised after creation", env == k_env && n == &k_bn && v == &k_v && s_cmb == 1); s_ib ++; return RJS_OK; }
#define NOW() (&k_vb)
#define NEWB() (s_added == 1 ? &k_new : NULL)
#else
static RJS_ValueBinding *NOW(void) { RJS_Binding *b; return rjs_decl_env_lookup_binding(vf_rt(), k_env, &k_bn, &b, NULL) ? (RJS_ValueBinding*)b : NULL; }
#define NEWB NOW
#endif
static RJS_Value anyv(int in) { uint64_t x = IN64(in); int k = (int)IN_RANGE(in + 1, 0, 2); if (k == 0) return VF_UNDEF; if (k == 1) return VF_NULL; ASSUME(vf_num_ok(x)); return x; }
static RJS_Runtime *world(int present)
{
    RJS_Runtime *rt = vf_rt();
    s_kind = s_added = s_removed = s_freed = s_cmb = s_ib = 0;
    g_present = present; g_flags = (int)IN_RANGE(0, 0, 15); k_v = anyv(2); k_out = VF_NULL; g_val0 = anyv(4);
    /* every binding is made by the two create functions: an immutable one is not deletable, only an immutable one is strict */
    ASSUME(!(g_flags & S) || (g_flags & M)); ASSUME(!(g_flags & M) || !(g_flags & D));
#ifndef VF_NATIVE
    k_env = &k_de.env; k_n = vf_new_thing(RJS_VALUE_TAG_STRING, &k_str); k_bn.name = &k_n;
    k_vb.b.flags = (uint16_t)g_flags; k_vb.value = g_val0; k_p = &k_vb;
#else
    rjs_decl_env_new(rt, &k_env, NULL, NULL); rjs_string_from_chars(rt, &k_n, "x", -1);
    rjs_binding_name_init(rt, &k_bn, &k_n);
    if (present) { rjs_decl_env_op_create_mutable_binding(rt, k_env, &k_bn, 1); k_p = NOW(); k_p->b.flags = g_flags; k_p->value = g_val0; }
#endif
    return rt;
}
/* nothing happened to an existing binding */
#define SAME() (NOW()->b.flags == g_flags && NOW()->value == g_val0)
//@unit name=create_mutable fns=rjs_decl_env_op_create_mutable_binding
void h_create_mutable(void)
{
    RJS_Runtime *rt = world(0); int del = (int)IN_RANGE(8, 0, 1); RJS_Result r = rjs_decl_env_op_create_mutable_binding(rt, k_env, &k_bn, del); RJS_ValueBinding *b = NEWB();
    CHECK("a new uninitialised mutable binding", r == RJS_OK && b && b->b.flags == (del ? D : 0)); REACH();
}
//@unit name=create_immutable fns=rjs_decl_env_op_create_immutable_binding
void h_create_immutable(void)
{
    RJS_Runtime *rt = world(0); int st = (int)IN_RANGE(8, 0, 1); RJS_Result r = rjs_decl_env_op_create_immutable_binding(rt, k_env, &k_bn, st); RJS_ValueBinding *b = NEWB();
    CHECK("a new uninitialised immutable binding, strict as asked", r == RJS_OK && b && b->b.flags == (st ? M|S : M)); REACH();
}
//@unit name=initialize fns=rjs_decl_env_op_initialize_binding
void h_initialize(void)
{
    RJS_Runtime *rt = world(1); RJS_Result r; ASSUME(!(g_flags & I));
    r = rjs_decl_env_op_initialize_binding(rt, k_env, &k_bn, &k_v);
    CHECK("initialised with the value, otherwise unchanged", r == RJS_OK && NOW()->b.flags == (g_flags | I) && NOW()->value == k_v); REACH();
}
//@unit name=set fns=rjs_decl_env_op_set_mutable_binding
void h_set(void)
{
    RJS_Runtime *rt = world((int)IN_RANGE(9, 0, 1)); int strict = (int)IN_RANGE(8, 0, 1); RJS_Result r = rjs_decl_env_op_set_mutable_binding(rt, k_env, &k_bn, &k_v, strict);
    if (!g_present) {
        if (strict) CHECK("missing, strict: ReferenceError", r == RJS_ERR && s_kind == 1 && !s_cmb && !s_ib && !s_added);
        else {
#ifndef VF_NATIVE
            CHECK("missing, sloppy: created and initialised", r == RJS_OK && s_kind == 0 && s_cmb == 1 && s_ib == 1);
#else
            CHECK("missing, sloppy: created and initialised", r == RJS_OK && s_kind == 0 && NOW() && NOW()->b.flags == (D|I) && NOW()->value == k_v);
#endif
        }
    } else if (!(g_flags & I)) CHECK("uninitialised: ReferenceError, nothing changes", r == RJS_ERR && s_kind == 1 && SAME());
    else if (!(g_flags & M)) CHECK("mutable: takes the value", r == RJS_OK && s_kind == 0 && NOW()->b.flags == g_flags && NOW()->value == k_v);
    else if (strict || (g_flags & S)) CHECK("immutable: TypeError, nothing changes", r == RJS_ERR && s_kind == 2 && SAME());
    else CHECK("immutable function name in sloppy code: ignored", r == RJS_OK && s_kind == 0 && SAME());
    REACH();
}
//@unit name=get fns=rjs_decl_env_op_get_binding_value
void h_get(void)
{
    RJS_Runtime *rt = world(1); int strict = (int)IN_RANGE(8, 0, 1); RJS_Result r = rjs_decl_env_op_get_binding_value(rt, k_env, &k_bn, strict, &k_out);
    if (!(g_flags & I)) CHECK("uninitialised: ReferenceError", r == RJS_ERR && s_kind == 1 && SAME());
    else CHECK("the value last assigned", r == RJS_OK && s_kind == 0 && k_out == g_val0 && SAME());
    REACH();
}
//@unit name=has fns=rjs_decl_env_op_has_binding
void h_has(void)
{
    RJS_Runtime *rt = world((int)IN_RANGE(9, 0, 1)); RJS_Result r = rjs_decl_env_op_has_binding(rt, k_env, &k_bn);
    CHECK("present", r == (g_present ? RJS_TRUE : RJS_FALSE) && (!g_present || SAME())); REACH();
}
//@unit name=delete fns=rjs_decl_env_op_delete_binding,rjs_binding_free
void h_delete(void)
{
    RJS_Runtime *rt = world(1); RJS_Result r = rjs_decl_env_op_delete_binding(rt, k_env, &k_bn);
#ifndef VF_NATIVE
    if (g_flags & D) CHECK("removed and released", r == RJS_TRUE && s_removed == 1 && s_freed == 1);
    else CHECK("not deletable: kept", r == RJS_FALSE && s_removed == 0 && s_freed == 0 && SAME());
#else
    if (g_flags & D) CHECK("removed and released", r == RJS_TRUE && k_de.binding_hash.entry_num == 0 && !NOW());
    else CHECK("not deletable: kept", r == RJS_FALSE && SAME());
#endif
    REACH();
}
