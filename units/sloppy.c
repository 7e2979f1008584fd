/* C21: from the declaration in the source to the binding: const bindings are immutable and strict. */
#include "vf.h"
#include "lib/rjs_parser.c"
#include "lib/rjs_script.c"
#include "vf_rt.h"

//@assume lists of at most 2 declarations stand for lists of any length; parsing of the declared patterns and initialisers, and the recording of a declaration under its kind (decl_item_add), are assumed
//@assume only the lexical binding groups go through this chain; functions' byte code generation is a stub
//@default props=C21 unwind=5 dfcc=0 calls=VF_BOX
static RJS_Parser k_parser; static RJS_BcGen k_bg; static RJS_Token k_tok; static RJS_AstList k_alist; static RJS_Value k_out;
static RJS_AstDecl k_decl; static RJS_AstDeclItem k_di[2]; static RJS_AstBindingInit k_bi[2]; static RJS_AstBindingTable k_bt; static RJS_AstBindingRef k_ref[2];
static RJS_Script k_script; static RJS_ScriptBindingGroup k_grp; static RJS_ScriptBinding k_sb[2]; static RJS_ScriptBindingRef k_sbr[3], k_sbr2[3]; static RJS_ScriptDecl k_sd, k_sd2;
static RJS_Environment k_env, k_outer, k_src; static RJS_Value k_v[2];
static int s_type, s_dtype, s_lex, s_new, s_app, s_im[2], s_mu[2], s_init[2], s_getv[2], g_const, g_fail, g_bt; static RJS_AstDeclType g_dt;
static RJS_ScriptBinding k_pz[2];
#ifndef VF_NATIVE
RJS_Token *k_get(RJS_Runtime *rt) { return &k_tok; }
RJS_Bool k_isid(RJS_TokenType t, int f, RJS_IdentifierType id) { return id == RJS_IDENTIFIER_const ? g_const == 1 : id == RJS_IDENTIFIER_let ? g_const == 0 : RJS_FALSE; }
RJS_Result k_pdl(RJS_Runtime *rt, RJS_AstType type, RJS_Value *vs, RJS_Bool f) { s_type = type; return g_fail ? RJS_ERR : RJS_OK; }
void *k_aget(RJS_Runtime *rt, RJS_Value *v) { return v == &k_out ? (void*)&k_alist : NULL; }
void k_lex(RJS_Runtime *rt, RJS_AstDeclType t, RJS_List *l) { CHECK("the declared bindings", l == &k_alist.list); s_dtype = t; s_lex ++; }
RJS_Result k_semi(RJS_Runtime *rt) { return IN_RANGE(0, 0, 1) ? RJS_OK : RJS_ERR; }
void k_err(RJS_Runtime *rt, RJS_Location *l, const char *m) {}
void *k_anew(RJS_Runtime *rt, RJS_Value *v, RJS_AstType type, RJS_Location *l) { CHECK("one initialisation per binding", type == RJS_AST_BindingInit && s_new < 2); return s_new == 0 ? (s_new ++, &k_bi[0]) : (s_new ++, &k_bi[1]); }
RJS_AstBindingTable *k_btn(RJS_Runtime *rt, RJS_Value *v, RJS_AstDecl *d) { g_bt ++; k_bt.num = 0; return &k_bt; }
void k_lapp(RJS_Runtime *rt, RJS_List *l, RJS_Value *v) { CHECK("into the table", l == &k_bt.binding_init_list); s_app ++; }
static RJS_ScriptBinding k_p0[8], k_p1[8], k_p2[8];
void *k_alloc(RJS_Runtime *rt, size_t n) { if (!n) return k_pz; CHECK("one table each", n <= sizeof k_p0 && s_new < 3); s_new ++; return s_new == 1 ? k_p0 : s_new == 2 ? k_p1 : k_p2; }
int k_m1(RJS_Runtime *rt, RJS_AstFunc *p) { return -1; }
int k_m2(RJS_Runtime *rt, RJS_AstBindingTable *p) { return -1; }
int k_m3(RJS_Runtime *rt, RJS_AstFuncTable *p) { return -1; }
int k_m4(RJS_Runtime *rt, RJS_AstDecl *p) { return -1; }
int k_refidx(RJS_Runtime *rt, RJS_AstBindingRef *p) { return p == &k_ref[1] ? 1 : 0; }
void k_fill(RJS_Runtime *rt, RJS_Value *v, size_t n) {}
RJS_Environment *k_lexenv(RJS_Runtime *rt) { return &k_env; }
static int which(RJS_BindingName *n) { return n == &k_sbr[1].binding_name ? 0 : n == &k_sbr[2].binding_name ? 1 : -1; }
RJS_Result k_im(RJS_Runtime *rt, RJS_Environment *e, RJS_BindingName *n, RJS_Bool strict) { int i = which(n); CHECK("in the environment", e == &k_env && i >= 0); s_im[i ? 1 : 0] = strict ? 2 : 1; return RJS_OK; }
RJS_Result k_mu(RJS_Runtime *rt, RJS_Environment *e, RJS_BindingName *n, RJS_Bool del) { int i = which(n); CHECK("in the environment, not deletable", e == &k_env && i >= 0 && !del); s_mu[i ? 1 : 0] ++; return RJS_OK; }
RJS_Result k_ini(RJS_Runtime *rt, RJS_Environment *e, RJS_BindingName *n, RJS_Value *v)
{
    int i = which(n), j = i ? 1 : 0; RJS_Value x = *rjs_value_get_pointer(rt, v);
    CHECK("initialised once, after its creation", e == &k_env && i >= 0 && s_im[j] + s_mu[j] > 0 && !s_init[j]); s_init[j] = s_getv[j] ? (x == k_v[j] ? 2 : 9) : x == VF_UNDEF ? 1 : 9; return RJS_OK;
}
RJS_Result k_getb(RJS_Runtime *rt, RJS_Environment *e, RJS_BindingName *n, RJS_Bool strict, RJS_Value *v)
{
    int i = n == &k_sbr2[1].binding_name || n == &k_sbr[1].binding_name ? 0 : n == &k_sbr2[2].binding_name || n == &k_sbr[2].binding_name ? 1 : -1;
    CHECK("the source's binding", i >= 0 && (e == &k_outer ? (n == &k_sbr2[1].binding_name || n == &k_sbr2[2].binding_name) : e == &k_src && which(n) >= 0));
    s_getv[i ? 1 : 0] ++; if (g_fail) return RJS_ERR; *rjs_value_get_pointer(rt, v) = k_v[i ? 1 : 0]; return RJS_OK;
}
#endif
static RJS_Runtime *world(void)
{
    RJS_Runtime *rt = vf_rt(); int i;
#ifdef VF_NATIVE
    vf_skip();
#endif
    s_type = s_dtype = -1; s_lex = s_new = s_app = g_bt = 0; g_fail = (int)IN_RANGE(30, 0, 1);
    rt->parser = &k_parser; k_parser.code_gen = &k_bg; k_out = VF_UNDEF; s_im[0] = s_im[1] = s_mu[0] = s_mu[1] = s_init[0] = s_init[1] = s_getv[0] = s_getv[1] = 0;
    rjs_list_init(&k_alist.list);
    for (i = 0; i < 2; i ++) k_v[i] = IN_RANGE(32 + i, 0, 1) ? VF_NULL : (((RJS_Value)RJS_VALUE_TAG_BOOLEAN) << 48) + 1;
    return rt;
}
//@unit name=lexdecl fns=parse_lexical_decl,binding_init_table,binding_init_table_param_check calls=VF_BOX,get_token:k_get,token_is_identifier:k_isid,parse_decl_list:k_pdl,ast_get:k_aget,binding_element_list_lex:k_lex,auto_semicolon:k_semi,parse_unexpect_error:k_err,ast_new:k_anew,binding_table_new:k_btn,ast_list_append:k_lapp
void h_lexdecl(void)
{
    RJS_Runtime *rt = world(); RJS_Result r; int num = (int)IN_RANGE(8, 1, 2), m = (int)IN_RANGE(9, 0, 1), i, f;
    g_const = (int)IN_RANGE(10, 0, 1);
    r = parse_lexical_decl(rt, &k_out);
    CHECK("a declaration list of its kind", s_type == (g_const ? RJS_AST_ConstDecl : RJS_AST_LetDecl));
    CHECK("the bindings are declared", s_lex == (g_fail ? 0 : 1) && (r == RJS_OK || r == RJS_ERR) && (!g_fail || r == RJS_ERR));
    if (s_lex) {
        /* the recorded declaration becomes a binding of the block */
        rjs_list_init(&k_decl.item_list); k_bt.num = 0; rjs_list_init(&k_bt.binding_init_list);
        for (i = 0; i < num; i ++) {
            k_di[i].type = i == (m < num ? m : 0) ? (RJS_AstDeclType)s_dtype : IN_RANGE(12, 0, 1) ? RJS_AST_DECL_LET : RJS_AST_DECL_CLASS;
            k_di[i].binding_ref = &k_ref[i]; rjs_list_append(&k_decl.item_list, &k_di[i].ast.ln);
        }
        f = (int)IN_RANGE(11, 0, 1) ? BINDING_INIT_FL_LEX|BINDING_INIT_FL_FUNC : BINDING_INIT_FL_LEX;
        k_out = VF_UNDEF; binding_init_table(rt, &k_out, &k_decl, f);
        m = m < num ? m : 0;
        CHECK("every binding once", s_new == num && s_app == num && k_bt.num == num && g_bt == 1 && k_bi[0].binding_ref == &k_ref[0]);
        CHECK("a const binding is immutable and strict", !g_const || (k_bi[m].flags & (RJS_AST_BINDING_INIT_IMMUT|RJS_AST_BINDING_INIT_STRICT)) == (RJS_AST_BINDING_INIT_IMMUT|RJS_AST_BINDING_INIT_STRICT));
        CHECK("a let binding is mutable", g_const || !(k_bi[m].flags & RJS_AST_BINDING_INIT_IMMUT));
        CHECK("the other bindings are mutable", num == 1 || !(k_bi[1 - m].flags & RJS_AST_BINDING_INIT_IMMUT));
        CHECK("not initialised with undefined", !(k_bi[m].flags & (RJS_AST_BINDING_INIT_UNDEF|RJS_AST_BINDING_INIT_BOT)));
    }
    REACH();
}
//@unit name=genbind fns=gen_script_internal calls=VF_BOX,rjs_code_gen_func_idx:k_m1,rjs_code_gen_binding_table_idx:k_m2,rjs_code_gen_func_table_idx:k_m3,rjs_code_gen_decl_idx:k_m4,rjs_code_gen_binding_ref_idx:k_refidx,rjs_alloc_assert:k_alloc,rjs_value_buffer_fill_undefined:k_fill
void h_genbind(void)
{
    RJS_Runtime *rt = world(); RJS_Result r; int i, fl[2], num = (int)IN_RANGE(8, 1, 2);
    rjs_list_init(&k_parser.func_list); rjs_list_init(&k_parser.func_table_list); rjs_list_init(&k_parser.decl_list); rjs_list_init(&k_parser.value_entry_list); rjs_list_init(&k_parser.prop_ref_list);
    rjs_list_init(&k_parser.priv_env_list); rjs_list_init(&k_parser.binding_table_list);
    k_parser.func_num = k_parser.func_table_num = k_parser.decl_num = k_parser.value_entry_num = k_parser.prop_ref_num = k_parser.binding_table_num = k_parser.priv_id_num = 0; k_bg.bc.item_num = k_bg.li.item_num = 0; k_bg.bc.items = (void*)k_pz; k_bg.li.items = (void*)k_pz;
    k_parser.binding_table_num = 0; k_bt.id = 0; k_bt.num = num; rjs_list_append(&k_parser.binding_table_list, &k_bt.ast.ln); rjs_list_init(&k_bt.binding_init_list);
    k_script.binding_num = k_script.binding_ref_num = k_script.func_decl_num = 0; k_script.binding_group_table = &k_grp;
    k_parser.binding_table_num = 1;
    for (i = 0; i < num; i ++) { fl[i] = (int)IN_RANGE(20 + i, 0, 15); k_bi[i].flags = fl[i]; k_bi[i].binding_ref = &k_ref[i]; k_bi[i].bot_binding_ref = &k_ref[1 - i]; k_bi[i].param_index = -1; rjs_list_append(&k_bt.binding_init_list, &k_bi[i].ast.ln); }
    r = gen_script_internal(rt, &k_script);
    CHECK("the bindings of the script", r == RJS_OK && k_script.binding_num == num);
    for (i = 0; i < num; i ++) {
        CHECK("the binding's name", k_script.binding_table[i].ref_idx == i);
        CHECK("immutable as declared", !(k_script.binding_table[i].flags & RJS_SCRIPT_BINDING_FL_CONST) == !(fl[i] & RJS_AST_BINDING_INIT_IMMUT));
        CHECK("strict as declared", !(k_script.binding_table[i].flags & RJS_SCRIPT_BINDING_FL_STRICT) == !(fl[i] & RJS_AST_BINDING_INIT_STRICT));
        CHECK("initialised as declared", !(k_script.binding_table[i].flags & RJS_SCRIPT_BINDING_FL_UNDEF) == !(fl[i] & RJS_AST_BINDING_INIT_UNDEF) && !(k_script.binding_table[i].flags & RJS_SCRIPT_BINDING_FL_BOT) == !(fl[i] & RJS_AST_BINDING_INIT_BOT));
    }
    REACH();
}
static int script_world(void)
{
    int i, num = (int)IN_RANGE(8, 0, 2);
    k_env.script_decl = &k_sd; k_env.outer = &k_outer; k_outer.script_decl = &k_sd2; k_src.script_decl = &k_sd; k_sd.binding_ref_start = 1; k_sd2.binding_ref_start = 4;
    k_script.binding_table = k_sb; k_script.binding_ref_table = k_sbr; k_grp.binding_start = 0; k_grp.binding_num = num;
    for (i = 0; i < 2; i ++) { k_sb[i].flags = IN_RANGE(20 + i, 0, 15); k_sb[i].ref_idx = i; k_sb[i].bot_ref_idx = i; }
    return num;
}
//@unit name=grpinit fns=rjs_script_binding_group_init calls=VF_BOX,rjs_lex_env_running:k_lexenv,rjs_env_create_immutable_binding:k_im,rjs_env_create_mutable_binding:k_mu,rjs_env_initialize_binding:k_ini,rjs_env_get_binding_value:k_getb
void h_grpinit(void)
{
    RJS_Runtime *rt = world(); RJS_Result r; int i, num = script_world(); size_t top = rjs_value_stack_save(rt);
    /* no inherited parameter here */
    g_fail = 0;
    for (i = 0; i < 2; i ++) ASSUME(!(k_sb[i].flags & RJS_SCRIPT_BINDING_FL_BOT));
    r = rjs_script_binding_group_init(rt, &k_script, &k_grp);
    CHECK("all created", r == RJS_OK && rjs_value_stack_save(rt) == top);
    for (i = 0; i < num; i ++) {
        CHECK("an immutable binding is created immutable, strict if the declaration is", (k_sb[i].flags & RJS_SCRIPT_BINDING_FL_CONST) ? s_im[i] == ((k_sb[i].flags & RJS_SCRIPT_BINDING_FL_STRICT) ? 2 : 1) && s_mu[i] == 0 : s_im[i] == 0 && s_mu[i] == 1);
        CHECK("initialised with undefined only if declared so", s_init[i] == ((k_sb[i].flags & RJS_SCRIPT_BINDING_FL_UNDEF) ? 1 : 0));
    }
    for (i = num; i < 2; i ++) CHECK("no other binding", s_im[i] + s_mu[i] + s_init[i] == 0);
    REACH();
}
//@unit name=grpdup fns=rjs_script_binding_group_dup calls=VF_BOX,rjs_env_create_immutable_binding:k_im,rjs_env_create_mutable_binding:k_mu,rjs_env_initialize_binding:k_ini,rjs_env_get_binding_value:k_getb
void h_grpdup(void)
{
    RJS_Runtime *rt = world(); RJS_Result r; int i, num = script_world(), isnull = (int)IN_RANGE(9, 0, 1); size_t top = rjs_value_stack_save(rt);
    r = rjs_script_binding_group_dup(rt, &k_script, isnull ? NULL : &k_grp, &k_env, &k_src);
    if (isnull) num = 0;
    CHECK("an uninitialised binding throws", r == (g_fail && num ? RJS_ERR : RJS_OK) && rjs_value_stack_save(rt) == top);
    if (r == RJS_OK) for (i = 0; i < num; i ++) {
        CHECK("a copied immutable binding is immutable, strict if the declaration is", (k_sb[i].flags & RJS_SCRIPT_BINDING_FL_CONST) ? s_im[i] == ((k_sb[i].flags & RJS_SCRIPT_BINDING_FL_STRICT) ? 2 : 1) && s_mu[i] == 0 : s_im[i] == 0 && s_mu[i] == 1);
        CHECK("with the value of the previous iteration", s_init[i] == 2 && s_getv[i] == 1);
    }
    REACH();
}
