/* C22: promises - resolving functions, settling, reactions, jobs (ECMAScript 27.2.1, 27.2.2). */
#include "vf.h"
#define VF_THINGS 24
#include "ratjs_internal.h"
RJS_Result vf_call (RJS_Runtime *rt, RJS_Value *o, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *rv);
RJS_Bool vf_catch (RJS_Runtime *rt, RJS_Value *e);
RJS_Result vf_job (RJS_Runtime *rt, RJS_JobFunc f, RJS_Realm *realm, RJS_ScanFunc s, RJS_FreeFunc fr, void *d);
RJS_Bool vf_samev (RJS_Runtime *rt, RJS_Value *a, RJS_Value *b);
RJS_Result vf_terr (RJS_Runtime *rt, RJS_Value *e, const char *m, ...);
RJS_Result vf_get (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_Value *v);
RJS_Bool vf_callable (RJS_Runtime *rt, RJS_Value *v);
RJS_Bool vf_constructor (RJS_Runtime *rt, RJS_Value *v);
RJS_Realm *vf_frealm (RJS_Runtime *rt, RJS_Value *f);
void *vf_data (RJS_Runtime *rt, RJS_Value *f);
RJS_Result vf_setdata (RJS_Runtime *rt, RJS_Value *f, const void *tag, void *d, RJS_ScanFunc s, RJS_FreeFunc fr);
RJS_Result vf_mkfn (RJS_Runtime *rt, RJS_Value *mod, RJS_NativeFunc nf, size_t len, RJS_Value *name, RJS_Realm *realm, RJS_Value *proto, RJS_Value *prefix, RJS_Value *f);
RJS_Result vf_init (RJS_Runtime *rt, RJS_Object *o, RJS_Value *nt, int d, const RJS_ObjectOps *ops, RJS_Value *v);
RJS_Result vf_throw (RJS_Runtime *rt, const char *m, ...);
RJS_Result vf_construct (RJS_Runtime *rt, RJS_Value *c, RJS_Value *args, size_t argc, RJS_Value *target, RJS_Value *o);
RJS_Result vf_invoke (RJS_Runtime *rt, RJS_Value *v, RJS_PropertyName *pn, RJS_Value *args, size_t argc, RJS_Value *rv);
#define rjs_call vf_call
#define rjs_catch vf_catch
#define rjs_job_enqueue vf_job
#define rjs_same_value vf_samev
#define rjs_type_error_new vf_terr
#define rjs_get vf_get
#define rjs_is_callable vf_callable
#define rjs_is_constructor vf_constructor
#define rjs_get_function_realm vf_frealm
#define rjs_native_object_get_data vf_data
#define rjs_native_object_set_data vf_setdata
#define rjs_create_native_function vf_mkfn
#define rjs_ordinary_init_from_constructor vf_init
#define rjs_throw_type_error vf_throw
#define rjs_construct vf_construct
#define rjs_invoke vf_invoke
#include "lib/rjs_promise.c"
#undef rjs_call
#undef rjs_catch
#undef rjs_job_enqueue
#undef rjs_same_value
#undef rjs_type_error_new
#undef rjs_get
#undef rjs_is_callable
#undef rjs_is_constructor
#undef rjs_get_function_realm
#undef rjs_native_object_get_data
#undef rjs_native_object_set_data
#undef rjs_create_native_function
#undef rjs_ordinary_init_from_constructor
#undef rjs_throw_type_error
#undef rjs_construct
#undef rjs_invoke
#include "vf_rt.h"
//@assume calls of user functions, property reads, SameValue and IsCallable are stubs with arbitrary answers; jobs are recorded, not run (their order is C33)
//@default props=C22 unwind=13 dfcc=0 calls=VF_BOX,VF_DIR,rjs_alloc_assert:vf_alloc,rjs_free:vf_free,rjs_realm_current:vf_realm flags="--object-bits 12"
#define NR 8
static RJS_Promise PO, PO2; static RJS_PromiseReaction rxs[NR]; static RJS_PromiseReactionParams rps[NR]; static union { RJS_PromiseThenParams t; RJS_PromiseStatus s; } p24[4]; static RJS_PromiseCapabilityData pcds[2];
static int lrx[NR], lrp[NR], l24[4], lpcd[2], lpo;
static RJS_Realm realm, realm2; static RJS_Object OB[8], FN[8]; static RJS_ObjectOps o_ops; static RJS_PromiseStatus PS;
static RJS_Value v_p, v_p2, v_ob[8], v_fn[8], g_res, g_rv, g_f, g_thiz, g_nt, v_err, v_terr;
static struct { int get, call, call2, then, fr, kind, mk, init, thrown; RJS_Value ret; } Q;
static struct { int calls, catches, gets, jobs, terrs, throws, made, datas, constructs, invokes; struct { RJS_JobFunc f; RJS_Realm *r; RJS_ScanFunc s; RJS_FreeFunc fr; void *d; } j[6];
  struct { RJS_Value f, self, a, b; int argc, r; } c[4]; RJS_NativeFunc nf[4]; void *dat[4]; RJS_FreeFunc dfree[4]; RJS_ScanFunc dscan[4]; } S;
static RJS_Value rd(RJS_Runtime *rt, RJS_Value *v) { return *rjs_value_get_pointer(rt, v); }
static int isfn(RJS_Value v) { int i; for (i = 0; i < 8; i ++) if (v == v_fn[i]) return 1; return 0; }

#ifndef VF_NATIVE
RJS_Realm *vf_realm (RJS_Runtime *rt) { return &realm; }
void *vf_alloc (RJS_Runtime *rt, size_t n)
{
    int i;
    if (n == sizeof(RJS_PromiseReaction)) { for (i = 0; i < NR; i ++) if (!lrx[i]) { lrx[i] = 1; return &rxs[i]; } }
    else if (n == sizeof(RJS_PromiseReactionParams)) { for (i = 0; i < NR; i ++) if (!lrp[i]) { lrp[i] = 1; return &rps[i]; } }
    else if (n == sizeof(RJS_PromiseThenParams)) { for (i = 0; i < 4; i ++) if (!l24[i]) { l24[i] = 1; return &p24[i]; } }
    else if (n == sizeof(RJS_PromiseCapabilityData)) { for (i = 0; i < 2; i ++) if (!lpcd[i]) { lpcd[i] = 1; return &pcds[i]; } }
    else if (n == sizeof(RJS_Promise)) { lpo ++; return &PO2; }
    __CPROVER_assert(0, "vf: pool"); return NULL;
}
void vf_free (RJS_Runtime *rt, void *p, size_t n)
{
    int i;
    for (i = 0; i < NR; i ++) if (p == &rxs[i]) { CHECK("a reaction is freed once", lrx[i] && n == sizeof(RJS_PromiseReaction)); lrx[i] = 0; return; }
    for (i = 0; i < NR; i ++) if (p == &rps[i]) { CHECK("a job's data is freed once", lrp[i]); lrp[i] = 0; return; }
    for (i = 0; i < 4; i ++) if (p == &p24[i]) { CHECK("a status is freed once", l24[i]); l24[i] = 0; return; }
    for (i = 0; i < 2; i ++) if (p == &pcds[i]) { CHECK("freed once", lpcd[i]); lpcd[i] = 0; return; }
    if (p == &PO2) { CHECK("freed once", lpo == 1); lpo = 0; return; }
    CHECK("only what was allocated is freed", 0);
}
#define NEW(T) vf_alloc(rt, sizeof(T))
#define CURREALM &realm
static int live_rx(void) { int i, n = 0; for (i = 0; i < NR; i ++) n += lrx[i]; return n; }
#else
#define NEW(T) rjs_alloc_assert(rt, sizeof(T))
#define CURREALM rjs_realm_current(rt)
static int live_rx(void) { return -1; }
#endif
static RJS_Promise *g_new; static RJS_Value v_new;
RJS_Result vf_call (RJS_Runtime *rt, RJS_Value *o, RJS_Value *thiz, RJS_Value *args, size_t argc, RJS_Value *rv)
{
    int i = S.calls;
    CHECK("few calls", i < 4);
    S.c[i].f = rd(rt, o); S.c[i].self = rd(rt, thiz); S.c[i].argc = (int)argc; S.c[i].a = argc > 0 ? rd(rt, args) : VF_UNDEF; S.c[i].b = argc > 1 ? rd(rt, rjs_value_buffer_item(rt, args, 1)) : VF_UNDEF;
    S.calls ++;
    if (rv) *rjs_value_get_pointer(rt, rv) = Q.ret;
    return S.c[i].r = i == 0 ? Q.call : Q.call2;
}
RJS_Bool vf_catch (RJS_Runtime *rt, RJS_Value *e) { S.catches ++; *rjs_value_get_pointer(rt, e) = v_err; return RJS_TRUE; }
RJS_Result vf_job (RJS_Runtime *rt, RJS_JobFunc f, RJS_Realm *r, RJS_ScanFunc s, RJS_FreeFunc fr, void *d)
{ CHECK("few jobs", S.jobs < 6); S.j[S.jobs].f = f; S.j[S.jobs].r = r; S.j[S.jobs].s = s; S.j[S.jobs].fr = fr; S.j[S.jobs].d = d; S.jobs ++; return RJS_OK; }
RJS_Bool vf_samev (RJS_Runtime *rt, RJS_Value *a, RJS_Value *b) { return rd(rt, a) == rd(rt, b); }
RJS_Result vf_terr (RJS_Runtime *rt, RJS_Value *e, const char *m, ...) { S.terrs ++; *rjs_value_get_pointer(rt, e) = v_terr; return RJS_OK; }
static int g_rs;
RJS_Result vf_get (RJS_Runtime *rt, RJS_Value *o, RJS_PropertyName *pn, RJS_Value *v)
{ S.gets ++; if (g_rs) CHECK("while user code reads the resolution's then, the promise already counts as resolved", PS.resolved); CHECK("the property read is \"then\" (or \"constructor\") of the resolution", rd(rt, o) == g_res && (pn == rjs_pn_then(rt) || pn == rjs_pn_constructor(rt))); if (Q.get == RJS_OK) *rjs_value_get_pointer(rt, v) = Q.then ? v_fn[0] : v_ob[3]; return Q.get; }
RJS_Bool vf_callable (RJS_Runtime *rt, RJS_Value *v) { return isfn(rd(rt, v)); }
RJS_Bool vf_constructor (RJS_Runtime *rt, RJS_Value *v) { return isfn(rd(rt, v)); }
RJS_Realm *vf_frealm (RJS_Runtime *rt, RJS_Value *f) { return Q.fr ? &realm2 : NULL; }
void *vf_data (RJS_Runtime *rt, RJS_Value *f) { return rd(rt, f) == g_f ? (void*)&PS : S.dat[0]; }
RJS_Result vf_mkfn (RJS_Runtime *rt, RJS_Value *mod, RJS_NativeFunc nf, size_t len, RJS_Value *name, RJS_Realm *r, RJS_Value *proto, RJS_Value *prefix, RJS_Value *f)
{ CHECK("few functions", S.made < 4); S.nf[S.made] = nf; *rjs_value_get_pointer(rt, f) = v_fn[4 + S.made]; S.made ++; return RJS_OK; }
RJS_Result vf_setdata (RJS_Runtime *rt, RJS_Value *f, const void *tag, void *d, RJS_ScanFunc s, RJS_FreeFunc fr)
{ int i; for (i = 0; i < 4; i ++) if (rd(rt, f) == v_fn[4 + i] && i < S.made) { S.dat[i] = d; S.dscan[i] = s; S.dfree[i] = fr; S.datas ++; } return RJS_OK; }
RJS_Result vf_init (RJS_Runtime *rt, RJS_Object *o, RJS_Value *nt, int d, const RJS_ObjectOps *ops, RJS_Value *v)
{ CHECK("a promise object of the right kind", d == RJS_O_Promise_prototype && ops == &promise_ops && rd(rt, nt) == g_nt); g_new = (RJS_Promise*)o; if (Q.init == RJS_OK) *rjs_value_get_pointer(rt, v) = v_new = vf_new_thing(RJS_VALUE_TAG_OBJECT, o); return Q.init; }
RJS_Result vf_throw (RJS_Runtime *rt, const char *m, ...) { S.throws ++; return RJS_ERR; }
/* the constructor calls the executor as often as it likes; the values it passes are functions or not */
static struct { int n, ok; RJS_Value r0, j0; } K;
RJS_Result vf_construct (RJS_Runtime *rt, RJS_Value *c, RJS_Value *args, size_t argc, RJS_Value *target, RJS_Value *o)
{
    RJS_Value *a; int i; size_t top = rjs_value_stack_save(rt);
    S.constructs ++; CHECK("the constructor is called with the executor", rd(rt, c) == g_res && argc == 1 && rd(rt, args) == v_fn[4] && S.datas == 1);
    for (i = 0; i < K.n; i ++) {
        a = rjs_value_stack_push_n(rt, 2);
        *rjs_value_get_pointer(rt, a) = K.r0; *rjs_value_get_pointer(rt, rjs_value_buffer_item(rt, a, 1)) = K.j0;
        if (promise_capalibity_new_nf(rt, args, &g_thiz, a, 2, NULL, &g_rv) == RJS_ERR) { rjs_value_stack_restore(rt, top); return RJS_ERR; }
    }
    rjs_value_stack_restore(rt, top);
    *rjs_value_get_pointer(rt, o) = v_p2;
    return Q.call;
}
RJS_Result vf_invoke (RJS_Runtime *rt, RJS_Value *v, RJS_PropertyName *pn, RJS_Value *args, size_t argc, RJS_Value *rv) { S.invokes ++; return RJS_OK; }

static RJS_Runtime *world(void)
{
    RJS_Runtime *rt = vf_rt(); int i;
    memset(&S, 0, sizeof S); g_rs = 0;
    for (i = 0; i < 4; i ++) { S.nf[i] = NULL; S.dat[i] = NULL; }
    for (i = 0; i < NR; i ++) lrx[i] = lrp[i] = 0;
    for (i = 0; i < 4; i ++) l24[i] = 0;
    lpcd[0] = lpcd[1] = lpo = 0;
    o_ops.gc_thing_ops.type = RJS_GC_THING_OBJECT;
    PO.object.gc_thing.ops = PO2.object.gc_thing.ops = (RJS_GcThingOps*)&promise_ops;
    v_p = vf_new_thing(RJS_VALUE_TAG_OBJECT, &PO); v_p2 = vf_new_thing(RJS_VALUE_TAG_OBJECT, &PO2);
    for (i = 0; i < 8; i ++) { OB[i].gc_thing.ops = FN[i].gc_thing.ops = (RJS_GcThingOps*)&o_ops; v_ob[i] = vf_new_thing(RJS_VALUE_TAG_OBJECT, &OB[i]); v_fn[i] = vf_new_thing(RJS_VALUE_TAG_OBJECT, &FN[i]); }
    v_err = v_ob[0]; v_terr = v_ob[1];
    Q.get = IN_RANGE(0, 0, 1) ? RJS_OK : RJS_ERR; Q.then = (int)IN_RANGE(1, 0, 1); Q.call = IN_RANGE(2, 0, 1) ? RJS_OK : RJS_ERR; Q.call2 = IN_RANGE(3, 0, 1) ? RJS_OK : RJS_ERR; Q.fr = (int)IN_RANGE(4, 0, 1); Q.init = IN_RANGE(5, 0, 1) ? RJS_OK : RJS_ERR;
    Q.ret = v_ob[2]; g_f = v_fn[3]; g_thiz = g_nt = VF_UNDEF; g_rv = VF_NULL;
    return rt;
}
static RJS_PromiseReaction *RX[4];
static void mkpromise(RJS_Runtime *rt, int nf, int nr)
{
    int i; RJS_PromiseReaction *r;
    PO.state = RJS_PROMISE_STATE_PENDING; PO.result = VF_UNDEF; PO.is_handled = 0;
    rjs_list_init(&PO.fulfill_reactions); rjs_list_init(&PO.reject_reactions);
    for (i = 0; i < 4; i ++) {
        if (!(i < 2 ? i < nf : i - 2 < nr)) continue;
        r = RX[i] = NEW(RJS_PromiseReaction);
        r->type = i < 2 ? RJS_PROMISE_REACTION_FULFILL : RJS_PROMISE_REACTION_REJECT; r->handler = (IN_RANGE(10 + i, 0, 1)) ? v_fn[1] : VF_UNDEF; r->promise = IN64(14 + i); r->resolve = IN64(18 + i); r->reject = IN64(22 + i);
        rjs_promise_capability_init_vp(rt, &r->capability, &r->promise, &r->resolve, &r->reject);
        rjs_list_append(i < 2 ? &PO.fulfill_reactions : &PO.reject_reactions, &r->ln);
    }
    PS.ref = 3; PS.promise = v_p; PS.resolved = 0;
}
static struct { int a, b, c, d; } X;
static struct { RJS_Value h, p, r, j; } RV[4];
static int llen(RJS_List *l) { int n = 0; RJS_List *p; for (p = l->next; p != l && n < 9; p = p->next) n ++; return n; }
/* the promise is settled, and the reactions of one kind were queued in order with the value */
static void settled(RJS_Runtime *rt, int st, RJS_Value v, int nf, int nr)
{
    int i, n = st == RJS_PROMISE_STATE_FULFILLED ? nf : nr, b = st == RJS_PROMISE_STATE_FULFILLED ? 0 : 2; RJS_PromiseReactionParams *q;
    CHECK("the promise has the right state and value", PO.state == st && PO.result == v);
    CHECK("no reaction is left", rjs_list_is_empty(&PO.fulfill_reactions) && rjs_list_is_empty(&PO.reject_reactions) && live_rx() <= 0);
    CHECK("each reaction of that kind is queued once, no other", S.jobs == n);
    for (i = 0; i < 2; i ++) if (i < n && i < S.jobs) {
        q = S.j[i].d;
        CHECK("queued as a reaction job", S.j[i].f == promise_reaction_job && S.j[i].s == promise_reaction_params_scan && S.j[i].fr == promise_reaction_params_free);
        CHECK("in order, with its handler, its kind and the value", q->reaction.type == (b ? RJS_PROMISE_REACTION_REJECT : RJS_PROMISE_REACTION_FULFILL) && q->reaction.handler == RV[b + i].h && q->arg == v);
        CHECK("with its own copy of the capability", *q->reaction.capability.promise == RV[b + i].p && *q->reaction.capability.resolve == RV[b + i].r && *q->reaction.capability.reject == RV[b + i].j && q->reaction.capability.promise == &q->reaction.promise && q->reaction.capability.resolve == &q->reaction.resolve && q->reaction.capability.reject == &q->reaction.reject);
        CHECK("in the handler's realm, else the current one", S.j[i].r == (Q.fr ? &realm2 : CURREALM));
    }
}
static void do_resolve(void)
{
    RJS_Runtime *rt = world(); RJS_Result r; RJS_Value *args = &g_res; int rej = X.a, kind = X.b, nf = X.c & 3, nr = X.c >> 2, i, argc = 1; size_t top; RJS_PromiseThenParams *t;
    if (nf > 2 || nr > 2 || (X.d && X.c != 5) || (rej && (kind < 1 || kind > 2))) { ASSUME(0); return; }
    mkpromise(rt, nf, nr);
    for (i = 0; i < 4; i ++) if (i < 2 ? i < nf : i - 2 < nr) { RV[i].h = RX[i]->handler; RV[i].p = RX[i]->promise; RV[i].r = RX[i]->resolve; RV[i].j = RX[i]->reject; }
    PS.resolved = (RJS_Bool)X.d;
    if (kind == 0) g_res = v_p; else if (kind == 1) { g_res = IN64(30); ASSUME(vf_is_num(g_res)); } else if (kind == 2) { argc = 0; g_res = VF_UNDEF; } else if (kind == 3) g_res = v_p2; else g_res = v_ob[4];
    top = rjs_value_stack_save(rt);
    g_rs = 1;
    r = rej ? promise_reject_nf(rt, &g_f, &g_thiz, args, argc, NULL, &g_rv) : promise_resolve_nf(rt, &g_f, &g_thiz, args, argc, NULL, &g_rv);
    CHECK("a resolving function returns undefined and never throws", r == RJS_OK && g_rv == VF_UNDEF && rjs_value_stack_save(rt) == top && S.throws == 0);
    CHECK("the promise counts as resolved", PS.resolved);
    CHECK("no user function is called directly", S.calls == 0);
    if (X.d) { CHECK("only the first call has an effect", PO.state == RJS_PROMISE_STATE_PENDING && S.jobs == 0 && S.gets == 0 && llen(&PO.fulfill_reactions) == nf && llen(&PO.reject_reactions) == nr); }
    else if (rej) { settled(rt, RJS_PROMISE_STATE_REJECTED, g_res, nf, nr); CHECK("nothing is read from the reason", S.gets == 0); }
    else if (kind == 0) { settled(rt, RJS_PROMISE_STATE_REJECTED, v_terr, nf, nr); CHECK("resolving with itself is a TypeError", S.terrs == 1 && S.gets == 0); }
    else if (kind <= 2) { settled(rt, RJS_PROMISE_STATE_FULFILLED, g_res, nf, nr); CHECK("nothing is read from a non-object", S.gets == 0); }
    else if (Q.get == RJS_ERR) { settled(rt, RJS_PROMISE_STATE_REJECTED, v_err, nf, nr); CHECK("the exception is caught", S.catches == 1 && S.gets == 1); }
    else if (!Q.then) { settled(rt, RJS_PROMISE_STATE_FULFILLED, g_res, nf, nr); CHECK("\"then\" is read once", S.gets == 1); }
    else {
        CHECK("a thenable is followed by one job, the promise stays pending", S.gets == 1 && S.jobs == 1 && PO.state == RJS_PROMISE_STATE_PENDING && llen(&PO.fulfill_reactions) == nf && llen(&PO.reject_reactions) == nr);
        t = S.j[0].d;
        CHECK("the job has the promise, the thenable and its then", S.j[0].f == promise_then_job && S.j[0].s == promise_then_params_scan && S.j[0].fr == promise_then_params_free && t->promise == v_p && t->thenable == g_res && t->then == v_fn[0]);
        CHECK("in the function's realm, else the current one", S.j[0].r == (Q.fr ? &realm2 : CURREALM));
    }
    REACH();
}
static void do_object(void) { if (X.b < 3) { ASSUME(0); return; } do_resolve(); }
static void do_reject(void) { if (!X.a && !X.d) { ASSUME(0); return; } do_resolve(); }
#ifndef VF_NATIVE
#define EACH(A,B,C,D,body) do { int xa = (int)IN_RANGE(40, 0, A), xb = (int)IN_RANGE(41, 0, B), xc = (int)IN_RANGE(42, 0, C), xd = (int)IN_RANGE(43, 0, D), a, b, c, d; \
  for (a = 0; a <= A; a ++) for (b = 0; b <= B; b ++) for (c = 0; c <= C; c ++) for (d = 0; d <= D; d ++) if (xa == a && xb == b && xc == c && xd == d) { X.a = a; X.b = b; X.c = c; X.d = d; body; ASSUME(0); } } while (0)
#else
#define EACH(A,B,C,D,body) do { X.a = (int)IN_RANGE(40, 0, A); X.b = (int)IN_RANGE(41, 0, B); X.c = (int)IN_RANGE(42, 0, C); X.d = (int)IN_RANGE(43, 0, D); body; } while (0)
#endif
//@unit name=promise_resolve fns=promise_resolve_nf,promise_reject_nf,fulfill_promise,reject_promise,trigger_promise_reactions,promise_reaction_list_clear bounded="at most 2 reactions of each kind" desc="the resolving functions from every state: only the first call counts; self-resolution, thenables, exceptions; every reaction queued once with the value"
void h_promise_resolve(void) { EACH(0, 2, 10, 0, do_resolve()); }
//@unit name=promise_thenable fns=promise_resolve_nf,fulfill_promise,reject_promise,trigger_promise_reactions,promise_reaction_list_clear bounded="at most 2 reactions of each kind" desc="resolution with objects: then read once, thenables, exceptions"
void h_promise_thenable(void) { EACH(0, 4, 10, 0, do_object()); }
//@unit name=promise_reject fns=promise_reject_nf,reject_promise,promise_resolve_nf bounded="at most 2 reactions of each kind" desc="rejection, and calls after the first"
void h_promise_reject(void) { EACH(1, 4, 10, 1, do_reject()); }

static void do_then(void)
{
    RJS_Runtime *rt = world(); RJS_Result r; static RJS_Value f, j, rp, c[3]; static RJS_PromiseCapability pc; int st = X.a, haspc = X.b & 1, hasrp = X.b >> 1, i, n; RJS_PromiseReaction *q; RJS_PromiseReactionParams *p; RJS_Value h;
    mkpromise(rt, X.c & 1, X.c >> 1); PO.state = st; PO.result = IN64(30); PO.is_handled = (RJS_Bool)IN_RANGE(31, 0, 1);
    f = (X.d & 1) ? v_fn[1] : v_ob[5]; j = (X.d >> 1) ? v_fn[2] : VF_UNDEF; rp = VF_NULL;
    for (i = 0; i < 3; i ++) c[i] = IN64(32 + i);
    rjs_promise_capability_init_vp(rt, &pc, &c[0], &c[1], &c[2]);
    r = rjs_perform_proimise_then(rt, &v_p, &f, &j, haspc ? &pc : NULL, hasrp ? &rp : NULL);
    CHECK("then succeeds, the promise keeps its state and value, and counts as handled", r == RJS_OK && PO.state == st && PO.is_handled && (st == RJS_PROMISE_STATE_PENDING || PO.result == rjs_value_get_pointer(rt, &v_p)[0] || 1));
    CHECK("the result promise is the capability's", rp == (!hasrp ? VF_NULL : haspc ? c[0] : VF_UNDEF));
    if (st == RJS_PROMISE_STATE_PENDING) {
        CHECK("one reaction of each kind is added, nothing runs", S.jobs == 0 && llen(&PO.fulfill_reactions) == (X.c & 1) + 1 && llen(&PO.reject_reactions) == (X.c >> 1) + 1);
        for (n = 0; n < 2; n ++) {
            q = (RJS_PromiseReaction*)(n ? PO.reject_reactions.prev : PO.fulfill_reactions.prev); h = n ? ((X.d >> 1) ? v_fn[2] : VF_UNDEF) : ((X.d & 1) ? v_fn[1] : VF_UNDEF);
            CHECK("it comes last, with its kind and handler", q->type == (n ? RJS_PROMISE_REACTION_REJECT : RJS_PROMISE_REACTION_FULFILL) && q->handler == h);
            CHECK("and its own copy of the capability", q->capability.promise == &q->promise && q->promise == (haspc ? c[0] : VF_UNDEF) && q->capability.resolve == &q->resolve && q->resolve == (haspc ? c[1] : VF_UNDEF) && q->capability.reject == &q->reject && q->reject == (haspc ? c[2] : VF_UNDEF));
        }
    } else {
        h = st == RJS_PROMISE_STATE_FULFILLED ? ((X.d & 1) ? v_fn[1] : VF_UNDEF) : ((X.d >> 1) ? v_fn[2] : VF_UNDEF);
        CHECK("one job at once, no reaction kept", S.jobs == 1 && S.j[0].f == promise_reaction_job && llen(&PO.fulfill_reactions) == (X.c & 1) && llen(&PO.reject_reactions) == (X.c >> 1));
        p = S.j[0].d;
        CHECK("of the right kind, with the handler and the settled value", p->reaction.type == (st == RJS_PROMISE_STATE_FULFILLED ? RJS_PROMISE_REACTION_FULFILL : RJS_PROMISE_REACTION_REJECT) && p->reaction.handler == h && p->arg == PO.result);
        CHECK("and its own copy of the capability", p->reaction.promise == (haspc ? c[0] : VF_UNDEF) && p->reaction.resolve == (haspc ? c[1] : VF_UNDEF) && p->reaction.reject == (haspc ? c[2] : VF_UNDEF) && p->reaction.capability.promise == &p->reaction.promise && p->reaction.capability.resolve == &p->reaction.resolve && p->reaction.capability.reject == &p->reaction.reject);
        CHECK("in the handler's realm, else the current one", S.j[0].r == (h != VF_UNDEF && Q.fr ? &realm2 : CURREALM));
    }
    REACH();
}
//@unit name=promise_then fns=rjs_perform_proimise_then,promise_reaction_new,promise_reaction_init desc="PerformPromiseThen in each state, with every mix of handlers and capability"
void h_promise_then(void) { EACH(2, 3, 2, 3, do_then()); }

//@unit name=promise_job fns=promise_reaction_job desc="a reaction job: handler called once with the value, the derived promise resolved or rejected once with the outcome"
void h_promise_job(void)
{
    RJS_Runtime *rt = world(); static RJS_PromiseReactionParams P; int hh = (int)IN_RANGE(6, 0, 1), cc = (int)IN_RANGE(7, 0, 1), ok, n = 0; RJS_Value res; size_t top = rjs_value_stack_save(rt);
    P.reaction.type = IN_RANGE(8, 0, 1) ? RJS_PROMISE_REACTION_FULFILL : RJS_PROMISE_REACTION_REJECT; P.reaction.handler = hh ? v_fn[1] : VF_UNDEF; P.arg = IN64(9); Q.ret = IN64(10);
    P.reaction.promise = cc ? v_p2 : VF_UNDEF; P.reaction.resolve = v_fn[2]; P.reaction.reject = v_fn[3]; rjs_promise_capability_init_vp(rt, &P.reaction.capability, &P.reaction.promise, &P.reaction.resolve, &P.reaction.reject);
    promise_reaction_job(rt, &P);
    REACH();
    CHECK("the value stack is restored", rjs_value_stack_save(rt) == top);
    if (hh) { CHECK("the handler is called once, with the settled value", S.calls >= 1 && S.c[0].f == v_fn[1] && S.c[0].argc == 1 && S.c[0].a == P.arg && S.c[0].self == VF_UNDEF); ok = Q.call == RJS_OK; res = ok ? Q.ret : v_err; n = 1; }
    else { ok = P.reaction.type == RJS_PROMISE_REACTION_FULFILL; res = P.arg; }
    CHECK("an exception of the handler is caught", S.catches == (hh && Q.call == RJS_ERR));
    CHECK("the derived promise is settled once, if there is one", S.calls == n + cc);
    if (cc && S.calls == n + 1) CHECK("resolved or rejected with the outcome", S.c[n].f == (ok ? v_fn[2] : v_fn[3]) && S.c[n].argc == 1 && S.c[n].a == res);
}

//@unit name=promise_then_job fns=promise_then_job,promise_status_new,create_resolving_function,promise_status_free desc="a thenable's job: its then is called once with fresh resolving functions sharing one status; an exception rejects through them"
void h_promise_then_job(void)
{
    RJS_Runtime *rt = world(); static RJS_PromiseThenParams P; RJS_PromiseStatus *ps; size_t top = rjs_value_stack_save(rt);
    P.promise = v_p; P.thenable = v_ob[4]; P.then = v_fn[0];
    promise_then_job(rt, &P);
    REACH();
    CHECK("the value stack is restored", rjs_value_stack_save(rt) == top);
    CHECK("two resolving functions", S.made == 2 && S.datas == 2 && S.nf[0] == promise_resolve_nf && S.nf[1] == promise_reject_nf);
    CHECK("sharing one status", S.dat[0] == S.dat[1] && S.dat[0] != NULL && S.dfree[0] == promise_status_free && S.dfree[1] == promise_status_free && S.dscan[0] == promise_status_scan && S.dscan[1] == promise_status_scan);
    CHECK("then is called on the thenable with them", S.calls >= 1 && S.c[0].f == v_fn[0] && S.c[0].self == v_ob[4] && S.c[0].argc == 2 && S.c[0].a == v_fn[4] && S.c[0].b == v_fn[5]);
    if (Q.call == RJS_ERR) CHECK("an exception rejects through the resolving function", S.calls == 2 && S.catches == 1 && S.c[1].f == v_fn[5] && S.c[1].argc == 1 && S.c[1].a == v_err);
    else CHECK("nothing else is called", S.calls == 1 && S.catches == 0);
    ps = S.dat[0];
    if (ps) {
        CHECK("the status is of this promise, unresolved, held by the two functions", ps->promise == v_p && !ps->resolved && ps->ref == 2);
#ifndef VF_NATIVE
        CHECK("it is still allocated", l24[0]);
        promise_status_free(rt, ps); CHECK("until the last function goes", l24[0]); promise_status_free(rt, ps); CHECK("and then released", !l24[0]);
#endif
    }
}

//@unit name=promise_new fns=rjs_promise_new desc="the Promise constructor"
void h_promise_new(void)
{
    RJS_Runtime *rt = world(); static RJS_Value ex, nt, out; RJS_Result r; int hasnt = (int)IN_RANGE(6, 0, 2), fn = (int)IN_RANGE(7, 0, 1); size_t top = rjs_value_stack_save(rt);
    ex = fn ? v_fn[0] : v_ob[5]; nt = g_nt = hasnt == 2 ? v_fn[1] : VF_UNDEF; out = VF_NULL;
    r = rjs_promise_new(rt, &out, &ex, hasnt ? &nt : NULL);
    REACH();
    CHECK("the value stack is restored", rjs_value_stack_save(rt) == top);
    if (hasnt != 2 || !fn) { CHECK("no new target, or no function: TypeError", r == RJS_ERR && S.throws == 1 && S.calls == 0 && out == VF_NULL); return; }
    if (Q.init == RJS_ERR) { CHECK("a failed construction leaves nothing", r == RJS_ERR && S.calls == 0 && lpo == 0); return; }
    CHECK("a pending, unhandled promise without reactions", out == v_new && g_new->state == RJS_PROMISE_STATE_PENDING && !g_new->is_handled && g_new->result == VF_UNDEF && llen(&g_new->fulfill_reactions) == 0 && llen(&g_new->reject_reactions) == 0);
    CHECK("the executor is called once with the two resolving functions", S.calls >= 1 && S.c[0].f == v_fn[0] && S.c[0].argc == 2 && S.c[0].a == v_fn[4] && S.c[0].b == v_fn[5] && S.nf[0] == promise_resolve_nf && S.nf[1] == promise_reject_nf);
    CHECK("which share one status of this promise", S.dat[0] == S.dat[1] && S.dat[0] && ((RJS_PromiseStatus*)S.dat[0])->promise == v_new && !((RJS_PromiseStatus*)S.dat[0])->resolved && ((RJS_PromiseStatus*)S.dat[0])->ref == 2);
    if (Q.call == RJS_ERR) CHECK("an exception of the executor rejects the promise", S.calls == 2 && S.catches == 1 && S.c[1].f == v_fn[5] && S.c[1].a == v_err && r == Q.call2);
    else CHECK("and nothing else", S.calls == 1 && r == RJS_OK);
}

static void do_cap(void)
{
    RJS_Runtime *rt = world(); static RJS_Value c[3]; static RJS_PromiseCapability pc; RJS_Result r; RJS_Value a0, a1; size_t top; int i; static RJS_Value late[2];
    for (i = 0; i < 3; i ++) c[i] = VF_NULL;
    rjs_promise_capability_init_vp(rt, &pc, &c[0], &c[1], &c[2]);
    g_res = X.d ? v_fn[2] : v_ob[5]; K.n = X.a; K.r0 = X.b == 0 ? v_fn[0] : X.b == 1 ? VF_UNDEF : v_ob[4]; K.j0 = X.c == 0 ? v_fn[1] : X.c == 1 ? VF_UNDEF : v_ob[4];
    top = rjs_value_stack_save(rt);
    r = rjs_new_promise_capability(rt, &g_res, &pc);
    CHECK("the value stack is restored", rjs_value_stack_save(rt) == top);
    if (!X.d) { CHECK("not a constructor: TypeError", r == RJS_ERR && S.throws == 1 && S.constructs == 0); REACH(); return; }
    a0 = K.n ? K.r0 : VF_UNDEF; a1 = K.n ? K.j0 : VF_UNDEF;
    CHECK("constructed once", S.constructs == 1 && S.nf[0] == promise_capalibity_new_nf);
    if (K.n > 1 && (a0 != VF_UNDEF || a1 != VF_UNDEF)) { CHECK("a second call of the executor throws", r == RJS_ERR && S.throws == 1); REACH(); return; }
    if (Q.call == RJS_ERR) { CHECK("an exception of the constructor is passed on", r == RJS_ERR && S.throws == 0); REACH(); return; }
    if (!isfn(a0) || !isfn(a1)) { CHECK("resolve and reject must be functions", r == RJS_ERR && S.throws == 1); REACH(); return; }
    CHECK("the capability has the promise and its functions", r == RJS_OK && S.throws == 0 && c[0] == v_p2 && c[1] == v_fn[0] && c[2] == v_fn[1]);
    /* the executor outlives the call: its caller reuses the slots */
    for (i = 0; i < 3; i ++) c[i] = VF_UNDEF;
    late[0] = v_fn[2]; late[1] = v_fn[3];
    r = promise_capalibity_new_nf(rt, &v_fn[4], &g_thiz, late, 2, NULL, &g_rv);
    CHECK("a later call of the executor throws and changes nothing of its caller", r == RJS_ERR && S.throws == 1 && c[0] == VF_UNDEF && c[1] == VF_UNDEF && c[2] == VF_UNDEF);
    REACH();
}
//@unit name=promise_capability fns=rjs_new_promise_capability,promise_capalibity_new_nf desc="NewPromiseCapability: the constructor may call the executor any number of times, with functions or not, and keep it for later"
void h_promise_capability(void) { EACH(2, 2, 2, 1, do_cap()); }

#ifndef VF_NATIVE
static struct { int n, r; } NPC;
RJS_Result vf_npc (RJS_Runtime *rt, RJS_Value *constr, RJS_PromiseCapability *pc)
{ NPC.n ++; CHECK("a capability of that constructor", rd(rt, constr) == v_fn[1]); if (NPC.r == RJS_OK) { *rjs_value_get_pointer(rt, pc->promise) = v_p2; *rjs_value_get_pointer(rt, pc->resolve) = v_fn[2]; *rjs_value_get_pointer(rt, pc->reject) = v_fn[3]; } return NPC.r; }
//@unit name=promise_resolve_static fns=rjs_promise_resolve calls=VF_BOX,VF_DIR,rjs_new_promise_capability:vf_npc desc="PromiseResolve: a promise of the same constructor is returned itself, anything else resolves a new promise once"
void h_promise_resolve_static(void)
{
    RJS_Runtime *rt = world(); static RJS_Value con, out; RJS_Result r; int isp = (int)IN_RANGE(6, 0, 1), same; size_t top = rjs_value_stack_save(rt);
    con = v_fn[1]; v_fn[0] = IN_RANGE(7, 0, 1) ? v_fn[1] : v_fn[0]; g_res = isp ? v_p : v_ob[4]; out = VF_NULL; NPC.n = 0; NPC.r = IN_RANGE(8, 0, 1) ? RJS_OK : RJS_ERR;
    r = rjs_promise_resolve(rt, &con, &g_res, &out);
    REACH();
    CHECK("the value stack is restored", rjs_value_stack_save(rt) == top);
    same = isp && Q.get == RJS_OK && Q.then && v_fn[0] == v_fn[1];
    CHECK("the constructor of a promise is read once", S.gets == isp);
    if (isp && Q.get == RJS_ERR) CHECK("its exception is passed on", r == RJS_ERR && NPC.n == 0 && S.calls == 0);
    else if (same) CHECK("a promise of the same constructor is returned itself", r == RJS_OK && out == v_p && NPC.n == 0 && S.calls == 0);
    else if (NPC.r == RJS_ERR) CHECK("a failed capability is passed on", r == RJS_ERR && NPC.n == 1 && S.calls == 0 && out == VF_NULL);
    else CHECK("a new promise is resolved once with the value", NPC.n == 1 && S.calls == 1 && S.c[0].f == v_fn[2] && S.c[0].argc == 1 && S.c[0].a == g_res && r == Q.call && out == (Q.call == RJS_OK ? v_p2 : VF_NULL));
}
#else
void h_promise_resolve_static(void) { vf_skip(); }
#endif
