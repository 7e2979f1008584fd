/* C33: the job queue. */
#include "vf.h"
#include "lib/rjs_job.c"
#include "vf_rt.h"
//@default props=C33 unwind=12 dfcc=0 calls=VF_BOX,VF_DIR,rjs_alloc_assert:vf_alloc,rjs_free:vf_free,rjs_gc_mark:vf_mark flags="--object-bits 12" bounded="at most 3 jobs queued, each queueing at most 2 more, one of which queues another, any of the first two trying to run the queue itself"
#define NJ 12
static RJS_Job jobs[NJ]; static int live[NJ]; static RJS_Realm realms[3], before;
static int dat[NJ];          /* data of job i: &dat[i] */
static int kids[NJ];         /* how many jobs job i queues */
static int nest, nested, nq, nrun, order[NJ], nfree[NJ], nscan[NJ], running, marks; static RJS_Runtime *RT;
#ifndef VF_NATIVE
void *vf_alloc (RJS_Runtime *rt, size_t n) { int i; for (i = 0; i < NJ; i ++) if (!live[i]) { live[i] = 1; return &jobs[i]; } __CPROVER_assert(0, "vf: pool"); return NULL; }
void vf_free (RJS_Runtime *rt, void *p, size_t n) { int i; for (i = 0; i < NJ; i ++) if (p == &jobs[i]) { CHECK("a job is freed once", live[i]); live[i] = 0; return; } CHECK("only jobs are freed", 0); }
void vf_mark (RJS_Runtime *rt, void *p) { marks ++; }
static int nlive(void) { int i, n = 0; for (i = 0; i < NJ; i ++) n += live[i]; return n; }
#else
static int nlive(void) { return 0; }
#endif
static int ix(void *d) { int i; for (i = 0; i < NJ; i ++) if (d == &dat[i]) return i; CHECK("the job's own data", 0); return 0; }
static void jfree (RJS_Runtime *rt, void *d) { int i = ix(d); nfree[i] ++; CHECK("the data outlives the job", !running); }
static void jscan (RJS_Runtime *rt, void *d) { nscan[ix(d)] ++; }
static void jfunc (RJS_Runtime *rt, void *d);
static void put(RJS_Runtime *rt) { int k = nq ++; CHECK("queueing succeeds", rjs_job_enqueue(rt, jfunc, &realms[k % 3], k % 4 == 3 ? NULL : jscan, k % 5 == 4 ? NULL : jfree, &dat[k]) == RJS_OK); }
static void jfunc (RJS_Runtime *rt, void *d)
{
    int i = ix(d), k;
    CHECK("one job at a time", !running); running = 1;
    CHECK("its data is not released before it runs", nfree[i] == 0);
    CHECK("jobs run in the realm they were queued with", rt->rb.bot_realm == &realms[i % 3]);
    CHECK("few runs", nrun < NJ); order[nrun ++] = i;
    for (k = 0; k < kids[i]; k ++) put(rt);
    if (i == nest) { nested = 1; rjs_solve_jobs(rt); CHECK("and its data stays while it runs", nfree[i] == 0); }
    running = 0;
}
static struct { int n, k, s; } X;
static RJS_Runtime *world(void)
{
    RJS_Runtime *rt = vf_rt(); int i, b = X.k;
    for (i = 0; i < NJ; i ++) { live[i] = kids[i] = order[i] = nfree[i] = nscan[i] = 0; }
    nest = (int)X.s - 2; nested = nq = nrun = running = marks = 0; rt->rb.bot_realm = &before;
    for (i = 0; i < 3; i ++, b /= 3) if (i < X.n) kids[i] = b % 3;
    kids[X.n] = X.s == 1;
    rjs_runtime_job_init(rt);
    for (i = 0; i < X.n; i ++) put(rt);
    return rt;
}
static void do_solve(void)
{
    RJS_Runtime *rt = world(); int i, b, ok = 1, t = 1;
    for (i = 0, b = X.k; i < 3; i ++, b /= 3, t *= 3) if (i >= X.n && b % 3) ok = 0;
    if (!ok) { ASSUME(0); return; }
    if (X.n == 0 || nq == X.n) { for (i = 0, b = 0; i < X.n; i ++) b += kids[i]; if (!b && X.s == 1) { ASSUME(0); return; } }
    rjs_solve_jobs(rt);
    CHECK("every queued job ran, including those queued meanwhile", nrun == nq && nq < NJ);
    for (i = 0; i < NJ; i ++) if (i < nq) CHECK("in the order queued, once each", order[i] == i);
    for (i = 0; i < NJ; i ++) if (i < nq) CHECK("its data is released exactly once", nfree[i] == (i % 5 == 4 ? 0 : 1));
    CHECK("the queue is empty and the jobs are freed", rjs_list_is_empty(&rt->job_list) && nlive() == 0);
    CHECK("the realm is what it was", rt->rb.bot_realm == &before);
    REACH();
}
static void do_drop(void)
{
    RJS_Runtime *rt = world(); int i;
    if (X.k || X.s) { ASSUME(0); return; }
#ifndef VF_NATIVE
    rjs_gc_scan_job(rt);
    for (i = 0; i < NJ; i ++) if (i < nq) CHECK("queued data is scanned once", nscan[i] == (i % 4 == 3 ? 0 : 1));
    CHECK("and its realm kept", marks == nq);
#endif
    rjs_runtime_job_deinit(rt);
    CHECK("nothing runs at the end", nrun == 0);
    for (i = 0; i < NJ; i ++) if (i < nq) CHECK("jobs that never ran release their data once", nfree[i] == (i % 5 == 4 ? 0 : 1));
    CHECK("and are freed", nlive() == 0);
    rjs_list_init(&rt->job_list);
    REACH();
}
#ifndef VF_NATIVE
#define EACH(A,B,C,body) do { int xa = (int)IN_RANGE(0, 0, A), xb = (int)IN_RANGE(1, 0, B), xc = (int)IN_RANGE(2, 0, C), a, b, c; for (a = 0; a <= A; a ++) for (b = 0; b <= B; b ++) for (c = 0; c <= C; c ++) if (xa == a && xb == b && xc == c) { X.n = a; X.k = b; X.s = c; body; ASSUME(0); } } while (0)
#else
#define EACH(A,B,C,body) do { X.n = (int)IN_RANGE(0, 0, A); X.k = (int)IN_RANGE(1, 0, B); X.s = (int)IN_RANGE(2, 0, C); body; } while (0)
#endif
//@unit name=job_solve unwind=30 fns=rjs_solve_jobs,rjs_job_enqueue,job_free
void h_job_solve(void) { EACH(3, 26, 3, do_solve()); }
//@unit name=job_drop unwind=30 fns=rjs_runtime_job_deinit,rjs_gc_scan_job,rjs_job_enqueue,job_free
void h_job_drop(void) { EACH(6, 0, 0, do_drop()); }
