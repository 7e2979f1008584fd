/* Native driver: replays a recorded input vector against the real code, or
 * looks for a failing input of a failed obligation. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#ifndef VIN_MAX
#define VIN_MAX 256
#endif
uint64_t vin[VIN_MAX];
typedef struct RJS_Runtime_s RJS_Runtime;
extern void VF_ENTRY(void);
static jmp_buf jb;
static int searching;
struct shared { uint64_t vin[VIN_MAX]; int used[VIN_MAX]; char msg[256]; unsigned long runs, skips; int maxi; };
static struct shared *sh;
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
static uint64_t pick(void)
{
    static const uint64_t d[] = {
        0,1,2,3,4,5,7,8,9,10,16,31,32,33,63,64,65,127,128,129,255,256,257,0x7fff,0x8000,0xffff,0x10000,
        0x7fffffff,0x80000000u,0xffffffffu,0x100000000ull,0x7fffffffffffffffull,0x8000000000000000ull,
        ~0ull, ~1ull, 0xd800,0xdbff,0xdc00,0xdfff,0x20,0x25,0x30,0x2d,0x41,0x61 };
    static const double f[] = { 0.0,-0.0,1,-1,0.5,-0.5,1.5,2,-2,3,-3,255,256,65535,65536,2147483647.0,2147483648.0,
        -2147483648.0,-2147483649.0,4294967295.0,4294967296.0,-4294967296.0,9007199254740991.0,9007199254740992.0,
        9223372036854775808.0,-9223372036854775808.0,9223372036854777856.0,18446744073709551616.0,1e300,-1e300,5e-324,
        0.49999999999999994,4503599627370495.5,4503599627370497.0,8.64e15,-8.64e15,86400000,-1e-7,
        __builtin_inf(),-__builtin_inf(),__builtin_nan("") };
    uint64_t r = rnd();
    switch (r % 8) {
    case 0: case 1: return d[(r >> 8) % (sizeof d / sizeof *d)];
    case 2: case 3: { double x = f[(r >> 8) % (sizeof f / sizeof *f)]; uint64_t u; memcpy(&u,&x,8); return u; }
    case 4: return rnd();
    case 5: return rnd() & 0xff;
    case 6: { double x = (double)(int64_t)(rnd() >> (r >> 8) % 64); uint64_t u; if (r & (1ull<<40)) x = -x; if (r & (1ull << 41)) x /= 4; memcpy(&u,&x,8); return u; }
    default: return rnd() >> ((r >> 8) % 64);
    }
}
uint64_t vf_in(int i, int kind, uint64_t lo, uint64_t hi)
{
    if (searching && !sh->used[i]) {
        sh->used[i] = 1;
        if (kind == 2) {
            uint64_t u = pick();
            sh->vin[i] = u;
        } else sh->vin[i] = pick();
        if (i > sh->maxi) sh->maxi = i;
    }
    if (kind == 1) {
        if (sh->vin[i] < lo || sh->vin[i] > hi)
            sh->vin[i] = lo + (hi - lo == ~0ull ? sh->vin[i] : sh->vin[i] % (hi - lo + 1));
    }
    vin[i] = sh->vin[i];
    return sh->vin[i];
}
void vf_skip(void) { longjmp(jb, 1); }
void vf_fail(const char *n) { snprintf(sh->msg, sizeof sh->msg, "%s", n); longjmp(jb, 2); }

#ifndef VF_NO_RT
extern RJS_Runtime *rjs_runtime_new(void);
static RJS_Runtime *grt;
RJS_Runtime *vf_native_rt(void) { if (!grt) grt = rjs_runtime_new(); return grt; }
#else
RJS_Runtime *vf_native_rt(void) { return NULL; }
#endif
static void prep(void)
{
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    vf_native_rt();
}
static int once(void)
{
    int k = setjmp(jb);
    if (k) return k;
    VF_ENTRY();
    return 0;
}
int main(int argc, char **argv)
{
    int i, st;
    sh = mmap(NULL, sizeof *sh, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        FILE *f = fopen(argv[2], "r"); char line[256]; unsigned long idx, v;
        if (!f) return 3;
        while (fgets(line, sizeof line, f))
            if (sscanf(line, "vin %lu %lu", &idx, &v) == 2 && idx < VIN_MAX) sh->vin[idx] = v;
        pid_t p = fork();
        if (!p) { alarm(20); prep(); int k = once(); _exit(k == 2 ? 42 : k == 1 ? 43 : 0); }
        waitpid(p, &st, 0);
        if (WIFSIGNALED(st)) { printf("REPLAY-FAIL signal %d\n", WTERMSIG(st)); return 1; }
        if (WEXITSTATUS(st) == 42) { printf("REPLAY-FAIL %s\n", sh->msg); return 1; }
        if (WEXITSTATUS(st) == 43) { printf("REPLAY-SKIP precondition not met\n"); return 2; }
        if (WEXITSTATUS(st)) { printf("REPLAY-FAIL exit %d\n", WEXITSTATUS(st)); return 1; }
        printf("REPLAY-PASS\n"); return 0;
    }
    if (argc >= 4 && !strcmp(argv[1], "search")) {
        uint64_t seed = strtoull(argv[2], 0, 10); double secs = atof(argv[3]);
        double seen = 0; struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
        for (int round = 0; ; round ++) {
            clock_gettime(CLOCK_MONOTONIC, &t1);
            seen = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9;
            if (seen > secs) break;
            pid_t p = fork();
            if (!p) {
                alarm(30); prep(); searching = 1;
                rs = (seed + 1) * 0x9E3779B97F4A7C15ull + round * 0xD1B54A32D192ED03ull; if (!rs) rs = 1;
                for (i = 0; i < 10; i ++) rnd();
                for (long n = 0; n < VF_BATCH; n ++) {
                    memset(sh->used, 0, sizeof sh->used);
                    sh->runs ++;
                    int k = once();
                    if (k == 2) _exit(42);
                    if (k == 1) sh->skips ++;
                    if ((n & 63) == 0) { clock_gettime(CLOCK_MONOTONIC, &t1); if ((t1.tv_sec - t0.tv_sec) > secs) break; }
                }
                _exit(0);
            }
            waitpid(p, &st, 0);
            if (WIFSIGNALED(st)) {
                if (WTERMSIG(st) == SIGALRM) { snprintf(sh->msg, sizeof sh->msg, "does not terminate"); }
                else snprintf(sh->msg, sizeof sh->msg, "signal %d", WTERMSIG(st));
            }
            if (WIFSIGNALED(st) || WEXITSTATUS(st)) {
                printf("SEARCH-FAIL %s\n", sh->msg);
                for (i = 0; i < VIN_MAX; i ++) if (sh->used[i]) printf("vin %d %lu\n", i, (unsigned long)sh->vin[i]);
                return 1;
            }
        }
        printf("SEARCH-NONE runs=%lu skipped=%lu\n", sh->runs, sh->skips);
        return 0;
    }
    return 3;
}
