/* vf.h - harness support shared by the verifier (CBMC) and by the native
 * replay builds of the same harness.
 *
 * A harness translation unit #includes the real source file(s) of /repo
 * (working tree, copied mechanically on every run), declares the contracts of
 * the functions under verification and gives one entry function per unit.
 *   - under CBMC every IN_*() is an unconstrained input of its type and the
 *     contract (requires/assigns/ensures) of the function is enforced on its
 *     real body with goto-instrument --dfcc;
 *   - natively every IN_*() reads a recorded (or generated) input vector and
 *     NCHECK() evaluates the same postcondition predicate on the real code
 *     compiled by gcc.
 */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <math.h>

#ifndef VIN_MAX
#define VIN_MAX 256
#endif
extern uint64_t vin[VIN_MAX];

/* contract clause helpers */
#define REQ(c)  __CPROVER_requires(c)
#define ENS(c)  __CPROVER_ensures(c)
#define ASG(...) __CPROVER_assigns(__VA_ARGS__)

#ifndef VF_NATIVE
uint64_t vin[VIN_MAX];
uint64_t nondet_u64(void);
#define ASSUME(c)   __CPROVER_assume(c)
#define CHECK(n,c)  __CPROVER_assert((c), n)   /* checked by both back ends */
#define NCHECK(n,c) ((void)0)                  /* natively only: the contract states it under CBMC */
#define REACH()     __CPROVER_assert(0, "vf_reach")
#define CONTRACT(...) __VA_ARGS__
static inline uint64_t IN64(int i) { uint64_t x = nondet_u64(); vin[i] = x; return x; }
static inline uint64_t IN_RANGE(int i, uint64_t lo, uint64_t hi)
{ uint64_t x = IN64(i); __CPROVER_assume(x >= lo && x <= hi); return x; }
static inline double IN_DBL(int i) { union { uint64_t u; double d; } x; x.u = IN64(i); return x.d; }
#else
void vf_skip(void) __attribute__((noreturn));
void vf_fail(const char *n) __attribute__((noreturn));
uint64_t vf_in(int i, int kind, uint64_t lo, uint64_t hi);
#define __CPROVER_assume(c) do { if (!(c)) vf_skip(); } while (0)
#define __CPROVER_assert(c,n) do { if (!(c)) vf_fail(n); } while (0)
#define ASSUME(c)   __CPROVER_assume(c)
#define CHECK(n,c)  __CPROVER_assert((c), n)
#define NCHECK(n,c) __CPROVER_assert((c), n)
#define REACH()     ((void)0)
#define CONTRACT(...)
static inline uint64_t IN64(int i) { return vf_in(i, 0, 0, 0); }
static inline uint64_t IN_RANGE(int i, uint64_t lo, uint64_t hi) { return vf_in(i, 1, lo, hi); }
static inline double IN_DBL(int i) { union { uint64_t u; double d; } x; x.u = vf_in(i, 2, 0, 0); return x.d; }
#endif

static inline uint64_t vf_dbits(double d) { union { uint64_t u; double d; } x; x.d = d; return x.u; }
static inline double   vf_bdbl(uint64_t u) { union { uint64_t u; double d; } x; x.u = u; return x.d; }
/* same Number: NaN equals NaN, +0 differs from -0 */
static inline int vf_same(double a, double b)
{ if (a != a || b != b) return (a != a) && (b != b); return vf_dbits(a) == vf_dbits(b); }
static inline int vf_isnan(double a) { return a != a; }
static inline int vf_neg(double a) { return (int)(vf_dbits(a) >> 63); }
#endif
