/*
 * Common part of every contract harness.
 *
 * A harness file states the contract of one (or more) function(s) of /repo,
 * includes the real translation unit through JV_TU, and provides the contract
 * stubs of the functions that the unit calls.  It is compiled twice:
 *
 *   JV_CBMC    by goto-cc; the contracts are enforced by goto-instrument --dfcc
 *              and discharged by cbmc, all inputs being unconstrained ("tape");
 *   JV_NATIVE  by gcc with the sanitizers; the tape is the verifier's
 *              counterexample, so the failing run is replayed on the real code.
 */
#ifndef JV_H
#define JV_H
#include <stdint.h>
#include <stddef.h>

#ifdef JV_CBMC
uint64_t jv_tape_v;
static inline uint64_t jv_u64(void) { uint64_t v; jv_tape_v = v; return v; }
# define JV_ASSUME(c)		__CPROVER_assume(c)
# define JV_CHECK(c, msg)	__CPROVER_assert((c), "JV: " msg)
# ifdef JV_NOCOVER
#  define JV_COVER(c, msg)	do {} while (0)
# else
#  define JV_COVER(c, msg)	__CPROVER_assert(!(c), "JVCOVER: " msg)
# endif
# define JV_REQUIRES(c)		__CPROVER_requires(c)
# define JV_ENSURES(c)		__CPROVER_ensures(c)
# define JV_ASSIGNS(...)	__CPROVER_assigns(__VA_ARGS__)
# define JV_RET			__CPROVER_return_value
#else
# include <stdio.h>
# include <stdlib.h>
uint64_t jv_tape_v;
static FILE *jv_tape_f;
static inline uint64_t jv_u64(void)
{
	unsigned long long v = 0;
	if (!jv_tape_f) {
		const char *n = getenv("JV_TAPE");
		jv_tape_f = n ? fopen(n, "r") : NULL;
	}
	if (!jv_tape_f || fscanf(jv_tape_f, "%llx", &v) != 1)
		v = 0;
	return v;
}
# define JV_ASSUME(c)	do { if (!(c)) { fprintf(stderr, "JV-INAPPLICABLE: %s\n", #c); exit(77); } } while (0)
# define JV_CHECK(c, msg) do { if (!(c)) { fprintf(stderr, "JV-FAILED: %s\n", msg); exit(66); } } while (0)
# define JV_COVER(c, msg)	do {} while (0)
void jv_harness(void);
int main(void) { jv_harness(); fprintf(stderr, "JV-OK\n"); return 0; }
#endif

#define JV_T(type)	((type)jv_u64())
static inline unsigned int jv_uint(void) { return (unsigned int)jv_u64(); }
static inline int jv_bool(void) { return (int)(jv_u64() & 1); }
#endif
