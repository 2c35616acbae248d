/*
 * Contract of jent_gcd_analyze() and jent_gcd_get() (C22).
 *
 * jv_gcdf() is the greatest common divisor, known to the verifier only by its laws:
 * symmetric, gcd(x, 0) = x and gcd(a, b) = gcd(b, a mod b), the latter being the
 * contract of jent_umod64().  jv_G[n] is the gcd of the first n deltas, jv_S[n] the sum
 * (modulo 2^64) of their absolute successive differences, both by recurrence.
 * Two arbitrary series are analysed one after the other; the state in between is what
 * the first one published.
 */
#include "jv.h"
#include "src/jitterentropy-internal.h"
#include "src/jitterentropy-gcd.h"
#define JV_MAX 1024

uint64_t jv_h[JV_MAX], jv_G[JV_MAX + 1], jv_S[JV_MAX + 1];
size_t jv_nelem;
int jv_divzero;

static uint64_t jv_abs(uint64_t a, uint64_t b) { return a >= b ? a - b : b - a; }
#ifdef JV_CBMC
uint64_t __CPROVER_uninterpreted_gcd(uint64_t, uint64_t);
static uint64_t jv_gcdf(uint64_t a, uint64_t b)
{
	uint64_t hi = a >= b ? a : b, lo = a >= b ? b : a;

	return lo ? __CPROVER_uninterpreted_gcd(hi, lo) : hi;
}
static uint64_t jv_umod(uint64_t a, uint64_t b)
{
	uint64_t r;

	if (!b) {
		jv_divzero = 1;
		return 0;
	}
	__CPROVER_assume(r < b && r <= a && jv_gcdf(a, b) == jv_gcdf(b, r));
	return r;
}
#else
static uint64_t jv_gcdf(uint64_t a, uint64_t b)
{
	while (b) {
		uint64_t t = a % b;

		a = b;
		b = t;
	}
	return a;
}
static uint64_t jv_umod(uint64_t a, uint64_t b)
{
	if (!b) {
		jv_divzero = 1;
		return 0;
	}
	return a % b;
}
#endif
/* the recurrences at one position: instances of their definition */
static int jv_def(uint64_t i)
{
	return i < 1 || i >= jv_nelem ||
	       (jv_G[i + 1] == jv_gcdf(jv_h[i], jv_G[i]) &&
		jv_S[i + 1] == jv_S[i] + jv_abs(jv_h[i], jv_h[i - 1]));
}

static void jv_series(void)
{
	unsigned int i;

	jv_nelem = (size_t)(jv_u64() & 2047);
	JV_ASSUME(jv_nelem <= JV_MAX);
#ifdef JV_CBMC
	__CPROVER_havoc_object(jv_h);
	__CPROVER_havoc_object(jv_G);
	__CPROVER_havoc_object(jv_S);
	for (i = 0; i < 4; i++)
		jv_h[i] = jv_u64();
	jv_S[1] = 0;
	jv_G[1] = jv_h[0];
#else
	for (i = 0; i < jv_nelem || i < 4; i++)
		jv_h[i] = jv_u64();
	jv_S[1] = 0;
	jv_G[1] = jv_h[0];
	for (i = 1; i < jv_nelem; i++) {
		jv_G[i + 1] = jv_gcdf(jv_h[i], jv_G[i]);
		jv_S[i + 1] = jv_S[i] + jv_abs(jv_h[i], jv_h[i - 1]);
	}
#endif
}
static void jv_loop_entry(int l) { (void)l; }
static void jv_loop_havoc(void) { }

#include "arch/jitterentropy-arch-atomic.c"
#define jent_umod64 jv_umod
#include JV_TU

int jv_pub;
uint64_t jv_val;

static void step(void)
{
	size_t osr;
	uint64_t v = 0, g, s;
	int r, k, usable;

	jv_series();
	osr = (size_t)(jv_u64() & 31);
	JV_ASSUME(osr >= JENT_MIN_OSR && osr <= JENT_MAX_OSR);
	usable = jv_nelem && !jv_bool();
	k = jent_gcd_get(&v);
	JV_CHECK(!!k == !jv_pub && (k || v == jv_val), "the divisor in use does not change between analyses");
	r = jent_gcd_analyze(usable || !jv_nelem ? jv_h : NULL, jv_nelem, osr);
	JV_CHECK(!jv_divzero, "no division by zero");
	if (usable) {
		g = jv_G[jv_nelem];
		s = jv_S[jv_nelem];
		if (s * osr < jv_nelem) {
			JV_CHECK(r == EMINVARVAR, "insufficient variation is refused");
		} else if (g >= 0x7fffffffu) {
			JV_CHECK(r == ECOARSETIME, "a coarse timer is refused");
		} else {
			JV_CHECK(r == 0, "an acceptable series is accepted");
			JV_COVER(!jv_pub && g, "publication");
			JV_COVER(jv_pub && g != jv_val, "a different divisor later on");
			if (!jv_pub && g) {
				jv_pub = 1;
				jv_val = g;
			}
		}
		JV_COVER(r == ECOARSETIME, "coarse");
		JV_COVER(r == EMINVARVAR && jv_nelem > 1, "no variation");
	}
	v = 0;
	k = jent_gcd_get(&v);
	JV_CHECK(!!k == !jv_pub, "exactly the first accepted series publishes its divisor");
	JV_CHECK(k || v == jv_val, "the published divisor is the greatest common divisor of that series");
	JV_CHECK(k || v, "the divisor is never zero");
}

void jv_harness(void)
{
	step();
	step();
}
