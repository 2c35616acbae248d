/*
 * Contract of jent_entropy_init(), jent_entropy_init_ex() and of the gate in
 * jent_entropy_collector_alloc() (C21; the freezing of the configuration: C23).
 *
 * Any three calls in any order are made: initialisations and allocations with any
 * arguments, every self test and every qualification passing or failing at will.
 * The only state between calls is the latch, so this covers every history.
 *
 * Callees by contract: jent_sha3_tester, jent_gcd_selftest, jent_time_entropy_init
 * (base_qual.c), the block functions (timer.c, health.c), jent_zalloc (always fails
 * here: what is decided is whether the allocation is reached at all).
 */
#include "jv.h"
#include "src/jitterentropy-internal.h"
#include "src/jitterentropy-noise.h"
#include "src/jitterentropy-health.h"
#include "src/jitterentropy-timer.h"
#include "src/jitterentropy-gcd.h"
#include "src/jitterentropy-sha3.h"
#include "src/jitterentropy-base.h"
#include "arch/jitterentropy-arch-atomic.h"

struct attempt {
	unsigned int osr, flags;
	int ret;
};
int jv_valid;			/* ghost: the last initialisation passed */
int jv_sha, jv_sha_ret, jv_gcd, jv_gcd_ret, jv_n, jv_many;
unsigned int jv_gcd_flags;
struct attempt jv_t[2];
int jv_blk_t, jv_blk_h, jv_late;
int jv_locked, jv_reached, jv_order;

static void jv_reset(void)
{
	jv_sha = jv_sha_ret = jv_gcd = jv_gcd_ret = jv_n = jv_many = 0;
	jv_blk_t = jv_blk_h = jv_late = 0;
	jv_order = jv_reached = 0;
}

void jent_notime_block_switch(void) { jv_blk_t = 1; }
void jent_health_cb_block_switch(void) { jv_blk_h = 1; }

int jent_sha3_tester(void)
{
	if (!jv_blk_t || !jv_blk_h)
		jv_late = 1;
	jv_sha = 1;
	if (!jv_sha_ret)
		jv_sha_ret = jv_bool();
	return jv_sha_ret;
}

int jent_gcd_selftest(unsigned int flags)
{
	if (!jv_blk_t || !jv_blk_h)
		jv_late = 1;
	jv_gcd = 1;
	jv_gcd_flags = flags;
	if (!jv_gcd_ret)
		jv_gcd_ret = (int)(jv_u64() & 15);
	return jv_gcd_ret;
}

int jent_time_entropy_init__jv(unsigned int osr, unsigned int flags)
{
	int r = (int)(jv_u64() & 15);

	if (!jv_blk_t || !jv_blk_h)
		jv_late = 1;
	if (jv_n >= 2) {
		jv_many = 1;
		return r;
	}
	jv_t[jv_n].osr = osr;
	jv_t[jv_n].flags = flags;
	jv_t[jv_n].ret = r;
	jv_n++;
	return r;
}

/* the run recorded in the ghosts qualifies: every self test passed and a permitted timer with it */
static int jv_passed(void)
{
	return jv_sha && !jv_sha_ret && jv_gcd && !jv_gcd_ret &&
	       ((jv_n >= 1 && !jv_t[0].ret) || (jv_n >= 2 && !jv_t[1].ret));
}
static int jv_ran(void) { return jv_sha || jv_gcd || jv_n; }

void *jent_zalloc(size_t len, unsigned int flags)
{
	(void)len; (void)flags;
	jv_reached = 1;
	if (jv_ran() ? !jv_passed() : !jv_valid)
		jv_locked = 1;
	return NULL;
}
/* the allocation refuses some requests before it asks for memory; never frees here */
int jv_fips;
int jent_fips_enabled(void) { return jv_fips; }
int jent_notime_forced(void) { return jv_bool(); }
uint32_t jent_cache_size_roundup(int all) { (void)all; return 0; }

static int code_of(unsigned int osr, unsigned int f, int *bad)
{
	int k = 0, r = ENOTIME;

	*bad = 0;
	if (!jv_sha)
		*bad = 1;
	if (jv_sha_ret)
		return EHASH;
	if (!jv_gcd || jv_gcd_flags != f)
		*bad = 2;
	if (jv_gcd_ret)
		return jv_gcd_ret;
	if (!(f & JENT_FORCE_INTERNAL_TIMER)) {
		if (jv_n < 1 || jv_t[0].osr != osr || (jv_t[0].flags | JENT_DISABLE_INTERNAL_TIMER) != (f | JENT_DISABLE_INTERNAL_TIMER)) {
			*bad = 3;
			return 0;
		}
		r = jv_t[0].ret;
		k = 1;
	}
#ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
	if (r && !(f & (JENT_DISABLE_INTERNAL_TIMER | JENT_NTG1))) {
		if (jv_n < k + 1 || jv_t[k].osr != osr || jv_t[k].flags != (f | JENT_FORCE_INTERNAL_TIMER)) {
			*bad = 4;
			return 0;
		}
		r = jv_t[k].ret;
		k++;
	}
#endif
	if (jv_n != k)
		*bad = 5;
	return r;
}

static void check_init(int r, unsigned int osr, unsigned int flags)
{
	unsigned int f = flags;
	int bad, want, i;

	if (f & (JENT_NTG1 | JENT_FORCE_FIPS))
		f |= JENT_FORCE_SECURE_MEM;
	want = code_of(osr, f, &bad);
#if JV_P == 1
	JV_CHECK(!r || !jv_passed(), "passing everything is success");
	JV_CHECK(r || jv_passed(), "success only if hash test, arithmetic test and a timer qualification passed");
	JV_CHECK(r == want, "the code of what failed is returned");
	JV_CHECK(!bad && !jv_many, "self tests and qualification run for the rate and flags given, only with permitted timers");
	for (i = 0; i < jv_n; i++)
		JV_CHECK(!(flags & JENT_NTG1) || !(jv_t[i].flags & JENT_FORCE_INTERNAL_TIMER), "NTG.1 never uses the internal timer");
	JV_COVER(r == 0, "success");
	JV_COVER(r == EHASH, "hash failure");
#ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
	JV_COVER(r == 0 && jv_n && (jv_t[jv_n - 1].flags & JENT_FORCE_INTERNAL_TIMER), "internal timer");
#endif
#else
	JV_CHECK(jv_blk_t && jv_blk_h && !jv_late, "the configuration is frozen before anything else happens");
	JV_COVER(r == 0, "success");
#endif
	jv_valid = !r;
}

#if JV_P == 2
const void *jv_arg;
unsigned long jv_cpu_arg;
int jv_cfg_n, jv_cfg_ret;
int jent_notime_switch(struct jent_notime_thread *t) { jv_arg = t; jv_cfg_n += 1; return jv_cfg_ret; }
int jent_notime_set_cpu(unsigned long cpu) { jv_cpu_arg = cpu; jv_cfg_n += 10; return jv_cfg_ret; }
int jent_set_fips_failure_callback_internal(jent_fips_failure_cb cb) { jv_arg = (const void *)cb; jv_cfg_n += 100; return jv_cfg_ret; }
static struct jent_notime_thread jv_thr;
static void jv_cb(struct rand_data *ec, unsigned int hf) { (void)ec; (void)hf; }
#endif
#include "arch/jitterentropy-arch-atomic.c"
#include JV_TU

static void step(void)
{
	unsigned int op = (unsigned int)(jv_u64() & 3), osr = JV_T(unsigned int), flags = JV_T(unsigned int);
	int r;

	jv_reset();
	if (op == 0) {
		r = jent_entropy_init();
		check_init(r, 0, 0);
	} else if (op == 1) {
		r = jent_entropy_init_ex(osr, flags);
		check_init(r, osr, flags);
	} else {
		struct rand_data *e = jent_entropy_collector_alloc(osr, flags);

		JV_CHECK(!e, "no memory, no collector");
		if (jv_ran()) {
			jv_valid = jv_passed();
#if JV_P == 2
			JV_CHECK(jv_blk_t && jv_blk_h && !jv_late, "the configuration is frozen before anything else happens");
#endif
		}
#if JV_P == 1
		JV_CHECK(!jv_locked, "no collector after a failed initialisation without a complete and passed qualification");
		JV_COVER(jv_reached && !jv_ran(), "allocation after successful initialisation");
		JV_COVER(jv_reached && jv_ran(), "allocation after its own qualification");
		JV_COVER(!jv_reached && jv_ran(), "refused");
#else
		JV_COVER(jv_ran(), "allocation qualifies");
#endif
	}
}

void jv_harness(void)
{
#if JV_P == 2
	unsigned long cpu = JV_T(unsigned long);

	jv_cfg_ret = (int)jv_u64();
	JV_CHECK(jent_entropy_switch_notime_impl(&jv_thr) == jv_cfg_ret && jv_arg == &jv_thr && jv_cfg_n == 1, "the implementation is handed over");
	JV_CHECK(jent_entropy_set_notime_cpu(cpu) == jv_cfg_ret && jv_cpu_arg == cpu && jv_cfg_n == 11, "the CPU is handed over");
	JV_CHECK(jent_set_fips_failure_callback(jv_cb) == jv_cfg_ret && jv_arg == (const void *)jv_cb && jv_cfg_n == 111, "the callback is handed over");
#endif
	jv_fips = jv_bool();
	step();
	step();
	step();
}
