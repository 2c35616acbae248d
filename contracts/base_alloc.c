/*
 * Contract of jent_entropy_collector_alloc() and jent_entropy_collector_free().
 * JV_P 1: refusals and configuration (C16)   2: resources (C17)
 *      3: start-up before hand-out (C24)      4: flag mapping (C28)
 *      5: release (C15)
 */
#include "base_env.h"

unsigned int jv_osr, jv_flags;

#define JV_LOOP_FLAGS (JENT_NTG1 | JENT_FORCE_FIPS)

/* contract of jent_entropy_init_ex(), see base_init.c */
int jent_entropy_init_ex__jv(unsigned int osr, unsigned int flags)
{
	int r = (int)(jv_u64() & 15);

	if (r) {
		jv_latch = 0;
	} else {
		jv_latch = 1;
		jv_q_osr = osr;
		jv_q_flags = flags;
	}
	if (!(flags & (JENT_DISABLE_INTERNAL_TIMER | JENT_NTG1)) && jv_bool())
		jv_forced = 1;
	return r;
}

int jent_atomic_load_int(int *ptr)
{
	(void)ptr;
	return jv_latch;
}
void jent_atomic_store_int(int *ptr, int val)
{
	(void)ptr;
	jv_latch = val;
}

static unsigned int eff_flags(void)
{
	unsigned int f = jv_flags;

	if (f & (JENT_NTG1 | JENT_FORCE_FIPS))
		f |= JENT_FORCE_SECURE_MEM;
	if (f & JENT_NTG1)
		f |= JENT_DISABLE_INTERNAL_TIMER;
	return f;
}

static int jv_strict(void)
{
	return (jv_flags & (JENT_NTG1 | JENT_FORCE_FIPS)) || jv_fips;
}

/* configuration that every collector of this request has, start-up resets included */
static int jv_cfg_ok(const struct rand_data *e)
{
	unsigned int f = e->flags;
#if JV_P == 4
	unsigned int m = f >> JENT_FLAGS_TO_MEMSIZE_SHIFT, h = (f >> 24) & 7, h0 = (jv_flags >> 24) & 7;
#endif
	unsigned int o = jv_osr < JENT_MIN_OSR ? JENT_MIN_OSR : jv_osr;

	if ((f & ~JV_FIELDS) != (eff_flags() & ~JV_FIELDS))
		return 0;
	if (e->osr < o || e->osr > JENT_MAX_OSR || (!jv_resets && e->osr != o) || (jv_resets && e->osr == o))
		return 0;
	if (!!e->is_fips_enabled != jv_strict())
		return 0;
	if ((jv_flags & (JENT_NTG1 | JENT_DISABLE_INTERNAL_TIMER)) && e->enable_notime)
		return 0;
#if JV_P == 1
	if (e->jent_common_timer_gcd != (jv_gcd_known ? jv_gcd : 1))
		return 0;
	if ((jv_flags & JENT_FORCE_INTERNAL_TIMER) && !(jv_flags & JENT_NTG1) && !e->enable_notime)
		return 0;
	if (e->selftest_failed || e->read_invocations || e->bytes_output)
		return 0;
	if (!(jv_flags & JENT_DISABLE_MEMORY_ACCESS) && e->memaccessloops != JENT_MEM_ACC_LOOP_DEFAULT)
		return 0;
#endif
#if JV_P == 4
	if (jv_resets ? (h < h0 || (h == h0 && h0 != 7)) : h != h0)
		return 0;
	if (e->hashloopcnt != (1u << h))
		return 0;
	if (!!e->max_mem_set != !!(jv_flags >> JENT_FLAGS_TO_MEMSIZE_SHIFT))
		return 0;
	if (jv_flags & JENT_DISABLE_MEMORY_ACCESS) {
		if (e->mem || e->memmask || e->memaccessloops)
			return 0;
	} else {
		unsigned int m0 = jv_mem_field(jv_flags);

		if (m > 20)
			return 0;
		if (e->max_mem_set ? m != m0 : jv_resets ? m < m0 : m != m0)
			return 0;
		if (e->memmask != JV_MEM_SIZE(m) - 1 || e->memaccessloops != JENT_MEM_ACC_LOOP_DEFAULT)
			return 0;
	}
#endif
	return 1;
}

/* exactly the resources of collector i are held */
static int jv_held(int i)
{
	const struct rand_data *e = &JC(i);

	return jv_s[i].live == 1 && jv_s[i].hash == 1 && e->hash_state == (void *)jv_h[i] &&
	       jv_s[i].mem == !(jv_flags & JENT_DISABLE_MEMORY_ACCESS) &&
	       e->mem == (jv_s[i].mem ? jv_m[i] : NULL) &&
	       (!jv_s[i].mem || jv_s[i].memsize == (size_t)e->memmask + 1) &&
	       jv_s[i].nt == (int)e->enable_notime &&
	       e->notime_thread_ctx == (jv_s[i].nt ? jv_n[i] : NULL);
}
static int jv_none(int i)
{
	return !jv_s[i].live && !jv_s[i].mem && !jv_s[i].hash && !jv_s[i].nt && !jv_s[i].run;
}

static int jv_armed(int i)
{
	return jv_s[i].shake && jv_s[i].armed == (jv_flags & JENT_NTG1 ? 2 : 1);
}
/* no start-up collection is skipped */
static int jv_start_ok(int i)
{
	const struct rand_data *e = &JC(i);

	return e->startup_state == jent_startup_completed ? (jv_s[i].started || !jv_strict()) :
	       (jv_strict() && e->startup_state == jent_startup_memory && !jv_s[i].started);
}

static void jv_loop_entry(int l)
{
	(void)l;
}
static int jv_ok(int i)
{
	return jv_held(i) && jv_none(1 - i) && jv_cfg_ok(&JC(i)) &&
	       jv_s[i].run == (int)JC(i).enable_notime && jv_armed(i) && jv_start_ok(i) &&
	       jv_resets <= 1 && jv_live_ec == &JC(i) &&
	       (jv_resets ? jv_s[i].dup == 15 : jv_s[i].dup == 0) &&
	       (jv_latch == 0 || jv_latch == 1) && (jv_forced == 0 || jv_forced == 1);
}
static int jv_hard(int l)
{
	int i = jv_new;

	(void)l;
	return (i == 0 || i == 1) && (i ? jv_ok(1) : jv_ok(0));
}
static int jv_timer_ok(void)
{
	return !(jv_forced && (jv_flags & (JENT_DISABLE_INTERNAL_TIMER | JENT_NTG1))) &&
	       (!JC(jv_new).enable_notime || jv_forced || (jv_flags & JENT_FORCE_INTERNAL_TIMER));
}
static int jv_good(void)
{
	return !jv_flag_bad && !jv_bad_clock && !jv_res_bad && !jv_unqual && !jv_dup_bad && !jv_arm_bad && !jv_stale;
}
static void jv_loop_havoc(void)
{
#ifdef JV_CBMC
	struct rand_data x, y;
	struct slot s;
	const int i = 0;	/* the slots are interchangeable: call the live one 0 */
	_Bool nd2, nd3, nd4;

	jv_c0 = x;
	jv_c1 = y;
	jv_new = i;
	jv_live_ec = &JC(i);
	jv_s[1] = jv_noslot;
	jv_s[0] = s;
	jv_s[i].live = jv_s[i].hash = 1;
	jv_s[i].mem = !(jv_flags & JENT_DISABLE_MEMORY_ACCESS);
	JC(i).hash_state = jv_h[i];
	JC(i).mem = jv_s[i].mem ? jv_m[i] : NULL;
	jv_s[i].memsize = (size_t)JC(i).memmask + 1;
	jv_s[i].nt = jv_s[i].run = JC(i).enable_notime;
	JC(i).notime_thread_ctx = jv_s[i].nt ? jv_n[i] : NULL;
	jv_s[i].armed = jv_flags & JENT_NTG1 ? 2 : 1;
	jv_latch = nd2;
	jv_forced = nd3;
	jv_resets = nd4;
	jv_s[i].dup = jv_resets ? 15 : 0;
	__CPROVER_havoc_object(&jv_q_osr);
	__CPROVER_havoc_object(&jv_q_flags);
	__CPROVER_havoc_object(&jv_flag_bad);
	__CPROVER_havoc_object(&jv_bad_clock);
	__CPROVER_havoc_object(&jv_res_bad);
	__CPROVER_havoc_object(&jv_unqual);
	__CPROVER_havoc_object(&jv_dup_bad);
	__CPROVER_havoc_object(&jv_arm_bad);
	__CPROVER_havoc_object(&jv_stale);
	__CPROVER_assume(jv_hard(0));
#endif
}

#include JV_TU

#if JV_P == 5
/* any stage of construction */
static void release_harness(void)
{
	struct rand_data *e = &jv_c0;

	jv_fill_ec(e);
	jv_s[0].live = 1;
	jv_s[0].mem = jv_bool();
	jv_s[0].hash = jv_bool();
	jv_s[0].nt = jv_bool();
	jv_s[0].run = jv_s[0].nt && jv_bool();
	if (jv_s[0].nt)
		e->enable_notime = 1;
	e->memmask &= (1u << 29) - 1;
	if (jv_s[0].mem) {
		e->mem = jv_m[0];
		jv_s[0].memsize = (size_t)e->memmask + 1;
	}
	if (jv_s[0].hash)
		e->hash_state = jv_h[0];
	if (jv_s[0].nt)
		e->notime_thread_ctx = jv_n[0];
	JV_COVER(jv_s[0].mem && jv_s[0].hash && jv_s[0].run, "complete collector with running clock");
	JV_COVER(!jv_s[0].mem && !jv_s[0].hash, "empty collector");
	jent_entropy_collector_free(jv_bool() ? e : NULL);
	if (!jv_s[0].live) {
		JV_CHECK(jv_none(0), "everything the collector held is released");
	} else {
		JV_COVER(1, "release of nothing");
	}
	JV_CHECK(!jv_res_bad, "stopped before, released once, with the right size, the collector last");
}
#endif

void jv_harness(void)
{
	struct rand_data *ec;

	jv_env_init();
#if JV_P == 5
	release_harness();
	return;
#endif
	jv_osr = JV_T(unsigned int);
	jv_flags = JV_T(unsigned int);
	jv_need = (jv_flags & (JENT_NTG1 | JENT_FORCE_FIPS | JENT_FORCE_SECURE_MEM)) ? JENT_FORCE_SECURE_MEM : 0;
	ec = jent_entropy_collector_alloc(jv_osr, jv_flags);
#if JV_P == 1
	JV_CHECK(!jv_unqual, "no collector without passed self tests and timer qualification");
	JV_CHECK(!jv_flag_bad, "locked memory is demanded for every allocation in FIPS and NTG.1 operation or on request");
	JV_CHECK(!jv_arm_bad && !jv_stale, "health tests and pool are set up before the first collection");
	if (ec) {
		int i = slot_of(ec);

		JV_CHECK(i >= 0 && jv_s[i].live, "a live collector is returned");
		JV_CHECK(jv_latch, "the last qualification passed");
		JV_CHECK(!((jv_flags & JENT_FORCE_INTERNAL_TIMER) && (jv_flags & JENT_DISABLE_INTERNAL_TIMER)),
			 "the internal timer is not both forced and disabled");
		JV_CHECK(jv_osr <= JENT_MAX_OSR, "the oversampling rate is at most 20");
		JV_CHECK(!((jv_flags & JENT_DISABLE_MEMORY_ACCESS) && jv_strict()),
			 "memory access is not disabled in FIPS or NTG.1 operation");
		JV_CHECK(!(jv_flags & (JENT_DISABLE_INTERNAL_TIMER | JENT_NTG1)) || !ec->enable_notime,
			 "the internal timer is not used when disabled or in NTG.1");
		JV_CHECK(!(jv_forced && (jv_flags & (JENT_DISABLE_INTERNAL_TIMER | JENT_NTG1))),
			 "the internal timer is not disabled where it is the only usable one");
		JV_CHECK(!ec->enable_notime || (jv_forced || (jv_flags & JENT_FORCE_INTERNAL_TIMER)),
			 "the internal timer is used only where it is forced");
		JV_CHECK(jv_cfg_ok(ec), "the collector carries the requested configuration");
		JV_CHECK(jv_armed(i) && (!jv_resets || jv_s[i].dup == 15), "the health tests are set up for the mode");
		JV_COVER(ec->enable_notime, "internal timer");
		JV_COVER(jv_flags & JENT_NTG1, "NTG.1");
	}
	JV_COVER(!ec, "refused");
#elif JV_P == 2
	JV_CHECK(!jv_res_bad, "no resource is released twice, used after release or lost");
	JV_CHECK(!jv_bad_clock, "the clock thread runs during every collection and is started only once");
	if (ec) {
		int i = slot_of(ec);

		JV_CHECK(i >= 0 && jv_held(i) && jv_none(1 - i), "exactly the returned collector's resources are held");
		JV_CHECK(i >= 0 && !jv_s[i].run, "its clock thread is not running");
	} else {
		JV_CHECK(jv_none(0) && jv_none(1), "nothing is left behind");
	}
	JV_COVER(ec && ec->enable_notime, "success with clock");
	JV_COVER(!ec && jv_forced, "failure with clock");
#elif JV_P == 3
	if (ec) {
		int i = slot_of(ec);

		JV_CHECK(i >= 0 && jv_s[i].live && jv_s[i].started && ec->startup_state == jent_startup_completed,
			 "the start-up of this very collector is complete");
		JV_CHECK(!ec->is_fips_enabled || !ec->health_failure, "with no failure recorded");
		JV_CHECK(!!ec->is_fips_enabled == jv_strict(), "the mode follows the request and the system");
		JV_CHECK(jv_s[i].uuid, "an identifier is assigned");
		JV_COVER(ec->is_fips_enabled, "strict");
	}
	JV_CHECK(!jv_arm_bad, "health tests armed for the mode before the first collection");
	JV_CHECK(!jv_dup_bad, "replacements continue the health state");
#elif JV_P == 4
	if (ec) {
		unsigned int m = ec->flags >> JENT_FLAGS_TO_MEMSIZE_SHIFT;

		JV_CHECK(jv_cfg_ok(ec), "memory size, hash loops and flags are the documented functions of the request");
		if (ec->mem) {
			int i = slot_of(ec);

			JV_CHECK(i >= 0 && jv_s[i].memsize == (size_t)ec->memmask + 1, "the mask is the size minus one");
			JV_CHECK(jent_memsize(ec->flags) == (size_t)ec->memmask + 1, "the reported size is the real one");
			JV_CHECK((size_t)ec->memmask + 1 <= (1u << 29), "at most 512 MB");
			JV_COVER(m == 20, "maximum");
		}
		JV_CHECK(jent_hashloop_cnt(ec->flags) == ec->hashloopcnt, "the reported loop count is the real one");
	}
	{
		unsigned int f = JV_T(unsigned int), n = f >> JENT_FLAGS_TO_MEMSIZE_SHIFT;

		JV_CHECK(jent_memsize(f) == JV_MEM_SIZE(n > 20 ? 20 : n), "size of a flag word");
		JV_CHECK(jent_hashloop_cnt(f) == (1u << ((f >> 24) & 7)), "hash loops of a flag word");
	}
#endif
}
