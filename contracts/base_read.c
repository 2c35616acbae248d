/*
 * Contract of jent_read_entropy().
 * JV_P 1: no bytes after a failure (C01); 2: error codes (C02);
 * 3: exact filling and accounting (C03); 4: self-test verdict (C29, also jent_selftest()).
 *
 * Callees by contract: jent_random_data (noise_collect.c), jent_health_failure
 * (health_failure.c), jent_read_random_block (sha3_drbg.c: writes exactly dst_len
 * bytes at dst), jent_notime_settick/unsettick (timer_tick.c).
 */
#include "ec.h"
#include "src/jitterentropy-noise.h"
#include "src/jitterentropy-health.h"
#include "src/jitterentropy-timer.h"
#include "src/jitterentropy-gcd.h"
#include "src/jitterentropy-sha3.h"
#include "src/jitterentropy-base.h"

struct rand_data jv_ec, jv_old, jv_e[4];
static char jv_byte[1];
char *jv_base;		/* caller's buffer */
size_t jv_len;		/* requested bytes */
uint64_t jv_done;	/* ghost: bytes written so far, consecutively from jv_base */
int jv_running;		/* ghost: clock thread is running */
int jv_starts;
int jv_notime_err;
int jv_fresh;		/* ghost: a collection was made for the next block */
int jv_bad_block, jv_bad_clock, jv_blind, jv_unfresh, jv_marked;

int jent_notime_settick(struct rand_data *ec)
{
	JV_CHECK(ec == &jv_ec, "the collector's own clock is started");
	if (jv_running)
		jv_bad_clock = 1;
	if (jv_starts < 2)
		jv_starts++;
	if (ec->enable_notime && jv_bool()) {
		jv_notime_err = 1;
		return jv_bool() ? -22 : 12;
	}
	jv_running = 1;
	return 0;
}

void jent_notime_unsettick(struct rand_data *ec)
{
	JV_CHECK(ec == &jv_ec, "the collector's own clock is stopped");
	jv_running = 0;
}

void jent_random_data(struct rand_data *ec)
{
	JV_CHECK(ec == &jv_ec, "the collector itself collects");
	if (!jv_running)
		jv_bad_clock = 1;
	ec->health_failure |= JV_T(unsigned int);
	ec->prev_time = JV_T(uint64_t);
	ec->rct_count = JV_T(unsigned int);
	ec->apt_count = JV_T(unsigned int);
	ec->memlocation = JV_T(unsigned int);
	ec->startup_state = jent_startup_completed;
	jv_fresh = 1;
}

unsigned int jent_health_failure(struct rand_data *ec)
{
	return ec->is_fips_enabled ? ec->health_failure : 0;
}

void jent_read_random_block(struct rand_data *ec, char *dst, size_t dst_len)
{
	JV_CHECK(ec == &jv_ec, "the collector itself delivers");
	if (dst != jv_base + jv_done || !dst_len || dst_len > DATA_SIZE_BITS / 8 ||
	    dst_len > jv_len - jv_done)
		jv_bad_block = 1;
	if (ec->is_fips_enabled && ec->health_failure)
		jv_blind = 1;
	if (ec->selftest_failed)
		jv_marked = 1;
	if (!jv_fresh)
		jv_unfresh = 1;
	jv_fresh = 0;
	jv_done += dst_len;
#ifndef JV_CBMC
	memset(dst, 0xa5, dst_len);
#endif
}

int jv_kat;
int jent_sha3_tester(void) { return jv_kat; }

static void jv_loop_entry(int l) { jv_e[l] = jv_ec; }
static int jv_frame(int l)
{
	return jv_same(&jv_ec, &jv_e[l], G_CFG | G_ID | G_SELF | G_NOTIME) &&
	       (jv_ec.health_failure & jv_e[l].health_failure) == jv_e[l].health_failure;
}
static void jv_loop_havoc(void)
{
#ifdef JV_CBMC
	__CPROVER_havoc_object(&jv_ec);
	__CPROVER_havoc_object(&jv_done);
	__CPROVER_havoc_object(&jv_fresh);
	__CPROVER_havoc_object(&jv_running);
	__CPROVER_havoc_object(&jv_bad_block);
	__CPROVER_havoc_object(&jv_bad_clock);
	__CPROVER_havoc_object(&jv_blind);
	__CPROVER_havoc_object(&jv_unfresh);
	__CPROVER_havoc_object(&jv_marked);
	__CPROVER_assume(jv_done < (1ul << 51));
#endif
}

#include JV_TU

/* documented precedence */
static ssize_t expected_code(unsigned int f)
{
	if (f & JENT_RCT_FAILURE_PERMANENT)
		return JENT_ERR_RCT_PERMANENT;
	if (f & JENT_APT_FAILURE_PERMANENT)
		return JENT_ERR_APT_PERMANENT;
	if (f & JENT_LAG_FAILURE_PERMANENT)
		return JENT_ERR_LAG_PERMANENT;
	if (f & JENT_RCT_MEM_FAILURE_PERMANENT)
		return JENT_ERR_RCT_MEM_PERMANENT;
	if (f & JENT_RCT_FAILURE)
		return JENT_ERR_RCT;
	if (f & JENT_APT_FAILURE)
		return JENT_ERR_APT;
	if (f & JENT_RCT_MEM_FAILURE)
		return JENT_ERR_RCT_MEM;
	return JENT_ERR_LAG;
}

#define JV_KNOWN 0x000f000fu

void jv_harness(void)
{
	ssize_t r;
	int missing = (int)(jv_u64() & 3);	/* 1: no collector, 2: no buffer */

	jv_fill_ec(&jv_ec);
	jv_len = (size_t)jv_u64();
#ifdef JV_CBMC
	JV_ASSUME(jv_len <= (1ul << 50));
	jv_base = jv_byte;	/* only its address is used */
#else
	JV_ASSUME(jv_len <= 4096);
	jv_base = malloc(jv_len + 64);
	memset(jv_base, 0x11, jv_len + 64);
#endif
	jv_kat = jv_bool();
	jv_old = jv_ec;
#if JV_P == 4
	if (jv_bool()) {
		/* self test bound to the collector, or to none */
		struct rand_data *b = jv_bool() ? &jv_ec : NULL;
		int s = jent_selftest(b);

		JV_CHECK(s == (jv_kat ? EHASH : 0), "the self test returns its verdict");
		JV_CHECK(!!jv_ec.selftest_failed == (jv_old.selftest_failed || (b && jv_kat)),
			 "a failed self test marks the collector, a passed one lifts no mark");
		jv_ec.selftest_failed = jv_old.selftest_failed;
		JV_CHECK(jv_same(&jv_ec, &jv_old, G_ALL), "the self test changes nothing else");
		jv_ec.selftest_failed = jv_old.selftest_failed || (b && jv_kat);
		JV_COVER(b && jv_kat, "self test fails");
		jv_old = jv_ec;
	}
#endif
	r = jent_read_entropy(missing & 1 ? NULL : &jv_ec, missing & 2 ? NULL : jv_base, jv_len);

	if ((missing & 1) || ((missing & 2) && jv_len)) {
		JV_CHECK(r == JENT_ERR_EINVAL, "misuse is rejected as invalid");
		JV_CHECK(!jv_done && !jv_starts && jv_same(&jv_ec, &jv_old, G_ALL), "misuse has no effect");
		JV_COVER(missing & 1, "no collector");
		return;
	}
#if JV_P == 1
	JV_CHECK(!jv_blind, "no byte is generated once a failure is recorded");
	JV_CHECK(!jv_unfresh, "each block follows a collection of its own");
	JV_CHECK((jv_ec.health_failure & jv_old.health_failure) == jv_old.health_failure,
		 "a read never clears a recorded failure");
	JV_CHECK(!(jv_old.is_fips_enabled && jv_old.health_failure && jv_len) || (r < 0 && !jv_done),
		 "every later read of a failed collector fails and delivers nothing");
	JV_CHECK(!(jv_ec.is_fips_enabled && jv_ec.health_failure && jv_len) || r < 0,
		 "a failure makes the call fail");
	JV_COVER(r < 0 && jv_done > 100, "failure after some blocks");
	JV_COVER(r > 1000, "long read");
#elif JV_P == 2
	if (jv_notime_err)
		JV_CHECK(r == JENT_ERR_NOTIME, "a clock thread that cannot start is reported");
	else if (!jv_len)
		JV_CHECK(r == 0, "an empty read succeeds");
	else if (jv_ec.selftest_failed)
		JV_CHECK(r == JENT_ERR_SELFTEST, "a failed self test has its own code");
	else if (jv_ec.is_fips_enabled && jv_ec.health_failure)
		JV_CHECK((jv_ec.health_failure & ~JV_KNOWN) ? r < 0 : r == expected_code(jv_ec.health_failure),
			 "the code names the recorded failure of highest precedence");
	else
		JV_CHECK(r > 0, "no error without a failure");
	JV_CHECK(r >= -11, "only documented codes");
	JV_COVER(r == JENT_ERR_LAG, "lag failure");
	JV_COVER(r == JENT_ERR_NOTIME, "no clock");
#elif JV_P == 3
	JV_CHECK(!jv_bad_block, "blocks are written consecutively inside the buffer");
	JV_CHECK(!jv_bad_clock, "the clock runs during every collection and is started once");
	JV_CHECK(!jv_running, "the clock is stopped on every path");
	if (r >= 0) {
		JV_CHECK((size_t)r == jv_len && jv_done == jv_len, "exactly the requested bytes are written");
		JV_CHECK(jv_ec.read_invocations == jv_old.read_invocations + 1 &&
			 jv_ec.bytes_output == jv_old.bytes_output + jv_len, "a success is accounted for once");
	} else {
		JV_CHECK(jv_ec.read_invocations == jv_old.read_invocations &&
			 jv_ec.bytes_output == jv_old.bytes_output, "a failure moves no counter");
	}
	jv_ec.read_invocations = jv_old.read_invocations;
	jv_ec.bytes_output = jv_old.bytes_output;
	JV_CHECK(jv_same(&jv_ec, &jv_old, G_CFG | G_ID | G_SELF), "configuration and identity stay");
	JV_COVER(r > 1000, "long read");
	JV_COVER(r == 0, "empty read");
#else
	JV_CHECK(!jv_marked, "no byte is delivered by a marked collector");
	JV_CHECK(!jv_old.selftest_failed || !jv_len || (!jv_done && (r == JENT_ERR_SELFTEST || r == JENT_ERR_NOTIME)),
		 "a marked collector returns the self-test code in every mode");
	JV_CHECK(jv_ec.selftest_failed == jv_old.selftest_failed, "a read lifts no mark");
	JV_COVER(r == JENT_ERR_SELFTEST, "marked");
	JV_COVER(r > 0, "unmarked");
#endif
#ifndef JV_CBMC
	{
		size_t i;
		for (i = 0; i < jv_len + 64; i++)
			JV_CHECK((unsigned char)jv_base[i] == (i < jv_done ? 0xa5 : 0x11), "only delivered bytes are written");
	}
#endif
}
