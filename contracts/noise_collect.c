/*
 * Contract of jent_random_data(): one complete entropy collection.
 * JV_P 1: amount of accepted measurements (C04), 2: start-up sequence (C24),
 * 3: failures are sticky and end the collection (C01).
 *
 * The three measurement functions are contract boundaries (their own contracts
 * are in noise_measure.c): a measurement is stuck or not, may record failures,
 * changes the dynamic health state and nothing of the configuration.
 */
#include "ec.h"
#include "src/jitterentropy-noise.h"
#include "src/jitterentropy-health.h"

struct rand_data jv_ec, jv_old;
struct rand_data jv_e[8];	/* ghost: collector at loop entry */
/* ghost: one phase per noise source, separated by the re-arming of the health tests */
struct ghost {
	uint64_t closed[3];	/* accepted measurements of the finished phases */
	unsigned int inits;	/* finished phases */
	unsigned int n;		/* measurements of this phase, saturating at 2 */
} jv_g, jv_ge[8];
uint64_t jv_acc;		/* ghost: accepted (non-stuck) measurements of this phase */
int jv_bad_type;		/* ghost: a re-arming for the wrong mode */
int jv_order_bad;		/* ghost: a source was sampled out of turn */
int jv_after_failure;		/* ghost: a measurement although a failure is recorded and enforced */

#define OSR_BUDGET(e) ((uint64_t)(256 + ((e)->is_fips_enabled ? 65 : 0)) * (uint64_t)(e)->osr)

/* the noise source whose turn it is */
static int expected(void)
{
	if (jv_old.startup_state == jent_startup_memory)
		return jv_g.inits == 0 ? 0 : jv_g.inits == 1 ? 1 : -1;
	if (jv_old.startup_state == jent_startup_sha3)
		return jv_g.inits == 0 ? 1 : -1;
	return jv_g.inits == 0 ? 2 : -1;
}

static unsigned int measure(struct rand_data *ec, int src)
{
	unsigned int stuck = jv_bool();

	JV_CHECK(ec == &jv_ec, "the collector itself is measured");
	if (ec->is_fips_enabled && ec->health_failure && !(src == 2 && jv_g.n == 0))
		jv_after_failure = 1;
	if (src != expected())
		jv_order_bad = 1;
	/* the first measurement in running mode primes the source */
	if (!stuck && (src != 2 || jv_g.n))
		jv_acc++;
	if (jv_g.n < 2)
		jv_g.n++;
	ec->prev_time = JV_T(uint64_t);
	ec->memlocation = JV_T(unsigned int);
	ec->health_failure |= JV_T(unsigned int);
	ec->rct_count = JV_T(unsigned int);
	ec->rct_mem_ctr = JV_T(unsigned short);
	ec->rct_mem_count = JV_T(unsigned short);
	ec->apt_count = JV_T(unsigned int);
	return stuck;
}

unsigned int jent_measure_jitter_ntg1_memaccess__jv(struct rand_data *ec, uint64_t l, uint64_t *r)
{
	JV_CHECK(l == 0 && !r, "a collection uses the configured loop counts");
	return measure(ec, 0);
}
unsigned int jent_measure_jitter_ntg1_sha3__jv(struct rand_data *ec, uint64_t l, uint64_t *r)
{
	JV_CHECK(l == 0 && !r, "a collection uses the configured loop counts");
	return measure(ec, 1);
}
unsigned int jent_measure_jitter__jv(struct rand_data *ec, uint64_t l, uint64_t *r)
{
	JV_CHECK(l == 0 && !r, "a collection uses the configured loop counts");
	return measure(ec, 2);
}

/* contract of jent_health_failure(), see health_failure.c */
unsigned int jent_health_failure(struct rand_data *ec)
{
	return ec->is_fips_enabled ? ec->health_failure : 0;
}

/* contract of jent_health_init(), see health_init.c */
void jent_health_init(struct rand_data *ec, enum jent_health_init_type t)
{
	JV_CHECK(ec == &jv_ec, "the collector's own tests are re-armed");
	if (t != (ec->flags & JENT_NTG1 ? jent_health_init_type_ntg1 : jent_health_init_type_common))
		jv_bad_type = 1;
	if (jv_g.inits < 3)
		jv_g.closed[jv_g.inits++] = jv_acc;
	jv_acc = 0;
	jv_g.n = 0;
	ec->rct_count = 0;
}

static int jv_phase(int l)	/* a loop stays in its phase */
{
	return jv_g.inits == jv_ge[l].inits && jv_g.n >= jv_ge[l].n && jv_g.n <= 2 &&
	       jv_g.closed[0] == jv_ge[l].closed[0] &&
	       jv_g.closed[1] == jv_ge[l].closed[1];
}
static void jv_loop_entry(int l)
{
	jv_e[l] = jv_ec;
	jv_ge[l] = jv_g;
}
static void jv_loop_havoc(void)
{
#ifdef JV_CBMC
	__CPROVER_havoc_object(&jv_ec);
	__CPROVER_havoc_object(&jv_g);
	__CPROVER_havoc_object(&jv_acc);
	__CPROVER_havoc_object(&jv_bad_type);
	__CPROVER_havoc_object(&jv_order_bad);
	__CPROVER_havoc_object(&jv_after_failure);
#endif
}

#include JV_TU

static int failed(const struct rand_data *e)
{
	return e->is_fips_enabled && e->health_failure;
}

void jv_harness(void)
{
	uint64_t b;

	jv_fill_ec(&jv_ec);
	JV_ASSUME(jv_ec.startup_state == jent_startup_memory ||
		  jv_ec.startup_state == jent_startup_sha3 ||
		  jv_ec.startup_state == jent_startup_completed);
#ifdef JV_OSR_MAX
	JV_ASSUME(jv_ec.osr >= 1 && jv_ec.osr <= JV_OSR_MAX);
#endif
#ifndef JV_CBMC
	JV_ASSUME(jv_ec.osr <= 100);
#endif
	jv_old = jv_ec;
	b = OSR_BUDGET(&jv_old);
	jent_random_data(&jv_ec);
	/* the budget is kept in 16 bits: 65535 is the most that is representable */
#if JV_P == 1
	if (jv_ec.is_fips_enabled ? !jv_ec.health_failure :
	    !(jv_ec.health_failure & JENT_RCT_MEM_FAILURE_PERMANENT)) {
		JV_CHECK(jv_old.startup_state == jent_startup_completed || jv_g.closed[0] >= b,
			 "the first start-up source alone fills its complete budget");
		JV_CHECK(jv_old.startup_state != jent_startup_memory || jv_g.closed[1] >= b,
			 "the second start-up source alone fills its complete budget");
		JV_CHECK(jv_old.startup_state != jent_startup_completed || jv_acc >= b,
			 "a collection has its complete budget of non-stuck measurements");
		JV_CHECK(b <= 65535, "an unrepresentable budget is never accepted");
		JV_COVER(jv_old.startup_state == jent_startup_completed, "running collection completes");
	} else {
		JV_COVER(b > 65535 && !jv_old.health_failure, "unrepresentable budget");
	}
	JV_CHECK(jv_old.startup_state != jent_startup_completed || jv_g.n >= 1,
		 "running mode primes the source");
#elif JV_P == 2
	JV_CHECK(!jv_order_bad, "the noise sources are sampled separately and in order");
	JV_CHECK(!jv_bad_type, "the health tests are re-armed for the collector's mode");
	JV_CHECK(jv_g.inits == (jv_old.startup_state == jent_startup_memory ? 2 :
				jv_old.startup_state == jent_startup_sha3 ? 1 : 0),
		 "the health tests are re-armed after each start-up collection");
	JV_CHECK(jv_ec.startup_state == jent_startup_completed, "the start-up is complete");
	JV_CHECK(jv_old.startup_state != jent_startup_memory || failed(&jv_ec) ||
		 (jv_ec.health_failure & JENT_RCT_MEM_FAILURE_PERMANENT) ||
		 (jv_g.closed[0] >= b && jv_g.closed[1] >= b),
		 "both sources deliver a complete collection");
	JV_COVER(jv_g.inits == 2 && !failed(&jv_ec), "whole start-up");
#else
	JV_CHECK((jv_ec.health_failure & jv_old.health_failure) == jv_old.health_failure,
		 "a collection never clears a recorded failure");
	JV_CHECK(!jv_after_failure, "no measurement is taken after an enforced failure");
	JV_COVER(failed(&jv_ec) && !failed(&jv_old), "failure during the collection");
#endif
	JV_CHECK(jv_same(&jv_ec, &jv_old, G_CFG | G_ID | G_SELF), "configuration and identity stay");
	JV_CHECK(jv_ec.in_recovery == jv_old.in_recovery, "the recovery mark stays");
}
