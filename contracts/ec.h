/* an arbitrary collector, field by field from the tape */
#ifndef JV_EC_H
#define JV_EC_H
#include "jv.h"
#include "src/jitterentropy-internal.h"

static void jv_fill_ec(struct rand_data *ec)
{
	unsigned int i;
	memset(ec, 0, sizeof(*ec));
	ec->prev_time = JV_T(uint64_t);
	ec->flags = JV_T(unsigned int);
	ec->osr = JV_T(unsigned int);
	ec->reinit_count = JV_T(unsigned int);
	ec->read_invocations = JV_T(uint64_t);
	ec->bytes_output = JV_T(uint64_t);
	ec->startup_state = (enum jent_startup_state)(jv_u64() & 3);
	ec->memmask = JV_T(uint32_t);
	ec->memlocation = JV_T(unsigned int);
	ec->memaccessloops = JV_T(unsigned int);
	ec->hashloopcnt = JV_T(unsigned int);
	ec->rct_count = JV_T(unsigned int);
	ec->rct_cutoff = JV_T(unsigned short);
	ec->rct_cutoff_permanent = JV_T(unsigned short);
	ec->apt_cutoff = JV_T(unsigned int);
	ec->apt_cutoff_permanent = JV_T(unsigned int);
	ec->apt_observations = JV_T(unsigned int);
	ec->apt_count = JV_T(unsigned int);
	ec->apt_base = JV_T(uint64_t);
	ec->health_failure = JV_T(unsigned int);
	ec->rct_mem_ctr = JV_T(unsigned short);
	ec->rct_mem_nosr = JV_T(unsigned short);
	ec->rct_mem_count = JV_T(unsigned short);
	ec->rct_mem_cutoff = JV_T(unsigned short);
	ec->rct_mem_cutoff_permanent = JV_T(unsigned short);
	ec->apt_base_set = jv_u64() & 1;
	ec->is_fips_enabled = jv_u64() & 1;
	ec->enable_notime = jv_u64() & 1;
	ec->max_mem_set = jv_u64() & 1;
	ec->in_recovery = jv_u64() & 1;
	ec->selftest_failed = jv_u64() & 1;
#ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
	ec->notime_interrupt = JV_T(uint8_t);
	ec->notime_timer = JV_T(uint64_t);
	ec->notime_prev_timer = JV_T(uint64_t);
#endif
	ec->jent_common_timer_gcd = JV_T(uint64_t);
#ifdef JENT_HEALTH_LAG_PREDICTOR
	ec->lag_global_cutoff = JV_T(unsigned int);
	ec->lag_global_cutoff_permanent = JV_T(unsigned int);
	ec->lag_local_cutoff = JV_T(unsigned int);
	ec->lag_local_cutoff_permanent = JV_T(unsigned int);
	ec->lag_prediction_success_count = JV_T(unsigned int);
	ec->lag_prediction_success_run = JV_T(unsigned int);
	ec->lag_best_predictor = JV_T(unsigned int) & JENT_LAG_MASK;
	ec->lag_observations = JV_T(unsigned int) & (JENT_LAG_WINDOW_SIZE - 1);
	for (i = 0; i < JENT_LAG_HISTORY_SIZE; i++) {
		ec->lag_delta_history[i] = JV_T(uint64_t);
		ec->lag_scoreboard[i] = JV_T(unsigned int);
	}
#endif
}

/* groups of fields for frame conditions */
#define G_TIME	0x0001
#define G_CFG	0x0002
#define G_CUT	0x0004
#define G_RCT	0x0008
#define G_APT	0x0010
#define G_LAG	0x0020
#define G_MEM	0x0040
#define G_HF	0x0080
#define G_ID	0x0100
#define G_STATE	0x0200
#define G_SELF	0x0400
#define G_MEMLOC 0x0800
#define G_NOTIME 0x1000
#define G_ALL	0x1fff

/* configuration of a collector that no run-time operation may change */
static int jv_same_config(const struct rand_data *a, const struct rand_data *b)
{
	return a->hash_state == b->hash_state && a->flags == b->flags &&
	       a->osr == b->osr && a->mem == b->mem && a->memmask == b->memmask &&
	       a->memaccessloops == b->memaccessloops &&
	       a->hashloopcnt == b->hashloopcnt &&
	       a->is_fips_enabled == b->is_fips_enabled &&
	       a->enable_notime == b->enable_notime &&
	       a->max_mem_set == b->max_mem_set &&
	       a->jent_common_timer_gcd == b->jent_common_timer_gcd &&
	       a->reinit_count == b->reinit_count;
}

static int jv_same_cutoffs(const struct rand_data *a, const struct rand_data *b)
{
	return a->rct_cutoff == b->rct_cutoff &&
	       a->rct_cutoff_permanent == b->rct_cutoff_permanent &&
	       a->apt_cutoff == b->apt_cutoff &&
	       a->apt_cutoff_permanent == b->apt_cutoff_permanent &&
	       a->rct_mem_cutoff == b->rct_mem_cutoff &&
	       a->rct_mem_cutoff_permanent == b->rct_mem_cutoff_permanent
#ifdef JENT_HEALTH_LAG_PREDICTOR
	       && a->lag_global_cutoff == b->lag_global_cutoff &&
	       a->lag_global_cutoff_permanent == b->lag_global_cutoff_permanent &&
	       a->lag_local_cutoff == b->lag_local_cutoff &&
	       a->lag_local_cutoff_permanent == b->lag_local_cutoff_permanent
#endif
	       ;
}

static int jv_same(const struct rand_data *a, const struct rand_data *b, unsigned int g)
{
	unsigned int i;
	int ok = 1;

	if (g & G_TIME)
		ok = ok && a->prev_time == b->prev_time;
	if (g & G_CFG)
		ok = ok && a->hash_state == b->hash_state && a->flags == b->flags &&
		     a->osr == b->osr && a->mem == b->mem && a->memmask == b->memmask &&
		     a->memaccessloops == b->memaccessloops &&
		     a->hashloopcnt == b->hashloopcnt &&
		     a->is_fips_enabled == b->is_fips_enabled &&
		     a->enable_notime == b->enable_notime &&
		     a->max_mem_set == b->max_mem_set &&
		     a->jent_common_timer_gcd == b->jent_common_timer_gcd;
	if (g & G_CUT)
		ok = ok && jv_same_cutoffs(a, b);
	if (g & G_RCT)
		ok = ok && a->rct_count == b->rct_count;
	if (g & G_APT)
		ok = ok && a->apt_base_set == b->apt_base_set && a->apt_base == b->apt_base &&
		     a->apt_count == b->apt_count &&
		     a->apt_observations == b->apt_observations;
#ifdef JENT_HEALTH_LAG_PREDICTOR
	if (g & G_LAG) {
		ok = ok && a->lag_prediction_success_count == b->lag_prediction_success_count &&
		     a->lag_prediction_success_run == b->lag_prediction_success_run &&
		     a->lag_best_predictor == b->lag_best_predictor &&
		     a->lag_observations == b->lag_observations;
		for (i = 0; i < 8; i++)
			ok = ok && a->lag_delta_history[i] == b->lag_delta_history[i] &&
			     a->lag_scoreboard[i] == b->lag_scoreboard[i];
	}
#endif
	if (g & G_MEM)
		ok = ok && a->rct_mem_ctr == b->rct_mem_ctr &&
		     a->rct_mem_nosr == b->rct_mem_nosr &&
		     a->rct_mem_count == b->rct_mem_count;
	if (g & G_HF)
		ok = ok && a->health_failure == b->health_failure;
	if (g & G_ID) {
		ok = ok && a->reinit_count == b->reinit_count &&
		     a->read_invocations == b->read_invocations &&
		     a->bytes_output == b->bytes_output;
		for (i = 0; i < JENT_UUID_STRLEN; i++)
			ok = ok && a->uuid[i] == b->uuid[i];
	}
	if (g & G_STATE)
		ok = ok && a->startup_state == b->startup_state &&
		     a->in_recovery == b->in_recovery;
	if (g & G_SELF)
		ok = ok && a->selftest_failed == b->selftest_failed;
	if (g & G_MEMLOC)
		ok = ok && a->memlocation == b->memlocation;
#ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
	if (g & G_NOTIME)
		ok = ok && a->notime_interrupt == b->notime_interrupt &&
		     a->notime_timer == b->notime_timer &&
		     a->notime_prev_timer == b->notime_prev_timer &&
		     a->notime_thread_ctx == b->notime_thread_ctx;
#endif
	return ok;
}
#endif
