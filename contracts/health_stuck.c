/*
 * Contract of jent_stuck() - one time delta is run through the stuck test and
 * the four health tests.  JV_P selects the property whose postcondition is
 * enforced: 1 stuck test, 2 RCT, 3 APT, 4 lag predictor, 5 RCT with memory.
 */
#include "ec.h"
#include "src/jitterentropy-health.h"

struct rand_data jv_ec;		/* the collector */
struct rand_data jv_old;	/* ghost: its state at entry */
struct rand_data jv_snap;	/* ghost: its state when the recovery started */
struct rand_data jv_last;	/* ghost: its state as the recovery left it */
unsigned int jv_rec;		/* ghost: number of recovery collections */

/* the health state a sample leaves behind: at the start of the recovery if
 * there is one (which runs further samples), else at return */
#define JV_VIEW (jv_rec ? &jv_snap : &jv_ec)

#define HIST(o, i) ((o)->lag_delta_history[((o)->lag_observations + 7u - (i)) & 7u])

static int spec_is_stuck(const struct rand_data *o, uint64_t d)
{
	uint64_t h0 = HIST(o, 0), h1 = HIST(o, 1);
	return d == 0 || d == h0 || (d - h0) == (h0 - h1);
}

#define BITS_RCT (JENT_RCT_FAILURE | JENT_RCT_FAILURE_PERMANENT)
#define BITS_APT (JENT_APT_FAILURE | JENT_APT_FAILURE_PERMANENT)
#define BITS_LAG (JENT_LAG_FAILURE | JENT_LAG_FAILURE_PERMANENT)
#define BITS_MEM (JENT_RCT_MEM_FAILURE | JENT_RCT_MEM_FAILURE_PERMANENT)

/* P1: verdict, and nothing but the dynamic health state changes */
static int post_stuck(unsigned int ret, uint64_t d)
{
	const struct rand_data *o = &jv_old, *n = &jv_ec;
	return (!!ret) == spec_is_stuck(o, d) && jv_same_config(o, n) &&
	       n->prev_time == o->prev_time && n->memlocation == o->memlocation &&
	       n->selftest_failed == o->selftest_failed &&
	       (n->health_failure & o->health_failure) == o->health_failure;
}

static int post_rct(uint64_t d)
{
	const struct rand_data *o = &jv_old, *n = JV_VIEW;
	unsigned int cnt, bits = 0;

	if (!spec_is_stuck(o, d))
		return n->rct_count == 0 &&
		       (n->health_failure & BITS_RCT) == (o->health_failure & BITS_RCT);
	cnt = o->rct_count + 1;
	if (cnt >= o->rct_cutoff_permanent)
		bits = JENT_RCT_FAILURE_PERMANENT;
	else if (cnt == o->rct_cutoff)
		bits = JENT_RCT_FAILURE;
	return n->rct_count == cnt &&
	       (n->health_failure & BITS_RCT) == ((o->health_failure & BITS_RCT) | bits) &&
	       n->rct_cutoff == o->rct_cutoff &&
	       n->rct_cutoff_permanent == o->rct_cutoff_permanent;
}

static int post_apt(uint64_t d)
{
	const struct rand_data *o = &jv_old, *n = JV_VIEW;
	unsigned int cnt, bits = 0, old = o->health_failure & BITS_APT;

	if (n->apt_cutoff != o->apt_cutoff ||
	    n->apt_cutoff_permanent != o->apt_cutoff_permanent)
		return 0;
	if (!o->apt_base_set)	/* the sample opens a new window */
		return n->apt_base_set && n->apt_base == d && n->apt_count == 1 &&
		       n->apt_observations == 1 &&
		       (n->health_failure & BITS_APT) == old;
	cnt = o->apt_count;
	if (d == o->apt_base) {
		cnt++;
		if (cnt >= o->apt_cutoff_permanent)
			bits = JENT_APT_FAILURE_PERMANENT;
		else if (cnt == o->apt_cutoff)
			bits = JENT_APT_FAILURE;
	}
	if ((n->health_failure & BITS_APT) != (old | bits))
		return 0;
	if (o->apt_observations + 1 >= 512)	/* window complete */
		return !n->apt_base_set;
	return n->apt_base_set && n->apt_base == o->apt_base &&
	       n->apt_count == cnt && n->apt_observations == o->apt_observations + 1;
}

static int post_lag(uint64_t d)
{
	const struct rand_data *o = &jv_old, *n = JV_VIEW;
	unsigned int i, run, count, best, bits = 0, old = o->health_failure & BITS_LAG;
	unsigned int score[8];
	int ok = 1;

	if (n->lag_global_cutoff != o->lag_global_cutoff ||
	    n->lag_global_cutoff_permanent != o->lag_global_cutoff_permanent ||
	    n->lag_local_cutoff != o->lag_local_cutoff ||
	    n->lag_local_cutoff_permanent != o->lag_local_cutoff_permanent)
		return 0;

	if (o->lag_observations < 8) {	/* filling the history */
		for (i = 0; i < 8; i++)
			ok = ok && n->lag_scoreboard[i] == o->lag_scoreboard[i] &&
			     n->lag_delta_history[i] ==
				(i == o->lag_observations ? d : o->lag_delta_history[i]);
		return ok && n->lag_observations == o->lag_observations + 1 &&
		       n->lag_prediction_success_count == o->lag_prediction_success_count &&
		       n->lag_prediction_success_run == o->lag_prediction_success_run &&
		       n->lag_best_predictor == o->lag_best_predictor &&
		       (n->health_failure & BITS_LAG) == old;
	}

	best = o->lag_best_predictor;
	run = o->lag_prediction_success_run;
	count = o->lag_prediction_success_count;
	if (HIST(o, best) == d) {
		run++;
		count++;
		if (run >= o->lag_local_cutoff_permanent ||
		    count >= o->lag_global_cutoff_permanent)
			bits = JENT_LAG_FAILURE_PERMANENT;
		else if (run >= o->lag_local_cutoff || count >= o->lag_global_cutoff)
			bits = JENT_LAG_FAILURE;
	} else {
		run = 0;
	}
	if ((n->health_failure & BITS_LAG) != (old | bits))
		return 0;
	if (o->lag_observations + 1 >= (1u << 17)) {	/* window complete */
		for (i = 0; i < 8; i++)
			ok = ok && n->lag_scoreboard[i] == 0 && n->lag_delta_history[i] == 0;
		return ok && n->lag_observations == 0 && n->lag_best_predictor == 0 &&
		       n->lag_prediction_success_run == 0 &&
		       n->lag_prediction_success_count == 0;
	}
	for (i = 0; i < 8; i++) {
		score[i] = o->lag_scoreboard[i] + (HIST(o, i) == d ? 1 : 0);
	}
	for (i = 0; i < 8; i++) {
		/* the lags are credited in ascending order */
		unsigned int cmp = best <= i ? score[best] : o->lag_scoreboard[best];
		if (HIST(o, i) == d && score[i] > cmp)
			best = i;
	}
	for (i = 0; i < 8; i++)
		ok = ok && n->lag_scoreboard[i] == score[i] &&
		     n->lag_delta_history[i] ==
			(i == (o->lag_observations & 7u) ? d : o->lag_delta_history[i]);
	return ok && n->lag_observations == o->lag_observations + 1 &&
	       n->lag_best_predictor == best && n->lag_prediction_success_run == run &&
	       n->lag_prediction_success_count == count;
}

/* P5: RCT with memory incl. the recovery */
static int post_mem(uint64_t d)
{
	const struct rand_data *o = &jv_old, *n = &jv_ec;
	unsigned int in = o->rct_mem_ctr < o->rct_mem_nosr;
	unsigned short cnt = o->rct_mem_ctr ? o->rct_mem_count : 0;
	unsigned int bits = 0, old = o->health_failure & BITS_MEM;
	const struct rand_data *e;

	if (spec_is_stuck(o, d) && in && o->rct_mem_ctr % 3 == 0)
		cnt++;
	if (cnt >= o->rct_mem_cutoff_permanent) {
		if (in)
			bits = JENT_RCT_MEM_FAILURE_PERMANENT;
	} else if (cnt == o->rct_mem_cutoff) {
		if (!o->in_recovery) {
			/* suspect: discard and collect again, ten times */
			if (jv_rec != 10 || jv_snap.rct_mem_count != 0 ||
			    (jv_snap.health_failure & BITS_MEM) != old)
				return 0;
			/* what the recovery found is kept */
			e = &jv_last;
			return n->in_recovery == 0 &&
			       n->startup_state == o->startup_state &&
			       n->health_failure == e->health_failure &&
			       n->rct_mem_count == e->rct_mem_count &&
			       n->rct_mem_nosr == e->rct_mem_nosr &&
			       n->rct_mem_ctr == (unsigned short)(e->rct_mem_ctr +
					(e->rct_mem_ctr < e->rct_mem_nosr));
		}
		if (in)
			bits = JENT_RCT_MEM_FAILURE;
	}
	return jv_rec == 0 && n->rct_mem_count == cnt &&
	       (n->health_failure & BITS_MEM) == (old | bits) &&
	       n->rct_mem_nosr == o->rct_mem_nosr &&
	       n->rct_mem_ctr == (unsigned short)(o->rct_mem_ctr + in) &&
	       n->in_recovery == o->in_recovery && n->startup_state == o->startup_state;
}

static int post(unsigned int ret, uint64_t d)
{
#if JV_P == 1
	return post_stuck(ret, d);
#elif JV_P == 2
	return post_rct(d);
#elif JV_P == 3
	return post_apt(d);
#elif JV_P == 4
	return post_lag(d) && jv_ec.lag_best_predictor < 8 && jv_ec.lag_observations < (1u << 17);
#else
	return post_mem(d);
#endif
}

#ifdef JV_CBMC
unsigned int jent_stuck(struct rand_data *ec, uint64_t current_delta)
JV_REQUIRES(ec == &jv_ec)
JV_REQUIRES(ec->lag_best_predictor < 8 && ec->lag_observations < (1u << 17))
JV_ASSIGNS(*ec, jv_snap, jv_last, jv_rec, jv_tape_v)
JV_ENSURES(post(JV_RET, current_delta));
#endif

#include JV_TU

/* contract stub of jent_random_data(): a further collection changes the
 * dynamic health state arbitrarily, never clears a failure, keeps the
 * configuration, the recovery mark and a completed start-up */
void jent_random_data(struct rand_data *ec)
{
	struct rand_data t;

	JV_CHECK(ec == &jv_ec, "recovery collects from the same collector");
#if JV_P == 5
	JV_CHECK(ec->in_recovery, "recovery collection runs with the recovery mark set");
	JV_CHECK(ec->startup_state == jent_startup_completed,
		 "recovery collection is not a start-up collection");
#endif
	if (!jv_rec)
		jv_snap = *ec;
	jv_rec++;
	t = *ec;
	t.prev_time = ec->prev_time;
	t.health_failure |= JV_T(unsigned int);
	t.rct_count = JV_T(unsigned int);
	t.apt_base_set = jv_u64() & 1;
	t.apt_base = JV_T(uint64_t);
	t.apt_count = JV_T(unsigned int);
	t.apt_observations = JV_T(unsigned int);
	t.rct_mem_ctr = JV_T(unsigned short);
	t.rct_mem_nosr = JV_T(unsigned short);
	t.rct_mem_count = JV_T(unsigned short);
	*ec = t;
	jv_last = *ec;
}

void jv_harness(void)
{
	uint64_t d = jv_u64();
	unsigned int r;

	jv_fill_ec(&jv_ec);
	jv_old = jv_ec;
	jv_rec = 0;
	r = jent_stuck(&jv_ec, d);
	JV_CHECK(post(r, d), "jent_stuck postcondition");
	JV_COVER(r, "stuck sample");
	JV_COVER(!r, "non-stuck sample");
	JV_COVER(jv_ec.health_failure && !jv_old.health_failure, "a new failure is reached");
#if JV_P == 5
	JV_COVER(jv_rec == 10, "recovery runs");
#endif
}
