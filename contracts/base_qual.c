/*
 * Contract of jent_time_entropy_init(): the power-up qualification of a timer (C20).
 *
 * Callees by contract: jent_measure_jitter (noise_measure.c), jent_gcd_analyze,
 * jent_gcd_init/fini (gcd.c), jent_health_failure; the allocation of the test
 * instance and its release are the real code on top of base_env.h.
 */
#include "base_env.h"

#define JV_WARMUP 100
#define JV_LOOPS 1024
uint64_t jv_hist[JV_LOOPS];
int jv_hist_live;
unsigned int jv_flags, jv_osr;

uint64_t jv_cnt;		/* ghost: measurements after the priming one */
uint64_t jv_stuck;	/* ghost: stuck ones among the scored */
uint64_t jv_back;	/* ghost: scored ones on which time did not advance */
uint64_t jv_prev;	/* ghost: time stamp of the preceding measurement */
int jv_primed, jv_zts, jv_zdelta, jv_args_bad, jv_more, jv_soft;
unsigned int jv_k;	/* ghost: any scored measurement */
uint64_t jv_dk;		/* ghost: its delta */
int jv_an_called, jv_an_ret, jv_an_bad;
unsigned int jv_hf;	/* ghost: the failure record after the last measurement */
#define jv_hf_seen() jv_hf
struct rand_data jv_e[4];

uint64_t *jent_gcd_init(size_t nelem, unsigned int flags)
{
	if (nelem < JV_LOOPS || (flags & jv_need) != jv_need)
		jv_args_bad = 1;
	if (jv_hist_live)
		jv_res_bad = 1;
	if (jv_bool())
		return NULL;
	jv_hist_live = 1;
	return jv_hist;
}

void jent_gcd_fini(uint64_t *h, size_t nelem)
{
	if (!h)
		return;
	if (h != jv_hist || !jv_hist_live || nelem != JV_LOOPS)
		jv_res_bad = 1;
	jv_hist_live = 0;
}

int jent_gcd_analyze(uint64_t *h, size_t nelem, size_t osr)
{
	if (h != jv_hist || !jv_hist_live || nelem != JV_LOOPS || jv_an_called ||
	    jv_s[0].live != 1 || osr != jv_c0.osr)
		jv_an_bad = 1;
	if (jv_hist[jv_k] != jv_dk || jv_cnt != JV_WARMUP + JV_LOOPS)
		jv_an_bad = 1;
	jv_an_called = 1;
	jv_an_ret = (int)(jv_u64() & 15);
	return jv_an_ret;
}

unsigned int jent_measure_jitter(struct rand_data *ec, uint64_t loop_cnt, uint64_t *ret_delta)
{
	uint64_t now = JV_T(uint64_t), delta = JV_T(uint64_t);
	unsigned int stuck = jv_bool();
	int i = slot_of(ec);

	if (i != 0 || !jv_s[0].live) {
		jv_res_bad = 1;
		return 1;
	}
	if (loop_cnt)
		jv_args_bad = 1;
	if (ec->enable_notime && !jv_s[0].run)
		jv_bad_clock = 1;
	if (!jv_s[0].armed || !jv_s[0].shake || !ec->is_fips_enabled)
		jv_arm_bad = 1;
	if (jv_zts || jv_zdelta)
		jv_more = 1;
	if (!jv_primed) {
		jv_primed = 1;
	} else {
		if (!jv_prev || !now)
			jv_zts = 1;
		else if (!delta)
			jv_zdelta = 1;
		else {
			if (jv_cnt >= JV_WARMUP) {
				if (stuck)
					jv_stuck++;
				if (now <= jv_prev)
					jv_back++;
				if (jv_cnt - JV_WARMUP == jv_k)
					jv_dk = delta;
			}
			jv_cnt++;
		}
	}
	jv_prev = now;
	ec->prev_time = now;
	ec->health_failure |= JV_T(unsigned int) & 0x000f000fu;
	jv_hf = ec->health_failure;
	ec->rct_count = JV_T(unsigned int);
	if (ret_delta)
		*ret_delta = delta;
	else if (jv_cnt || jv_zts || jv_zdelta)
		jv_soft = 1;
	return stuck;
}

int jent_entropy_init_ex__jv(unsigned int osr, unsigned int flags)
{
	(void)osr; (void)flags;
	jv_latch = jv_bool();
	return !jv_latch;
}
int jent_atomic_load_int(int *ptr) { (void)ptr; return jv_latch; }
void jent_atomic_store_int(int *ptr, int val) { (void)ptr; jv_latch = val; }

static void jv_loop_entry(int l) { jv_e[l] = jv_c0; }
static int jv_frame(int l)
{
	return jv_same(&jv_c0, &jv_e[l], G_CFG | G_ID | G_SELF | G_STATE | G_NOTIME);
}
static int jv_hist_ok(void)
{
	return jv_cnt <= JV_WARMUP + jv_k || jv_hist[jv_k] == jv_dk;
}
static int jv_good(void)
{
	return !jv_args_bad && !jv_res_bad && !jv_bad_clock && !jv_arm_bad && !jv_more && !jv_soft && !jv_an_bad;
}
static void jv_loop_havoc(void)
{
#ifdef JV_CBMC
	struct rand_data x;

	x.mem = jv_c0.mem;
	x.hash_state = jv_c0.hash_state;
	x.notime_thread_ctx = jv_c0.notime_thread_ctx;
	jv_c0 = x;
	__CPROVER_havoc_object(jv_hist);
	__CPROVER_havoc_object(&jv_cnt);
	__CPROVER_havoc_object(&jv_stuck);
	__CPROVER_havoc_object(&jv_back);
	__CPROVER_havoc_object(&jv_prev);
	__CPROVER_havoc_object(&jv_primed);
	__CPROVER_havoc_object(&jv_zts);
	__CPROVER_havoc_object(&jv_zdelta);
	__CPROVER_havoc_object(&jv_args_bad);
	__CPROVER_havoc_object(&jv_more);
	__CPROVER_havoc_object(&jv_soft);
	__CPROVER_havoc_object(&jv_dk);
	__CPROVER_havoc_object(&jv_hf);
	__CPROVER_havoc_object(&jv_res_bad);
	__CPROVER_havoc_object(&jv_bad_clock);
	__CPROVER_havoc_object(&jv_arm_bad);
	__CPROVER_havoc_object(&jv_an_bad);
#endif
}

#include JV_TU

void jv_harness(void)
{
	int r;

	jv_env_init();
	jv_osr = JV_T(unsigned int);
	jv_flags = JV_T(unsigned int);
	jv_k = (unsigned int)(jv_u64() & (JV_LOOPS - 1));
	jv_need = jv_flags & JENT_FORCE_SECURE_MEM;
	r = jent_time_entropy_init(jv_osr, jv_flags);

	JV_CHECK(!jv_res_bad && !jv_hist_live, "buffers and test collector are released exactly once");
	JV_CHECK(!jv_s[0].live && !jv_s[0].mem && !jv_s[0].hash && !jv_s[0].nt && !jv_s[0].run && !jv_s[1].live,
		 "the test collector is gone and its clock stopped");
	JV_CHECK(!jv_bad_clock && !jv_arm_bad && !jv_flag_bad, "the measurements are real: clock running, health tests enforced");
	JV_CHECK(!jv_args_bad && !jv_soft && !jv_more, "measurements are made with the configured loop counts, none after a dead timer");
	JV_CHECK(!jv_an_bad, "exactly the 1024 scored deltas are analysed");
	if (r == 0) {
		JV_CHECK(jv_cnt == JV_WARMUP + JV_LOOPS, "1024 measurements are scored");
		JV_CHECK(!jv_zts && !jv_zdelta, "no time stamp and no delta was zero");
		JV_CHECK(jv_back <= 3, "time went backwards at most three times");
		JV_CHECK(!jv_hf_seen(), "no health test failed");
		JV_CHECK(jv_an_called && jv_an_ret == 0, "variations and divisor are acceptable");
		JV_CHECK(jv_stuck <= 921, "at most 90 percent are stuck");
		JV_COVER(1, "a timer qualifies");
	}
	/* the code of the first criterion violated */
	if (jv_zts)
		JV_CHECK(r == ENOTIME, "dead timer");
	else if (jv_zdelta)
		JV_CHECK(r == ECOARSETIME, "coarse timer");
	else if (jv_cnt == JV_WARMUP + JV_LOOPS) {
		if (jv_back > 3)
			JV_CHECK(r == ENOMONOTONIC, "timer runs backwards");
		else if (jv_hf_seen())
			JV_CHECK(r == ((jv_hf_seen() & (JENT_RCT_FAILURE | JENT_RCT_FAILURE_PERMANENT)) ? ERCT : EHEALTH),
				 "health failure");
		else if (!jv_an_called)
			JV_CHECK(0, "the deltas are analysed");
		else if (jv_an_ret)
			JV_CHECK(r == jv_an_ret, "insufficient variation or divisor");
		else
			JV_CHECK(r == (jv_stuck > 921 ? ESTUCK : 0), "stuck measurements");
		JV_COVER(r == ESTUCK, "stuck");
		JV_COVER(r == ERCT, "repetition");
	} else {
		JV_CHECK(r == EMEM || r == ENOTIME, "nothing measured");
		JV_COVER(r == EMEM, "no memory");
	}
}
