/*
 * Contract of jent_read_entropy_safe() with the replacement of a failed collector.
 * JV_P 1: recovery ladder and handle (C18), 2: what survives a replacement (C19),
 * 3: a self-test verdict survives (C29).
 *
 * Callees by contract: jent_read_entropy (base_read.c), the complete allocation
 * with start-up and the raw one (base_alloc.c; found by role: the one that collects
 * is complete), jent_entropy_init_ex (base_init.c), jent_entropy_collector_free
 * (base_alloc.c), jent_*_duplicate (health_dup.c).
 */
#include "base_env.h"

struct rand_data *jv_handle, *jv_start;
struct rand_data jv_oldc;	/* ghost: the collector that is being replaced */
struct rand_data jv_e[8];
uint64_t jv_en_done[8];
int jv_en_last[8];
int jv_pending;			/* ghost: a replacement was made, not yet checked */
int jv_final;			/* ghost: a code that must not be retried was seen */
int jv_last;			/* ghost: code of the last read, 0 on success */
int jv_retry, jv_ladder_bad, jv_xfer_bad, jv_args_bad, jv_early;
int jv_misuse, jv_xst;
static char jv_byte[1];
char *jv_base;
size_t jv_len;
uint64_t jv_done;
int jv_calls;			/* ghost: reads, saturating at 1 */

static int jv_intermittent(int r)
{
	return r == JENT_ERR_RCT || r == JENT_ERR_APT || r == JENT_ERR_LAG || r == JENT_ERR_RCT_MEM;
}

static int jv_xfer_ok(const struct rand_data *n)
{
	unsigned int i;
	int ok = n->reinit_count == jv_oldc.reinit_count + 1 &&
		 n->read_invocations == jv_oldc.read_invocations &&
		 n->bytes_output == jv_oldc.bytes_output &&
		 n->selftest_failed == jv_oldc.selftest_failed &&
		 n->max_mem_set == jv_oldc.max_mem_set &&
		 jv_s[slot_of(n) > 0].dup == 15;

	for (i = 0; i < JENT_UUID_STRLEN; i++)
		ok = ok && n->uuid[i] == jv_oldc.uuid[i];
	return ok;
}

static void jv_checkpoint(void)
{
	int i = slot_of(jv_handle);

	if (i < 0 || !jv_s[i].live || jv_s[1 - i].live)
		jv_res_bad = 1;
	else if (jv_pending) {
		if (!jv_xfer_ok(jv_handle))
			jv_xfer_bad = 1;
		if (jv_handle->selftest_failed != jv_oldc.selftest_failed)
			jv_xst = 1;
		jv_pending = 0;
	}
}

/* contract of jent_read_entropy(), see base_read.c */
ssize_t jent_read_entropy__jv(struct rand_data *ec, char *data, size_t len)
{
	int r = -(int)(jv_u64() & 15), i = slot_of(ec);

	jv_checkpoint();
	jv_calls = 1;
	if (jv_final)
		jv_retry = 1;
	if (!ec || (!data && len)) {
		jv_misuse = 1;
		jv_last = JENT_ERR_EINVAL;
		jv_final = 1;
		return JENT_ERR_EINVAL;
	}
	if (i < 0 || !jv_s[i].live || ec != jv_handle) {
		jv_res_bad = 1;
		return JENT_ERR_EINVAL;
	}
	if (!jv_s[i].started)
		jv_early = 1;
	if (data != jv_base + jv_done || len != jv_len - jv_done)
		jv_args_bad = 1;
	if (r == -1 || r < -11)
		r = 0;
	if (ec->selftest_failed && r != JENT_ERR_NOTIME)
		r = JENT_ERR_SELFTEST;
	else if (r == JENT_ERR_SELFTEST && !ec->selftest_failed)
		r = 0;
	if (r && r != JENT_ERR_NOTIME && r != JENT_ERR_SELFTEST && !ec->is_fips_enabled)
		r = 0;
	jv_last = r;
	if (r) {
		ec->health_failure |= 1;
		if (!jv_intermittent(r))
			jv_final = 1;
		return r;
	}
	jv_done += len;
	ec->read_invocations++;
	ec->bytes_output += len;
	return (ssize_t)len;
}

/* contract of jent_entropy_init_ex(), see base_init.c */
int jent_entropy_init_ex__jv(unsigned int osr, unsigned int flags)
{
	int r = (int)(jv_u64() & 15);

	if (jv_final)
		jv_retry = 1;
	jv_latch = !r;
	jv_q = !r;
	jv_q_osr = osr;
	jv_q_flags = flags;
	return r;
}
int jent_atomic_load_int(int *ptr) { (void)ptr; return jv_latch; }
void jent_atomic_store_int(int *ptr, int val) { (void)ptr; jv_latch = val; }

static struct rand_data *jv_alloc(unsigned int osr, unsigned int flags, int started)
{
	struct rand_data *o = jv_handle, *n;
	int i = slot_of(o);
	unsigned int m0, m1, h0, h1, extra;

	if (jv_final || !jv_intermittent(jv_last))
		jv_retry = 1;
	if (i < 0 || !jv_s[i].live || jv_s[1 - i].live) {
		jv_res_bad = 1;
		return NULL;
	}
	/* re-qualified for exactly the configuration that is allocated */
	if (!jv_q || jv_q_osr != osr || jv_q_flags != flags)
		jv_unqual = 1;
	if (osr <= o->osr || osr > JENT_MAX_OSR)
		jv_ladder_bad = 1;
	m0 = o->flags >> 27;
	m1 = flags >> 27;
	h0 = (o->flags >> 24) & 7;
	h1 = (flags >> 24) & 7;
	if ((flags ^ o->flags) & ~JV_FIELDS)
		jv_ladder_bad = 1;
	if (h1 != (h0 < 7 ? h0 + 1 : 7))
		jv_ladder_bad = 1;
	if (o->max_mem_set ? m1 != m0 : m0 ? m1 != (m0 < 20 ? m0 + 1 : 20) : m1 > 20)
		jv_ladder_bad = 1;
	if (jv_bool())
		return NULL;
	n = i ? &jv_c0 : &jv_c1;
	jv_oldc = *o;
	jv_new = 1 - i;
	jv_s[1 - i] = jv_noslot;
	jv_s[1 - i].live = 1;
	jv_s[1 - i].started = started;
	jv_s[1 - i].armed = 1;
	*n = jv_zero;
	extra = (unsigned int)(jv_u64() & 15);
	n->osr = osr + extra > JENT_MAX_OSR ? JENT_MAX_OSR : osr + extra;
	n->flags = flags;
	n->is_fips_enabled = o->is_fips_enabled;
	n->max_mem_set = !!m1;
	n->reinit_count = (unsigned int)jv_u64() & 15;
	n->uuid[0] = 'n';
	return n;
}
struct rand_data *jv_alloc_full(unsigned int osr, unsigned int flags) { return jv_alloc(osr, flags, 1); }
struct rand_data *jv_alloc_raw(unsigned int osr, unsigned int flags) { return jv_alloc(osr, flags, 0); }

void jent_entropy_collector_free__jv(struct rand_data *ec)
{
	int i = slot_of(ec);

	if (!ec)
		return;
	if (i < 0 || !jv_s[i].live) {
		jv_res_bad = 1;
		return;
	}
	jv_s[i].live = 0;
	if (!jv_s[1 - i].live)
		jv_early = 1;	/* nothing to continue with */
	else if (i != jv_new)
		jv_pending = 1;
	else
		jv_new = 1 - i;
	ec->osr = JV_T(unsigned int);
	ec->flags = JV_T(unsigned int);
	ec->reinit_count = JV_T(unsigned int);
	ec->read_invocations = JV_T(uint64_t);
	ec->bytes_output = JV_T(uint64_t);
	ec->uuid[0] = (char)jv_u64();
	ec->selftest_failed = jv_bool();
	ec->max_mem_set = jv_bool();
}

static void jv_loop_entry(int l)
{
	jv_checkpoint();
	jv_e[l] = JC(jv_new);
	jv_en_done[l] = jv_done;
	jv_en_last[l] = jv_last;
}
static int jv_ok(int i)
{
	const struct rand_data *e = &JC(i);

	return jv_s[i].live == 1 && !jv_s[1 - i].live && jv_handle == e && jv_s[i].started &&
	       e->osr >= JENT_MIN_OSR && e->osr <= JENT_MAX_OSR &&
	       (e->flags >> 27) <= 20 && (e->max_mem_set ? (e->flags >> 27) != 0 : 1) &&
	       (!jv_pending || jv_xfer_ok(e));
}
static int jv_hard(int l)
{
	(void)l;
	JV_COVER(jv_pending, "a replacement");
	return (jv_new == 0 || jv_new == 1) && (jv_new ? jv_ok(1) : jv_ok(0)) && jv_done <= jv_len &&
	       (jv_q == 0 || jv_q == 1) && jv_last <= 0 && jv_last >= -11;
}
static int jv_good(void)
{
	return !jv_retry && !jv_res_bad && !jv_unqual && !jv_early && !jv_args_bad && !jv_misuse;
}
static void jv_loop_havoc(void)
{
#ifdef JV_CBMC
	struct rand_data x;
	struct slot s;
	_Bool nd;
	uint64_t d;
	int l;

	jv_c0 = x;	/* the slots are interchangeable: call the live one 0 */
	jv_c0.mem = NULL;
	jv_c0.hash_state = NULL;
	jv_c0.notime_thread_ctx = NULL;
	jv_new = 0;
	jv_handle = &jv_c0;
	jv_s[0] = s;
	jv_s[1] = jv_noslot;
	jv_s[0].live = 1;
	jv_pending = 0;
	jv_q = nd;
	jv_done = d;
	jv_last = l;
	__CPROVER_havoc_object(&jv_q_osr);
	__CPROVER_havoc_object(&jv_q_flags);
	__CPROVER_havoc_object(&jv_final);
	__CPROVER_havoc_object(&jv_retry);
	__CPROVER_havoc_object(&jv_ladder_bad);
	__CPROVER_havoc_object(&jv_xfer_bad);
	__CPROVER_havoc_object(&jv_xst);
	__CPROVER_havoc_object(&jv_args_bad);
	__CPROVER_havoc_object(&jv_early);
	__CPROVER_havoc_object(&jv_misuse);
	__CPROVER_havoc_object(&jv_res_bad);
	__CPROVER_havoc_object(&jv_unqual);
	__CPROVER_havoc_object(&jv_dup_bad);
	__CPROVER_havoc_object(&jv_calls);
	__CPROVER_assume(jv_hard(0));
#endif
}

#include JV_TU

void jv_harness(void)
{
	ssize_t r;
	int missing = (int)(jv_u64() & 3);	/* 1: no handle, 2: no buffer */

	jv_env_init();
	jv_fill_ec(&jv_c0);
	/* any collector that was handed out: see base_alloc.c */
	jv_c0.osr = JENT_MIN_OSR + (unsigned int)(jv_u64() & 31);
	JV_ASSUME(jv_c0.osr <= JENT_MAX_OSR && (jv_c0.flags >> 27) <= 20);
	if (!(jv_c0.flags >> 27))
		jv_c0.max_mem_set = 0;
	jv_s[0].live = jv_s[0].started = jv_s[0].armed = 1;
	jv_c0.uuid[0] = (char)jv_u64();
	jv_c0.uuid[1] = (char)jv_u64();
	jv_c0.uuid[35] = (char)jv_u64();
	jv_len = (size_t)jv_u64();
	JV_ASSUME(jv_len <= (1ul << 46));
	jv_base = jv_byte;	/* only its address is used */
	jv_handle = &jv_c0;
	r = jent_read_entropy_safe(missing & 1 ? NULL : &jv_handle, missing & 2 ? NULL : jv_base, jv_len);
	if ((missing & 1) || ((missing & 2) && jv_len)) {
		JV_CHECK(r == JENT_ERR_EINVAL && !jv_done && jv_handle == &jv_c0 && jv_s[0].live, "misuse is rejected without effect");
		return;
	}
	jv_checkpoint();
#if JV_P == 1
	JV_CHECK(!jv_res_bad, "the handle refers to exactly one live collector at all times");
	JV_CHECK(!jv_unqual, "a replacement is re-qualified for its very configuration");
	JV_CHECK(!jv_ladder_bad, "rate, memory and hash loops are raised within their maxima and nothing else is changed");
	JV_CHECK(!jv_retry, "only intermittent failures are recovered from");
	JV_CHECK(!jv_early, "a replacement has completed its start-up before it is used or the old collector is released");
	JV_CHECK(!jv_args_bad, "delivered bytes are kept and reading continues behind them");
	if (r >= 0)
		JV_CHECK((size_t)r == jv_len && jv_done == jv_len, "success means all requested bytes are delivered");
	else
		JV_CHECK(r == jv_last, "the code of the failing read is returned");
	JV_COVER(r > 0 && jv_handle->reinit_count != 0, "recovery succeeds");
	JV_COVER(r == JENT_ERR_LAG, "recovery impossible");
	JV_COVER(r == JENT_ERR_SELFTEST, "self test failure");
#elif JV_P == 2
	JV_CHECK(!jv_xfer_bad, "identifier, counters, self-test verdict and fixed size survive, one re-initialisation is counted");
	JV_CHECK(!jv_dup_bad, "the health tests continue from the failed collector");
	JV_COVER(r > 0, "delivery");
#else
	JV_CHECK(!jv_xst, "a replacement inherits the self-test verdict");
	JV_CHECK(jv_handle->selftest_failed || r != JENT_ERR_SELFTEST, "no verdict is forged");
	JV_COVER(r > 0, "delivery");
	JV_COVER(r == JENT_ERR_SELFTEST, "self test failure");
#endif
}
