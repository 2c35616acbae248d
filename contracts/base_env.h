/*
 * Contract stubs of everything src/jitterentropy-base.c calls while it builds,
 * qualifies and releases collectors, with ghost state that tracks every resource.
 *
 * Two collectors can exist at a time (old and replacement): slot 0 and 1.
 */
#ifndef BASE_ENV_H
#define BASE_ENV_H
#include "ec.h"
#include "src/jitterentropy-noise.h"
#include "src/jitterentropy-health.h"
#include "src/jitterentropy-timer.h"
#include "src/jitterentropy-gcd.h"
#include "src/jitterentropy-sha3.h"
#include "src/jitterentropy-base.h"

struct slot {
	int live;		/* collector allocated */
	int mem;		/* region allocated */
	int hash;		/* pool allocated */
	int nt;			/* thread context allocated */
	int run;		/* clock thread running */
	size_t memsize;		/* size of the region */
	int armed;		/* health tests initialised: 1 common, 2 ntg1 */
	int started;		/* a collection was made */
	int shake;		/* pool initialised */
	int uuid;		/* identifier generated */
	unsigned int dup;	/* health state continued (bits) from the other slot */
};
struct rand_data jv_c0, jv_c1;
#define JC(i) (*((i) ? &jv_c1 : &jv_c0))
struct slot jv_s[2];
static const struct rand_data jv_zero;
static const struct slot jv_noslot;
unsigned char jv_m[2][8], jv_h[2][8], jv_n[2][8];

int jv_fips;			/* system FIPS mode */
int jv_latch;			/* self-test latch: last qualification passed */
int jv_forced;			/* the internal timer is the only usable one */
int jv_gcd_known;
uint64_t jv_gcd;
uint32_t jv_cache[2];
unsigned int jv_cache_lg[2];
unsigned int jv_need;		/* flags every allocation has to carry */
int jv_flag_bad, jv_bad_clock, jv_stale, jv_res_bad, jv_unqual, jv_dup_bad, jv_arm_bad;
unsigned int jv_q_osr, jv_q_flags;	/* the last successful qualification */
int jv_q;
int jv_uuid_n;

static int slot_of(const void *p)
{
	return p == (const void *)&jv_c0 ? 0 : p == (const void *)&jv_c1 ? 1 : -1;
}
unsigned int jv_resets;		/* ghost: a replacement was made */
struct rand_data *jv_live_ec;	/* ghost: the collector the caller's handle has to refer to */
static struct rand_data *jv_any_ec(void)
{
	int nd = 0;
#ifdef JV_CBMC
	int x;
	nd = x;
#endif
	switch (nd) {
	case 0:
		return &jv_c0;
	case 1:
		return &jv_c1;
	default:
		return NULL;
	}
}
/* the slot that is under construction: the most recently allocated one */
int jv_new;

static void jv_scrap(void *p, size_t n)
{
#ifndef JV_CBMC
	memset(p, 0xdd, n);
#else
	if (p == (void *)&jv_c0) {
		struct rand_data x;
		jv_c0 = x;
	} else if (p == (void *)&jv_c1) {
		struct rand_data x;
		jv_c1 = x;
	}
#endif
}

void *jent_zalloc(size_t len, unsigned int flags)
{
	int i;

	if ((flags & jv_need) != jv_need)
		jv_flag_bad = 1;
	if (len == sizeof(struct rand_data)) {
		if (!jv_latch)
			jv_unqual = 1;
		if (jv_bool())
			return NULL;
		i = !jv_s[0].live ? 0 : 1;
		if (jv_s[i].live) {
			jv_res_bad = 1;
			JV_ASSUME(0);
		}
		jv_new = i;
		if (!jv_s[1 - i].live)
			jv_live_ec = &JC(i);
		if (i) {
			jv_c1 = jv_zero;
			jv_s[1] = jv_noslot;
			jv_s[1].live = 1;
			return &jv_c1;
		}
		jv_c0 = jv_zero;
		jv_s[0] = jv_noslot;
		jv_s[0].live = 1;
		return &jv_c0;
	}
	if (jv_bool())
		return NULL;
	i = jv_new;
	if (jv_s[i].mem || !jv_s[i].live)
		jv_res_bad = 1;
	jv_s[i].mem = 1;
	jv_s[i].memsize = len;
	return jv_m[i];
}

void jent_zfree(void *ptr, size_t len)
{
	int i = slot_of(ptr);

	if (i >= 0) {
		if (!jv_s[i].live || len != sizeof(struct rand_data))
			jv_res_bad = 1;
		if (jv_s[i].mem || jv_s[i].hash || jv_s[i].nt || jv_s[i].run)
			jv_res_bad = 1;
		jv_s[i].live = 0;
		jv_scrap(ptr, len);
		if (jv_s[1 - i].live) {
			if (i == jv_new) {	/* construction failed */
				jv_new = 1 - i;
			} else {		/* replaced */
				jv_resets = 1;
				jv_live_ec = &JC(1 - i);
			}
		}
		return;
	}
	i = ptr == (void *)jv_m[0] ? 0 : ptr == (void *)jv_m[1] ? 1 : -1;
	if (i < 0) {
		jv_res_bad = 1;
		return;
	}
	if (!jv_s[i].mem || len != jv_s[i].memsize || jv_s[i].run)
		jv_res_bad = 1;
	jv_s[i].mem = 0;
}

int jent_sha3_alloc(void **hash_state, unsigned int flags)
{
	int i = jv_new;

	if ((flags & jv_need) != jv_need)
		jv_flag_bad = 1;
	if (jv_bool())
		return 1;
	if (!jv_s[i].live || jv_s[i].hash || hash_state != &JC(i).hash_state) {
		jv_res_bad = 1;
		return 1;
	}
	jv_s[i].hash = 1;
	*hash_state = jv_h[i];
	return 0;
}

void jent_sha3_dealloc(void *hash_state)
{
	int i = hash_state == (void *)jv_h[0] ? 0 : hash_state == (void *)jv_h[1] ? 1 : -1;

	if (!hash_state)
		return;
	if (i < 0 || !jv_s[i].hash || jv_s[i].run) {
		jv_res_bad = 1;
		return;
	}
	jv_s[i].hash = 0;
}

void jent_shake256_init(struct jent_sha_ctx *ctx)
{
	int i = (void *)ctx == (void *)jv_h[0] ? 0 : (void *)ctx == (void *)jv_h[1] ? 1 : -1;

	if (i < 0 || !jv_s[i].hash) {
		jv_res_bad = 1;
		return;
	}
	jv_s[i].shake = 1;
}

int jent_notime_enable(struct rand_data *ec, unsigned int flags)
{
	int i = slot_of(ec);

	if ((flags & jv_need) != jv_need)
		jv_flag_bad = 1;
	if (i < 0 || !jv_s[i].live || jv_s[i].nt) {
		jv_res_bad = 1;
		return EHEALTH;
	}
	if (!jv_forced && !(flags & JENT_FORCE_INTERNAL_TIMER))
		return 0;
	/* its own qualification of the internal timer */
	if (!jv_forced) {
		if (ec->osr < JENT_MIN_OSR)
			jv_stale = 1;	/* the rate has to be set before */
		if (jv_bool())
			return EHEALTH;
		jv_forced = 1;
	}
	ec->enable_notime = 1;
	if (jv_bool())
		return 12;
	jv_s[i].nt = 1;
	ec->notime_thread_ctx = jv_n[i];
	return 0;
}

void jent_notime_disable(struct rand_data *ec)
{
	int i = slot_of(ec);

	if (i < 0 || !jv_s[i].live || jv_s[i].run) {
		jv_res_bad = 1;
		return;
	}
	jv_s[i].nt = 0;
}

int jent_notime_settick(struct rand_data *ec)
{
	int i = slot_of(ec);

	if (i < 0 || !jv_s[i].live) {
		jv_res_bad = 1;
		return 1;
	}
	if (!ec->enable_notime)
		return 0;
	if (jv_s[i].run)
		jv_bad_clock = 1;
	if (jv_bool())
		return -22;
	jv_s[i].run = 1;
	return 0;
}

void jent_notime_unsettick(struct rand_data *ec)
{
	int i = slot_of(ec);

	if (i < 0 || !jv_s[i].live) {
		jv_res_bad = 1;
		return;
	}
	jv_s[i].run = 0;
}

int jent_notime_forced(void) { return jv_forced; }
void jent_notime_force(void) { jv_forced = 1; }

static void jv_collect(struct rand_data *ec)
{
	int i = slot_of(ec);

	if (i < 0 || !jv_s[i].live) {
		jv_res_bad = 1;
		return;
	}
	if (ec->enable_notime && !jv_s[i].run)
		jv_bad_clock = 1;
	if (jv_s[i].armed != (ec->flags & JENT_NTG1 ? 2 : 1) || !jv_s[i].shake)
		jv_arm_bad = 1;
	ec->health_failure |= JV_T(unsigned int) & 0x000f000fu;
	ec->rct_count = JV_T(unsigned int);
	ec->apt_count = JV_T(unsigned int);
}

void jent_random_data(struct rand_data *ec)
{
	int i = slot_of(ec);

	jv_collect(ec);
	if (i < 0)
		return;
	ec->startup_state = jent_startup_completed;
	jv_s[i].started = 1;
}

unsigned int jent_health_failure(struct rand_data *ec)
{
	int i = slot_of(ec);

	if (i < 0 || !jv_s[i].live)
		jv_res_bad = 1;
	return ec->is_fips_enabled ? ec->health_failure : 0;
}

void jent_health_init(struct rand_data *ec, enum jent_health_init_type t)
{
	int i = slot_of(ec);

	if (i < 0 || !jv_s[i].live || !ec->osr) {
		jv_res_bad = 1;
		return;
	}
	jv_s[i].armed = t == jent_health_init_type_ntg1 ? 2 : 1;
}

int jent_gcd_get(uint64_t *value)
{
	if (!jv_gcd_known)
		return 1;
	*value = jv_gcd;
	return 0;
}

int jent_fips_enabled(void) { return jv_fips; }
uint32_t jent_cache_size_roundup(int all) { return jv_cache[all ? 1 : 0]; }

static void jv_dup(struct rand_data *n, struct rand_data *o, unsigned int bit)
{
	int i = slot_of(n), j = o ? slot_of(o) : 1 - i;

	if (i < 0 || j != 1 - i || !jv_s[i].live || !jv_s[j].live) {
		jv_dup_bad = 1;
		return;
	}
	if (i != jv_new || !jv_s[i].armed)
		jv_dup_bad = 1;
	jv_s[i].dup |= bit;
}
void jent_lag_duplicate(struct rand_data *n, struct rand_data *o) { jv_dup(n, o, 1); }
void jent_apt_duplicate(struct rand_data *n, struct rand_data *o) { jv_dup(n, o, 2); }
void jent_rct_duplicate(struct rand_data *n) { jv_dup(n, NULL, 4); }
void jent_rct_mem_duplicate(struct rand_data *n, struct rand_data *o) { jv_dup(n, o, 8); }

void jent_uuid_generate(char *out)
{
	int s = out == jv_c0.uuid ? 0 : out == jv_c1.uuid ? 1 : -1;

	if (s < 0 || !jv_s[s].live) {
		jv_res_bad = 1;
		return;
	}
	out[0] = 'a';
	jv_s[s].uuid = 1;
}

static void jv_env_init(void)
{
	jv_fips = jv_bool();
	jv_latch = jv_bool();
	jv_forced = jv_bool();
	jv_gcd_known = jv_bool();
	jv_gcd = JV_T(uint64_t);
	if (!jv_gcd)
		jv_gcd = 1;
	/* contract of jent_cache_size_roundup(): a power of two, or zero if unknown */
	jv_cache_lg[0] = (unsigned int)(jv_u64() & 31);
	jv_cache_lg[1] = (unsigned int)(jv_u64() & 31);
	jv_cache[0] = 1u << jv_cache_lg[0];
	jv_cache[1] = 1u << jv_cache_lg[1];
	if (jv_bool())
		jv_cache[0] = 0;
	if (jv_bool())
		jv_cache[1] = 0;
}

/* documented size field (2^(n+9) bytes) for the flags, see C28 */
static unsigned int jv_mem_field(unsigned int flags)
{
	unsigned int n = flags >> JENT_FLAGS_TO_MEMSIZE_SHIFT;

	if (!n) {
		uint32_t c = jv_cache[flags & JENT_CACHE_ALL ? 1 : 0];

		/* a cache of one byte is no cache */
		if (c <= 1)
			n = 18;
		else
			n = jv_cache_lg[flags & JENT_CACHE_ALL ? 1 : 0] + (flags & JENT_CACHE_ALL ? 0 : 2);
		n = n > 9 ? n - 9 : 0;
	}
	return n > 20 ? 20 : n;
}
#define JV_MEM_SIZE(field) ((field) ? (size_t)1 << ((field) + 9) : (size_t)1 << 18)
#define JV_FIELDS (0xf8000000u | 0x07000000u)
#endif
