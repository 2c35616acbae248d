/*
 * Contracts of the three measurement functions of src/jitterentropy-noise.c.
 *  JV_P 1: what is measured, judged and absorbed into the pool (C13)
 *  JV_P 2: the memory noise sources stay in their region, any size, any loop count (C25)
 *  JV_P 5: and the start-up source accesses it as often as configured (JV_K: size of the region)
 *  JV_P 3: a few accesses followed exactly (C25, bounded)
 *  JV_P 6: two concrete runs with many accesses (C25, bounded)
 *  JV_P 4: jent_read_random_block() (C12)
 * JV_SRC 1: memory access, 2: hash loop, 3: combined (running mode).
 */
#include <string.h>
#include "ec.h"
#include "src/jitterentropy-noise.h"
#include "src/jitterentropy-health.h"
#include "src/jitterentropy-timer.h"
#include "src/jitterentropy-sha3.h"
#include "arch/jitterentropy-arch-memory.h"

#define BLK 136u
#define JV_STRIDE (JENT_MEMORY_BLOCKSIZE - 1u)
#define JV_MOVED(n) (JENT_MEMORY_BLOCKSIZE * (uint32_t)(n) - (uint32_t)(n))
struct rand_data jv_ec, jv_old;
struct jent_sha_ctx jv_pool;
#if JV_P == 3
# define JV_MEMSZ 8u
#else
# define JV_MEMSZ 1024u
#endif
#if JV_P != 2 && JV_P != 5
unsigned char jv_mem[JV_MEMSZ], jv_mem0[JV_MEMSZ];
#endif

/* ghosts */
uint64_t jv_t[2];		/* the last two timer readings */
uint64_t jv_nh_t[2];		/* hash rounds done at these */
unsigned int jv_loc_t[2];	/* memory position at these */
unsigned int jv_nt;		/* readings, saturating */
uint64_t jv_nh;			/* hash rounds */
uint64_t jv_delta;		/* delta judged */
unsigned int jv_stuck, jv_ns;
uint8_t jv_blk_in[BLK];		/* block absorbed */
size_t jv_plen;
const uint8_t *jv_blkp;		/* where it was */
int jv_blk_wiped, jv_wrong;
struct jent_sha_ctx *jv_hctx;	/* hash loop context in use */
int jv_hwiped;
uint8_t jv_digest[32];		/* last digest of the hash loop */
uint8_t *jv_digp;
uint8_t *jv_blk, jv_blk_e[BLK];	/* block buffer a loop works on, its contents at loop entry */

void jent_get_nstime_internal(struct rand_data *ec, uint64_t *out)
{
	if (ec != &jv_ec)
		jv_wrong = 1;
	jv_t[0] = jv_t[1];
	jv_nh_t[0] = jv_nh_t[1];
	jv_loc_t[0] = jv_loc_t[1];
#if JV_P == 6
	jv_t[1] = 4711;
#else
	jv_t[1] = JV_T(uint64_t);
#endif
	jv_nh_t[1] = jv_nh;
	jv_loc_t[1] = jv_ec.memlocation;
	if (jv_nt < 100)
		jv_nt++;
	*out = jv_t[1];
}

unsigned int jent_stuck(struct rand_data *ec, uint64_t delta)
{
	if (ec != &jv_ec)
		jv_wrong = 1;
	jv_delta = delta;
	jv_ns++;
	jv_stuck = jv_bool();
	return jv_stuck;
}

void jent_sha3_256_init(struct jent_sha_ctx *ctx)
{
	if (ctx == &jv_pool)
		jv_wrong = 1;
	jv_hctx = ctx;
	jv_hwiped = 0;
}

void jent_sha3_update(struct jent_sha_ctx *ctx, const uint8_t *in, size_t len)
{
	unsigned int i;

	if (ctx == &jv_pool) {
		if (jv_plen || len != BLK) {
			jv_wrong = 1;
			return;
		}
		jv_plen += len;
		jv_blkp = in;
		for (i = 0; i < BLK; i++)
			jv_blk_in[i] = in[i];
	} else if (ctx != jv_hctx || jv_hwiped) {
		jv_wrong = 1;
	}
}

void jent_sha3_final(struct jent_sha_ctx *ctx, uint8_t *digest)
{
	unsigned int i;

	if (ctx == &jv_pool || ctx != jv_hctx || jv_hwiped) {
		jv_wrong = 1;
		return;
	}
	jv_digp = digest;
	for (i = 0; i < 32; i++)
		digest[i] = jv_digest[i] = JV_T(uint8_t);
	jv_nh++;
}

void jent_memset_secure(void *s, size_t n)
{
	unsigned int i;

	if (jv_blkp && jv_plen && (uint8_t *)s <= jv_blkp && (uint8_t *)s + n >= jv_blkp + 41)
		jv_blk_wiped = 1;
	if (jv_hctx && s == (void *)jv_hctx) {
		if (n == sizeof(*jv_hctx))
			jv_hwiped = 1;
		return;		/* contents of no interest here */
	}
	JV_CHECK(n <= BLK, "wipes stay inside the block");
	for (i = 0; i < BLK; i++)
		if (i < n)
			((uint8_t *)s)[i] = 0;
}

void jent_drbg_generate_block(struct jent_sha_ctx *ctx, uint8_t *dst, size_t dst_len)
{
#if JV_P == 4
	JV_CHECK(ctx == &jv_pool && dst == (uint8_t *)jv_mem && dst_len == jv_nh, "the pool's generator fills the caller's buffer");
	jv_ns++;
#else
	(void)ctx; (void)dst; (void)dst_len;
#endif
}
void jent_health_init(struct rand_data *ec, enum jent_health_init_type t) { (void)ec; (void)t; }
unsigned int jent_health_failure(struct rand_data *ec) { (void)ec; return 1; }

#if JV_P == 2 || JV_P == 5
unsigned char *jv_mem;
uint32_t jv_loc0;
#endif

static void jv_loop_ptr(uint8_t *p)
{
#ifdef JV_CBMC
	if (!p)
		jv_blk = NULL;
	else if (__CPROVER_OBJECT_SIZE(p) == BLK)
		jv_blk = p - __CPROVER_POINTER_OFFSET(p);
#endif
}
/* between two rounds the block buffer holds the last digest and is otherwise untouched */
static int jv_blk_ok(void)
{
	unsigned int i;
	int ok = 1;

	if (jv_blk)
		for (i = 0; i < BLK; i++)
			ok &= jv_blk[i] == (i >= 9 && i < 41 ? jv_digest[i - 9] : jv_blk_e[i]);
	return ok;
}
static void jv_loop_entry(int l)
{
	unsigned int i;

	(void)l;
	if (jv_blk)
		for (i = 0; i < BLK; i++)
			jv_blk_e[i] = jv_blk[i];
}
static void jv_loop_havoc(void)
{
#ifdef JV_CBMC
	unsigned int i, loc;
	uint64_t n;

	if (jv_blk)
		for (i = 0; i < BLK; i++) {
			uint8_t v;
			jv_blk[i] = v;
		}
	for (i = 0; i < 32 && jv_blk; i++) {
		uint8_t v;
		jv_digest[i] = v;
	}
	jv_nh = n;
	jv_ec.memlocation = loc;
	__CPROVER_havoc_object(&jv_wrong);
	__CPROVER_havoc_object(&jv_hwiped);
	__CPROVER_havoc_object(jv_mem);
#endif
}

#include JV_TU

#if JV_SRC == 1
# define JV_MEASURE jent_measure_jitter_ntg1_memaccess
#elif JV_SRC == 2
# define JV_MEASURE jent_measure_jitter_ntg1_sha3
#else
# define JV_MEASURE jent_measure_jitter
#endif

static void setup(void)
{
	jv_fill_ec(&jv_ec);
	jv_pool.r = BLK;
	jv_pool.rword = 17;
	jv_ec.hash_state = &jv_pool;
	JV_ASSUME(jv_ec.jent_common_timer_gcd >= 1);
	JV_ASSUME(jv_ec.hashloopcnt >= 1 && jv_ec.hashloopcnt <= 128);
	JV_ASSUME(jv_ec.memaccessloops >= 1 && jv_ec.memaccessloops <= 1u << 20);
}

#if JV_P == 1
void jv_harness(void)
{
	uint64_t lc, rep = 0, rounds, base;
	unsigned int ret, i;
	int want = jv_bool();

	setup();
	lc = JV_T(uint64_t);
#ifndef JV_CBMC
	lc &= 0xff;
	jv_ec.hashloopcnt = 1 + jv_ec.hashloopcnt % 7;
	jv_ec.memaccessloops = 1 + jv_ec.memaccessloops % 7;
#endif
	jv_ec.memmask = JV_MEMSZ - 1;
	jv_ec.memlocation &= JV_MEMSZ - 1;
#if JV_SRC == 1
	jv_ec.mem = jv_mem;
#else
	jv_ec.mem = jv_bool() ? jv_mem : NULL;
#endif
	jv_old = jv_ec;
	ret = JV_MEASURE(&jv_ec, lc, want ? &rep : NULL);

	JV_CHECK(!jv_wrong, "only the pool and the hash loop's own context are worked on");
	JV_CHECK(jv_ns == 1, "every measurement is judged by the health tests once");
	JV_CHECK((ret != 0) == (jv_stuck != 0), "the verdict of the health tests is returned");
	JV_CHECK(!want || rep == jv_delta, "the delta reported is the delta judged");
#if JV_SRC == 3
	base = jv_old.prev_time;
	JV_CHECK(jv_nt >= 1 && jv_ec.prev_time == jv_t[1], "the next measurement starts where this one ended");
	rounds = lc ? lc : jv_old.hashloopcnt;
#else
	base = jv_t[0];
	JV_CHECK(jv_nt >= 2, "the start-up sources measure only their own work");
	rounds = lc ? lc : 3ull * jv_old.hashloopcnt;
#endif
	JV_CHECK(jv_delta == (jv_t[1] - base) / jv_old.jent_common_timer_gcd,
		 "the delta is the elapsed time in units of the common divisor");
	JV_CHECK(jv_plen == BLK, "every measurement is absorbed as one block");
	for (i = 0; i < 8; i++)
		JV_CHECK(jv_blk_in[i] == (uint8_t)(jv_delta >> (8 * i)), "the full delta judged is absorbed");
	JV_CHECK(jv_blk_in[8] == JV_SRC, "the domain byte of the source is absorbed");
	JV_CHECK(jv_blk_wiped, "the block is wiped");
#if JV_SRC != 1
	JV_CHECK(jv_nh == rounds, "the hash loop runs as often as configured");
	for (i = 0; i < 32; i++)
		JV_CHECK(jv_blk_in[9 + i] == jv_digest[i], "the complete digest of the hash loop is absorbed");
	JV_CHECK(jv_hctx && jv_hwiped, "the context of the hash loop is wiped");
#endif
#if JV_SRC == 2
	JV_CHECK(jv_nh_t[0] == 0 && jv_nh_t[1] == rounds, "the interval measured is that of the hash loop");
#elif JV_SRC == 1
	JV_CHECK(jv_loc_t[0] == jv_old.memlocation && jv_loc_t[1] == jv_ec.memlocation, "the interval measured is that of the memory access");
#endif
	JV_CHECK(jv_same(&jv_ec, &jv_old, G_CFG | G_ID | G_SELF | G_STATE | G_HF), "configuration, identity and failures stay");
	JV_COVER(jv_delta > 1000 && want && lc == 0, "a measurement");
	JV_COVER(jv_stuck, "a stuck measurement is absorbed as well");
}
#elif JV_P == 2 || JV_P == 5
void jv_harness(void)
{
	uint64_t lc, rep, n;
	unsigned int k;

	setup();
	lc = JV_T(uint64_t);
#ifdef JV_K
	k = JV_K;
#else
	k = 10 + JV_T(unsigned int) % 20;
#endif
#ifndef JV_CBMC
	lc &= 0xffff;
	jv_ec.memaccessloops = 1 + jv_ec.memaccessloops % 2000;
	jv_ec.hashloopcnt = 1;
# ifndef JV_K
	k = 10 + k % 5;
# endif
#endif
	jv_mem = malloc((size_t)1 << k);
	JV_ASSUME(jv_mem != NULL);
	jv_ec.mem = jv_mem;
	jv_ec.memmask = (1u << k) - 1;
	jv_ec.memlocation &= jv_ec.memmask;
	jv_loc0 = jv_ec.memlocation;
	jv_old = jv_ec;
	JV_MEASURE(&jv_ec, lc, &rep);
	JV_CHECK(jv_ec.memlocation <= jv_ec.memmask, "the position stays inside the region");
	JV_CHECK(jv_ec.mem == jv_mem && jv_ec.memmask == jv_old.memmask, "the region stays");
#if JV_P == 5
	n = lc ? lc : 3ull * jv_old.memaccessloops;
	JV_CHECK(((jv_ec.memlocation - jv_loc0 - JV_MOVED(n)) & jv_ec.memmask) == 0,
		 "as many accesses as configured, each moving on by a block less one");
#endif
#ifdef JV_K
	JV_COVER(lc > 5000, "many accesses");
#else
	JV_COVER(k == 29 && lc == 0, "largest region");
	JV_COVER(k == 10 && lc > 5000, "smallest region");
#endif
}
#elif JV_P == 6
void jv_harness(void)
{
	unsigned int i, k, sum;
	static const uint64_t lcs[2] = { 0, 1300 };

	setup();
	for (k = 0; k < 2; k++) {
		for (i = 0; i < JV_MEMSZ; i++)
			jv_mem[i] = 0;
		jv_ec.hashloopcnt = 1;
		jv_ec.memaccessloops = 300;
		jv_ec.memmask = JV_MEMSZ - 1;
		jv_ec.memlocation = 5;
		jv_ec.mem = jv_mem;
		jv_nh = 0; jv_plen = 0;
		JV_MEASURE(&jv_ec, lcs[k], NULL);
		for (i = 0, sum = 0; i < JV_MEMSZ; i++)
			sum += jv_mem[i];
		JV_CHECK(sum == (k ? 1300 : 300), "as many bytes are incremented as accesses are configured");
	}
}
#elif JV_P == 3
void jv_harness(void)
{
	uint64_t lc, n;
	unsigned int i, sum = 0, loc, want[JV_MEMSZ];

	setup();
	for (i = 0; i < JV_MEMSZ; i++)
		jv_mem[i] = jv_mem0[i] = JV_T(unsigned char);
	lc = JV_T(uint64_t) & 3;
	jv_ec.hashloopcnt = 1;
	jv_ec.memaccessloops = 1;
	jv_ec.memmask = JV_MEMSZ - 1;
	jv_ec.memlocation &= JV_MEMSZ - 1;
	jv_ec.mem = jv_bool() ? jv_mem : NULL;
	jv_old = jv_ec;
	JV_MEASURE(&jv_ec, lc, NULL);
	n = lc ? lc : JV_SRC == 1 ? 3 : 1;
	if (!jv_old.mem)
		n = 0;
	for (i = 0; i < JV_MEMSZ; i++) {
		sum += (uint8_t)(jv_mem[i] - jv_mem0[i]);
		want[i] = 0;
	}
	JV_CHECK(sum == n, "as many bytes are incremented as accesses are configured");
#if JV_SRC == 1
	loc = jv_old.memlocation;
	for (i = 0; i < n; i++) {
		want[loc % JV_MEMSZ]++;
		loc = (loc + JV_STRIDE) % JV_MEMSZ;
	}
	for (i = 0; i < JV_MEMSZ; i++)
		JV_CHECK((uint8_t)(jv_mem[i] - jv_mem0[i]) == want[i], "the deterministic positions are visited");
#else
	(void)loc;
	JV_COVER(jv_old.mem && lc == 2 && jv_mem[3] != jv_mem0[3] && jv_mem[6] != jv_mem0[6], "any position can be visited");
	JV_COVER(jv_old.mem && lc == 1 && jv_mem[5] != jv_mem0[5], "any position can be visited (2)");
#endif
	JV_COVER(!jv_old.mem, "no region");
}
#else
void jv_harness(void)
{
	setup();
	jv_nh = JV_T(size_t);
	jent_read_random_block(&jv_ec, (char *)jv_mem, jv_nh);
	JV_CHECK(jv_ns == 1, "one block is generated per request");
	JV_COVER(jv_nh == 32, "a block");
}
#endif
