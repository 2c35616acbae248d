/*
 * Sponge contracts of jent_sha3_update() (JV_P 1) and jent_sha3_final() (JV_P 2)
 * over an abstract permutation: every call of the permutation must find the
 * previous state xored with the next full block of the message, and nothing else.
 */
#include "jv.h"
#include "src/jitterentropy-sha3.h"

#define RATE 136u
#ifndef JV_MAXMSG	/* no wrap of the message length counter (2^64 bytes) */
# define JV_MAXMSG ((size_t)-1 / 2)
#endif
#ifndef JV_MAXLEN
# define JV_MAXLEN 0x7fffffffu
#endif

struct jent_sha_ctx jv_ctx;
struct jent_sha_ctx jv_old;
uint64_t jv_prev[25];	/* ghost: the state after the last permutation */
uint64_t jv_np;		/* ghost: number of permutations */
const uint8_t *jv_in;	/* the caller's data */
size_t jv_inlen;
const uint8_t *jv_pin;	/* ghost: the caller's data not yet permuted */
size_t jv_left;		/* ghost: and its length */
size_t jv_part;		/* ghost: bytes buffered at entry and not yet permuted */
/* the lane looked at: one per run, so that the verifier sees only the bytes that matter for it */
#ifdef JV_LANE
# define jv_lane ((unsigned int)JV_LANE)
#else
unsigned int jv_lane;
#endif
int jv_final;

#ifdef JV_CBMC	/* the bounds of the contract's own reads follow from its requirements */
# pragma CPROVER check push
# pragma CPROVER check disable "pointer"
# pragma CPROVER check disable "pointer-overflow"
# pragma CPROVER check disable "bounds"
#endif
/* byte i of the next block of the message (with the padding when finalising) */
static uint8_t msg_byte(size_t i)
{
	uint8_t v;

	if (i < jv_part)
		return jv_old.partial[i];
	if (!jv_final)
		return jv_pin[i - jv_part];
	v = i == jv_part ? jv_old.padding : 0;
	if (i == RATE - 1)
		v |= 0x80;
	return v;
}

static uint64_t msg_lane(size_t off)
{
	uint64_t v = 0;
	unsigned int j;

	for (j = 0; j < 8; j++)
		v |= (uint64_t)msg_byte(off + j) << (8 * j);
	return v;
}

#ifdef JV_CBMC
# pragma CPROVER check pop
#endif

/* contract of the permutation: requires the right input, changes only the state */
void jv_keccak(uint64_t s[25])
{
	unsigned int i;
	uint64_t want = jv_prev[jv_lane];

	JV_CHECK(s == jv_ctx.state, "the permutation works on the context's state");
	JV_CHECK(jv_final || jv_left >= RATE - jv_part,
		 "the permutation runs only on a full block");
	if (jv_lane < 17)
		want ^= msg_lane(8 * jv_lane);
	JV_CHECK(s[jv_lane] == want, "the state is xored with exactly the next block");
	for (i = 0; i < 25; i++) {
		jv_prev[i] = jv_u64();
		s[i] = jv_prev[i];
	}
	if (jv_np < 2)
		jv_np++;
	if (!jv_final) {
		jv_pin += RATE - jv_part;
		jv_left -= RATE - jv_part;
	}
	jv_part = 0;
}

size_t jv_mlen[8];
static int same_cfg(void);
/* what a loop of the absorbing phase must leave alone */
static int jv_hard(int l)
{
	return same_cfg() && jv_ctx.msg_len == jv_mlen[l] && jv_left <= jv_inlen &&
	       jv_pin == jv_in + (jv_inlen - jv_left);
}
static void jv_loop_entry(int l) { jv_mlen[l] = jv_ctx.msg_len; }
static void jv_loop_havoc(void)
{
#ifdef JV_CBMC
	size_t n, m, p;
	unsigned int i;

	/* everything else of the context is held by jv_hard(), asserted at the head */
	for (i = 0; i < 25; i++) {
		uint64_t v, w;
		jv_ctx.state[i] = v;
		jv_prev[i] = w;
	}
	for (i = 0; i < RATE; i++) {
		uint8_t v;
		jv_ctx.partial[i] = v;
	}
	jv_np = n;
	m &= JV_MAXLEN;
	__CPROVER_assume(m <= jv_inlen);
	jv_left = m;
	jv_pin = jv_in + (jv_inlen - m);
	jv_part = p;
#endif
}

#ifdef JV_CBMC
# pragma CPROVER check push
# pragma CPROVER check disable "pointer"
# pragma CPROVER check disable "pointer-overflow"
# pragma CPROVER check disable "bounds"
/* memcpy/memset on the block buffer of the context, byte by byte with constant
 * destination indices (the built-in model is far too costly at symbolic offsets) */
static void *jv_memcpy(void *dst, const void *src, size_t n)
{
	size_t off = (size_t)((uint8_t *)dst - jv_ctx.partial), j;

	if (!n)
		return dst;
	JV_CHECK(__CPROVER_same_object(dst, &jv_ctx) && off < RATE && n <= RATE - off,
		 "copies stay inside the block buffer");
	JV_CHECK(__CPROVER_r_ok(src, n), "the source of a copy is readable");
	for (j = 0; j < RATE; j++)
		if (j >= off && j - off < n)
			jv_ctx.partial[j] = ((const uint8_t *)src)[j - off];
	return dst;
}
static void *jv_memset(void *dst, int c, size_t n)
{
	size_t off = (size_t)((uint8_t *)dst - jv_ctx.partial), j;

	if (!n)
		return dst;
	JV_CHECK(__CPROVER_same_object(dst, &jv_ctx) && off < RATE && n <= RATE - off,
		 "the block buffer is wiped within its bounds");
	for (j = 0; j < RATE; j++)
		if (j >= off && j - off < n)
			jv_ctx.partial[j] = (uint8_t)c;
	return dst;
}
# pragma CPROVER check pop
# define memcpy jv_memcpy
# define memset jv_memset
#endif

#include JV_TU

/* fields of the context that stay */
static int same_cfg(void)
{
	return jv_ctx.r == jv_old.r && jv_ctx.rword == jv_old.rword &&
	       jv_ctx.digestsize == jv_old.digestsize && jv_ctx.padding == jv_old.padding &&
	       jv_ctx.initially_seeded == jv_old.initially_seeded;
}

static void setup(void)
{
	unsigned int i;

	for (i = 0; i < 25; i++)
		jv_ctx.state[i] = jv_u64();
	for (i = 0; i < RATE; i++)
		jv_ctx.partial[i] = JV_T(uint8_t);
	jv_ctx.msg_len = JV_T(size_t) & JV_MAXMSG;
	jv_ctx.r = RATE;
	jv_ctx.rword = RATE / 8;
	jv_ctx.digestsize = JV_T(uint8_t);
	jv_ctx.padding = jv_bool() ? 0x06 : 0x1f;
	jv_ctx.initially_seeded = jv_bool();
	jv_part = jv_ctx.msg_len % jv_ctx.r;
	jv_old = jv_ctx;
	for (i = 0; i < 25; i++)
		jv_prev[i] = jv_ctx.state[i];
	jv_np = 0;
#ifndef JV_LANE
	jv_lane = JV_T(unsigned int);
	JV_ASSUME(jv_lane < 25);
#endif
}

#if JV_P == 1
void jv_harness(void)
{
	uint64_t b;
	size_t n;
	uint8_t *buf;

	setup();
	n = JV_T(size_t) & JV_MAXLEN;
	jv_inlen = n;
	buf = malloc(n ? n : 1);
	JV_ASSUME(buf != NULL);
#ifndef JV_CBMC
	for (b = 0; b < n; b++)
		buf[b] = (uint8_t)(b * 167 + 13);
#endif
	jv_in = jv_pin = buf;
	jv_left = n;
	jent_sha3_update(&jv_ctx, buf, n);

	JV_CHECK(jv_ctx.msg_len == jv_old.msg_len + n, "the message length advances by the input length");
	JV_CHECK(same_cfg(), "absorbing changes no parameter of the sponge");
	JV_CHECK(jv_ctx.state[jv_lane] == jv_prev[jv_lane], "the state is left as the last permutation left it");
	JV_CHECK(jv_left < RATE - jv_part, "every full block is permuted");
	if (jv_lane < 17)
		for (b = 8 * jv_lane; b < 8 * jv_lane + 8; b++)
			JV_CHECK(b >= jv_part + jv_left || jv_ctx.partial[b] == msg_byte(b),
				 "the rest of the message is buffered");
	JV_COVER(jv_np == 1 && jv_old.msg_len == 17 && jv_left == 1, "partial block completed");
	JV_COVER(jv_np >= 2, "several blocks");
}
#else
void jv_harness(void)
{
	uint8_t digest[256], b0;
	unsigned int i, b;

	setup();
	jv_final = 1;
	b0 = JV_T(uint8_t);
	for (i = 0; i < sizeof(digest); i++)
		digest[i] = b0;
	/* whole lanes only: 32, 64 and 96 bytes are used */
	JV_ASSUME(jv_ctx.digestsize <= RATE && jv_ctx.digestsize % 8 == 0);
	jent_sha3_final(&jv_ctx, digest);

	JV_CHECK(jv_np == 1, "finalising permutes exactly once");
	JV_CHECK(same_cfg(), "finalising changes no parameter of the sponge");
	JV_CHECK(jv_ctx.msg_len == 0, "the context is ready for a new message");
	b = JV_T(unsigned int);
	JV_ASSUME(b < sizeof(digest));
	JV_CHECK(digest[b] == (b < jv_old.digestsize ? (uint8_t)(jv_prev[b / 8] >> (8 * (b % 8))) : b0),
		 "the digest is the first bytes of the state, and nothing else is written");
	JV_CHECK(jv_ctx.state[jv_lane] == 0, "no state of the old message is left");
	JV_CHECK(b >= RATE || jv_ctx.partial[b] == 0, "no buffered data of the old message is left");
	JV_COVER(jv_old.digestsize == 96, "long output");
}
#endif
