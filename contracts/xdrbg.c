/*
 * Contracts on top of the sponge of src/jitterentropy-sha3.c.
 *  JV_P 1: generation of one block follows XDRBG-256 (C12)
 *  JV_P 2: the known-answer test compares every byte (C11)
 *  JV_P 3: initialisation, allocation and release of a context (C11, C12, C15)
 *
 * jent_sha3_update() and jent_sha3_final() are contract boundaries: their own
 * contracts (sha3_sponge.c) say that the digest is a function of the
 * concatenation of what was absorbed, so only that concatenation is followed.
 */
#include <string.h>
#include <stdlib.h>
#include "jv.h"
#include "src/jitterentropy-internal.h"
#include "src/jitterentropy-sha3.h"
#include "arch/jitterentropy-arch-memory.h"

#define JV_MSG	200
#define JV_FIN	6

struct jent_sha_ctx jv_ctx;
/* ghost: the message absorbed since the last finalisation */
uint8_t jv_msg[JV_MSG];
size_t jv_mlen;
/* ghost: the finalisations: message, output */
uint8_t jv_m0[JV_MSG], jv_m1[JV_MSG];
size_t jv_l0, jv_l1;
uint8_t jv_o0[136], jv_o1[136];
unsigned int jv_nf, jv_ds[JV_FIN];
uint8_t *jv_dig[JV_FIN];
int jv_wiped[JV_FIN], jv_wrong, jv_seeded_at[JV_FIN];
const struct jent_sha_ctx *jv_want;
/* the known-answer test: byte jv_fb of finalisation jv_fn is off in the second run */
unsigned int jv_fn, jv_fb, jv_run;
uint8_t jv_out[JV_FIN][96], jv_flip;

void jent_sha3_update__jv(struct jent_sha_ctx *ctx, const uint8_t *in, size_t inlen)
{
	unsigned int i;

#if JV_P == 1
	if (ctx != &jv_ctx || inlen > JV_MSG - jv_mlen) {
		jv_wrong = 1;
		return;
	}
	for (i = 0; i < JV_MSG; i++)
		if (i < inlen)
			jv_msg[jv_mlen + i] = in[i];
	jv_mlen += inlen;
#else
	(void)ctx; (void)in; (void)inlen; (void)i;
#endif
}

void jent_sha3_final__jv(struct jent_sha_ctx *ctx, uint8_t *digest)
{
	unsigned int i;

#if JV_P == 1
	if (ctx != &jv_ctx || jv_nf >= 2) {
		jv_wrong = 1;
		return;
	}
	if (ctx->digestsize > 136 || ctx->digestsize % 8)
		jv_wrong = 1;
	jv_ds[jv_nf] = ctx->digestsize;
	jv_dig[jv_nf] = digest;
	for (i = 0; i < 136; i++)
		if (i < ctx->digestsize)
			digest[i] = jv_nf ? jv_o1[i] : jv_o0[i];
	for (i = 0; i < JV_MSG; i++) {
		if (jv_nf)
			jv_m1[i] = jv_msg[i];
		else
			jv_m0[i] = jv_msg[i];
	}
	if (jv_nf)
		jv_l1 = jv_mlen;
	else
		jv_l0 = jv_mlen;
	jv_seeded_at[jv_nf] = ctx->initially_seeded;
	jv_nf++;
	jv_mlen = 0;
#else
	if (jv_nf >= JV_FIN || ctx->digestsize > 96) {
		jv_wrong = 1;
		return;
	}
	jv_ds[jv_nf] = ctx->digestsize;
	for (i = 0; i < 96; i++)
		if (i < ctx->digestsize)
			digest[i] = jv_out[jv_nf][i] ^ (uint8_t)(jv_run && jv_nf == jv_fn && i == jv_fb ? jv_flip : 0);
	jv_nf++;
#endif
}

void jent_memset_secure(void *s, size_t n)
{
	unsigned int k;

	memset(s, 0, n);
#if JV_P == 1
	for (k = 0; k < 2; k++)
		if (k < jv_nf && jv_nf == 2 && (uint8_t *)s <= jv_dig[k] && (uint8_t *)s + n >= jv_dig[k] + jv_ds[k])
			jv_wiped[k] = 1;
#else
	(void)k;
#endif
}

int jv_live, jv_zfail;
unsigned int jv_zflags;
size_t jv_zsize;
void *jent_zalloc(size_t len, unsigned int flags)
{
#if JV_P == 3
	JV_CHECK(len >= sizeof(struct jent_sha_ctx) && len <= sizeof(jv_ctx), "room for the context");
	jv_zflags = flags;
	jv_zsize = len;
	if (jv_zfail)
		return NULL;
	memset(&jv_ctx, 0, sizeof(jv_ctx));
	jv_live++;
#else
	(void)len; (void)flags;
#endif
	return &jv_ctx;
}
void jent_zfree(void *ptr, size_t len)
{
#if JV_P == 3
	JV_CHECK(ptr == &jv_ctx && len == jv_zsize && jv_live == 1, "exactly what was allocated is released, whole");
	jv_live--;
#else
	(void)ptr; (void)len;
#endif
}

#include JV_TU

#if JV_P == 1
void jv_harness(void)
{
	uint8_t dst[72], d0;
	size_t n = JV_T(size_t);
	size_t m, got;
	int seeded = jv_bool();
	unsigned int i;

	d0 = JV_T(uint8_t);
	for (i = 0; i < sizeof(dst); i++)
		dst[i] = d0;
	for (i = 0; i < 136; i++) {
		jv_o0[i] = JV_T(uint8_t);
		jv_o1[i] = JV_T(uint8_t);
	}
	jent_shake256_init(&jv_ctx);
	jv_ctx.initially_seeded = seeded & 1;
	/* what was absorbed before is any message: only what is appended counts */
	jent_drbg_generate_block(&jv_ctx, dst + 8, n);

	JV_CHECK(!jv_wrong && jv_nf == 2, "one seeding and one generation, both on the pool");
	JV_CHECK(jv_l0 == 1 && jv_m0[0] == (seeded ? 85 : 0),
		 "the seed is closed with domain byte 0 the first time and 85 later");
	JV_CHECK(jv_ds[0] == 64, "a new 512-bit state is derived from the seed");
	JV_CHECK(jv_l1 == 65 && jv_m1[64] == 170, "generation uses domain byte 170");
	for (i = 0; i < 64; i++)
		JV_CHECK(jv_m1[i] == jv_o0[i], "generation works on the complete derived state and nothing else");
	got = n > 32 ? 32 : n;
	JV_CHECK(jv_ds[1] >= 64 + got, "the output is squeezed behind the next state");
	for (i = 0; i < sizeof(dst); i++)
		JV_CHECK(dst[i] == (i >= 8 && i < 8 + got ? jv_o1[64 + (i - 8) % 72] : d0),
			 "the caller gets at most 32 bytes from behind the state part, and nothing else is written");
	JV_CHECK(jv_mlen == 64, "only the next state is carried over");
	for (i = 0; i < 64; i++)
		JV_CHECK(jv_msg[i] == jv_o1[i], "the next state is carried over whole");
	JV_CHECK(jv_ctx.initially_seeded, "later calls are reseeds");
	JV_CHECK(jv_wiped[0] && jv_wiped[1], "what held state and output is wiped");
	m = n;
	JV_COVER(!seeded && m == 32, "first block");
	JV_COVER(seeded && m == 5, "partial block");
}
#elif JV_P == 2
void jv_harness(void)
{
	unsigned int i, k, n1, last;
	int r1, r2, bad1;

	for (k = 0; k < JV_FIN; k++)
		for (i = 0; i < 96; i++)
			jv_out[k][i] = JV_T(uint8_t);
	jv_fn = JV_T(unsigned int) & 7;
	jv_fb = JV_T(unsigned int) & 127;
	jv_flip = JV_T(uint8_t);
	JV_ASSUME(jv_flip != 0);
	jv_run = 0;
	r1 = jent_sha3_tester();
	n1 = jv_nf;
	bad1 = jv_wrong;
	JV_CHECK(!bad1, "the test uses the hash and the generator of this library");
	last = JV_FIN;
	for (k = 0; k < JV_FIN; k++)
		if (k < n1 && jv_ds[k] == 96)
			last = k;
	jv_nf = 0;
	jv_run = 1;
	r2 = jent_sha3_tester();
	if (jv_fn < n1 && ((jv_ds[jv_fn] == 32 && jv_fb < 32) || (jv_fn == last && jv_fb >= 64 && jv_fb < 96))) {
		JV_CHECK(r1 || r2, "two different digests never both pass the known-answer test");
		JV_COVER(!r1 && jv_ds[jv_fn] == 32 && jv_fb == 31, "the hash");
		JV_COVER(!r1 && jv_fn == last && jv_fb == 95, "the generator");
	}
	JV_CHECK(r1 || last < JV_FIN, "the generator is tested");
}
#else
void jv_harness(void)
{
	unsigned int i, fl = JV_T(unsigned int);
	uint8_t *p = (uint8_t *)&jv_ctx;
	void *h = &i;
	int r;

	for (i = 0; i < sizeof(jv_ctx); i++)
		p[i] = JV_T(uint8_t);
	if (jv_bool()) {
		jent_shake256_init(&jv_ctx);
		JV_CHECK(jv_ctx.padding == 0x1f && !jv_ctx.initially_seeded, "SHAKE-256 suffix, not seeded yet");
	} else {
		jent_sha3_256_init(&jv_ctx);
		JV_CHECK(jv_ctx.padding == 0x06 && jv_ctx.digestsize == 32, "SHA3-256 suffix and digest size");
	}
	JV_CHECK(jv_ctx.r == 136 && jv_ctx.rword == 17, "rate of 1088 bits");
	JV_CHECK(jv_ctx.msg_len == 0, "an empty message");
	for (i = 0; i < 25; i++)
		JV_CHECK(jv_ctx.state[i] == 0, "an all-zero state");

	jv_zfail = jv_bool();
	r = jent_sha3_alloc(&h, fl);
	if (jv_zfail) {
		JV_CHECK(r, "a failed allocation is reported");
	} else {
		JV_CHECK(!r && h == &jv_ctx && jv_zflags == fl, "the context is allocated as demanded");
		jent_sha3_dealloc(h);
		JV_CHECK(jv_live == 0, "a context is released once");
		JV_COVER(r == 0, "allocated");
	}
	jent_sha3_dealloc(NULL);
}
#endif
