/*
 * Absorbing one full block: state := Keccak-f[1600](state xor block), for every
 * state and every block.  The permutation is reached through the public
 * jent_sha3_update(), so its internal structure is free.
 */
#include "jv.h"
#include "src/jitterentropy-sha3.h"
#include "keccak_spec.h"

#include JV_TU

void jv_harness(void)
{
	struct jent_sha_ctx ctx;
	uint8_t block[JENT_SHA3_256_SIZE_BLOCK];
	uint64_t want[25];
	unsigned int i, j;

	JV_COVER(1, "no assumption is made");
	jent_sha3_256_init(&ctx);
	for (i = 0; i < 25; i++) {
		want[i] = jv_u64();
		ctx.state[i] = want[i];
	}
	for (i = 0; i < 17; i++) {
		uint64_t v = 0;
#ifdef JV_BLOCK
		v = jv_u64();
#endif
		for (j = 0; j < 8; j++)
			block[8 * i + j] = (uint8_t)(v >> (8 * j));
		want[i] ^= v;
	}
	jent_sha3_update(&ctx, block, sizeof(block));
	spec_keccak_f(want);
	JV_CHECK(ctx.state[0] == want[0] && ctx.state[1] == want[1] && ctx.state[2] == want[2] &&
		 ctx.state[3] == want[3] && ctx.state[4] == want[4] && ctx.state[5] == want[5] &&
		 ctx.state[6] == want[6] && ctx.state[7] == want[7] && ctx.state[8] == want[8] &&
		 ctx.state[9] == want[9] && ctx.state[10] == want[10] && ctx.state[11] == want[11] &&
		 ctx.state[12] == want[12] && ctx.state[13] == want[13] && ctx.state[14] == want[14] &&
		 ctx.state[15] == want[15] && ctx.state[16] == want[16] && ctx.state[17] == want[17] &&
		 ctx.state[18] == want[18] && ctx.state[19] == want[19] && ctx.state[20] == want[20] &&
		 ctx.state[21] == want[21] && ctx.state[22] == want[22] && ctx.state[23] == want[23] &&
		 ctx.state[24] == want[24],
		 "one absorbed block is one application of Keccak-f[1600]");
}
