/* FIPS 202: Keccak-f[1600] on lanes, written from the standard (section 3.2) */
#ifndef JV_KECCAK_SPEC_H
#define JV_KECCAK_SPEC_H
#include <stdint.h>

static uint64_t spec_rotl(uint64_t x, unsigned int n)
{
	return n % 64 ? (x << (n % 64)) | (x >> (64 - n % 64)) : x;
}

/* 3.2.5: rc(t) is the output of the LFSR x^8 + x^6 + x^5 + x^4 + 1 */
static int spec_rc(unsigned int t)
{
	unsigned int r = 1, i;
	for (i = 0; i < t % 255; i++) {
		r <<= 1;
		if (r & 0x100)
			r ^= 0x171;
	}
	return r & 1;
}

static uint64_t spec_RC(unsigned int ir)
{
	uint64_t v = 0;
	unsigned int j;
	for (j = 0; j <= 6; j++)
		if (spec_rc(j + 7 * ir))
			v |= 1ULL << ((1u << j) - 1);
	return v;
}

static void spec_round(uint64_t a[25], unsigned int ir)
{
	uint64_t c[5], d[5], b[25];
	unsigned int x, y, t, off;

	for (x = 0; x < 5; x++)				/* theta */
		c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
	for (x = 0; x < 5; x++)
		d[x] = c[(x + 4) % 5] ^ spec_rotl(c[(x + 1) % 5], 1);
	for (x = 0; x < 5; x++)
		for (y = 0; y < 5; y++)
			a[x + 5 * y] ^= d[x];
	x = 1;						/* rho */
	y = 0;
	for (t = 0; t < 24; t++) {
		off = ((t + 1) * (t + 2) / 2) % 64;
		a[x + 5 * y] = spec_rotl(a[x + 5 * y], off);
		off = y;
		y = (2 * x + 3 * y) % 5;
		x = off;
	}
	for (x = 0; x < 5; x++)				/* pi */
		for (y = 0; y < 5; y++)
			b[x + 5 * y] = a[(x + 3 * y) % 5 + 5 * x];
	for (x = 0; x < 5; x++)				/* chi */
		for (y = 0; y < 5; y++)
			a[x + 5 * y] = b[x + 5 * y] ^
				       (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
	a[0] ^= spec_RC(ir);				/* iota */
}

static void spec_keccak_f(uint64_t a[25])
{
	unsigned int i;
	for (i = 0; i < 24; i++)
		spec_round(a, i);
}
#endif
