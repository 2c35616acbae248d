/* jent_gcd_init(), jent_gcd_fini() and jent_gcd_selftest(): buffer handling and verdict (C22) */
#include "jv.h"
#include "src/jitterentropy-internal.h"
#include "src/jitterentropy-gcd.h"

uint64_t jv_buf[1024];
size_t jv_size;
unsigned int jv_fl;
int jv_live, jv_bad, jv_oom;

void *jent_zalloc(size_t len, unsigned int flags)
{
	unsigned int i;

	if (jv_live)
		jv_bad = 1;
	if (flags != jv_fl || len > sizeof(jv_buf))
		jv_bad = 1;
	if (jv_bool()) {
		jv_oom = 1;
		return NULL;
	}
	for (i = 0; i < 16; i++)
		jv_buf[i] = 0;
	jv_live = 1;
	jv_size = len;
	return jv_buf;
}
void jent_zfree(void *p, size_t len)
{
	if (p != jv_buf || !jv_live || len != jv_size)
		jv_bad = 1;
	jv_live = 0;
}

#include "arch/jitterentropy-arch-atomic.c"
#include JV_TU

void jv_harness(void)
{
	size_t n = (size_t)(jv_u64() & 1023) + 1;
	uint64_t v = 0, *p;
	int r;

	jv_fl = JV_T(unsigned int);
	p = jent_gcd_init(n, jv_fl);
	JV_CHECK(!jv_bad && (p ? p == jv_buf && jv_live && jv_size >= n * sizeof(uint64_t) : jv_oom), "a buffer for all deltas, with the flags of the caller");
	jent_gcd_fini(p, n);
	JV_CHECK(!jv_bad && !jv_live, "released with its size");
	jv_oom = 0;
	r = jent_gcd_selftest(jv_fl);
	JV_CHECK(r == (jv_oom ? EMEM : 0), "the arithmetic self test passes");
	JV_CHECK(!jv_bad && !jv_live, "and releases its buffer");
	JV_CHECK(jent_gcd_get(&v) && v == 0, "without publishing a divisor");
	JV_COVER(r == 0, "pass");
	JV_COVER(r == EMEM, "no memory");
}
