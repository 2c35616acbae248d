/*
 * Contract of jent_zalloc()/jent_zfree() (C14), POSIX backend, over a model of the
 * mapping the operating system hands out.  The attributes (protection, contents,
 * lock, dump exclusion) are tracked for one arbitrary byte jv_k of the mapping, so
 * what is shown for it holds for each of them, for every size and page size.
 */
#ifndef _DEFAULT_SOURCE
#define _DEFAULT_SOURCE
#endif
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
#include "jv.h"
#include "src/jitterentropy-internal.h"

#ifdef JV_CBMC
static uint8_t jv_obj[1];
# define jv_base jv_obj
# define JV_OFF(p)	((uint64_t)__CPROVER_POINTER_OFFSET(p))
# define JV_SAME(p)	__CPROVER_same_object((p), jv_base)
#else
# define jv_base	((uint8_t *)0x100000000000ul)
# define JV_OFF(p)	((uint64_t)((uintptr_t)(p) - (uintptr_t)jv_base))
# define JV_SAME(p)	1
#endif

long jv_sc;		/* what sysconf() says */
uint64_t jv_page, jv_total, jv_k, jv_maps;
int jv_mapped, jv_prot, jv_zero, jv_locked, jv_lock_tried, jv_lock_err, jv_nodump, jv_wrong, jv_dirty_release;

static uint64_t jv_round(uint64_t n) { return (n + jv_page - 1) & ~(jv_page - 1); }
/* k lies in the pages of [p, p + n) */
static int jv_hit(const void *p, uint64_t n)
{
	uint64_t o = JV_OFF(p);

	if (!jv_mapped || !JV_SAME(p) || o > jv_total || n > jv_total - o) {
		jv_wrong = 1;
		return 0;
	}
	return jv_k >= (o & ~(jv_page - 1)) && jv_k < jv_round(o + n);
}
static long jv_sysconf(int n)
{
	if (n != _SC_PAGESIZE)
		return -1;
	return jv_sc;
}
static void *jv_mmap(void *a, size_t n, int prot, int flags, int fd, long off)
{
	(void)a; (void)fd; (void)off;
	jv_maps++;
	/* no address space holds more */
	if (!n || n > 1ul << 47 || (flags & MAP_FIXED) || jv_mapped || jv_bool()) {
		errno = ENOMEM;
		return MAP_FAILED;
	}
	jv_mapped = 1;
	jv_total = jv_round(n);
	jv_k = jv_u64();
	JV_ASSUME(jv_k < jv_total);
	jv_prot = prot;
	jv_zero = (flags & MAP_ANONYMOUS) && (flags & MAP_PRIVATE);
	if (!jv_zero)
		jv_wrong = 1;
	jv_locked = jv_lock_tried = jv_nodump = 0;
	return jv_base;
}
static int jv_munmap(void *p, size_t n)
{
	if (!jv_mapped || !JV_SAME(p) || JV_OFF(p) != 0 || jv_round(n) != jv_total || n > jv_total)
		jv_wrong = 1;
	if (!jv_zero)
		jv_dirty_release = 1;
	jv_mapped = 0;
	return 0;
}
static int jv_mprotect(void *p, size_t n, int prot)
{
	int hit = jv_hit(p, n);

	if (JV_OFF(p) & (jv_page - 1)) {
		errno = EINVAL;
		return -1;
	}
	if (jv_bool()) {
		errno = ENOMEM;
		return -1;
	}
	if (hit)
		jv_prot = prot;
	return 0;
}
static int jv_madvise(void *p, size_t n, int adv)
{
	int hit = jv_hit(p, n);

	if (JV_OFF(p) & (jv_page - 1)) {
		errno = EINVAL;
		return -1;
	}
	if (adv == MADV_DONTDUMP && hit)
		jv_nodump = 1;		/* best effort */
	else if (hit && adv != MADV_DONTDUMP)
		jv_nodump = adv == MADV_DODUMP ? 0 : jv_nodump;
	if (jv_bool()) {
		errno = EINVAL;
		return -1;
	}
	return 0;
}
static int jv_mlock(const void *p, size_t n)
{
	int hit = jv_hit(p, n);

	if (hit)
		jv_lock_tried = 1;
	if (jv_bool()) {
		jv_lock_err = errno = (int)(jv_u64() & 127);
		if (hit)
			jv_locked = 0;
		return -1;
	}
	if (hit)
		jv_locked = 1;
	return 0;
}
static int jv_munlock(const void *p, size_t n)
{
	if (jv_hit(p, n))
		jv_locked = 0;
	return 0;
}
static void *jv_memset(void *p, int c, size_t n)
{
	uint64_t o = JV_OFF(p);

	if (!jv_mapped || !JV_SAME(p) || o > jv_total || n > jv_total - o)
		jv_wrong = 1;
	else if (jv_k >= o && jv_k - o < n) {
		if (!(jv_prot & PROT_WRITE))
			jv_wrong = 1;		/* it would fault */
		jv_zero = !c;
	}
	return p;
}
static void jv_bzero(void *p, size_t n) { jv_memset(p, 0, n); }

#undef memset
#undef bzero
#define sysconf jv_sysconf
#define getpagesize() ((int)(jv_sc <= 0 ? 4096 : jv_sc))
#define mmap jv_mmap
#define munmap jv_munmap
#define mprotect jv_mprotect
#define madvise jv_madvise
#define mlock jv_mlock
#define munlock jv_munlock
#define memset jv_memset
#define bzero jv_bzero
#define explicit_bzero jv_bzero
#include JV_TU

void jv_harness(void)
{
	size_t len = JV_T(size_t);
	unsigned int flags = jv_uint();
	uint64_t o;
	uint8_t *p;
	int force = !!(flags & JENT_FORCE_SECURE_MEM);

	jv_sc = (long)jv_u64();
	/* the page size is a power of two of at least 4 kB, or unknown */
	JV_ASSUME(jv_sc <= 0 || jv_sc == 4096 || jv_sc == 8192 || jv_sc == 16384 || jv_sc == 65536 || jv_sc == 1l << 21);
	jv_page = jv_sc <= 0 ? 4096 : (uint64_t)jv_sc;
	jv_lock_err = 0;

	jent_zfree(NULL, len);
	JV_CHECK(!jv_wrong && !jv_mapped, "nothing is done without memory");

	p = jent_zalloc(len, flags);
	JV_CHECK(!jv_wrong, "only the fresh mapping is worked on, and it is returned whole");
	JV_CHECK(jv_maps <= 1, "one mapping");
	if (!p) {
		JV_CHECK(!jv_mapped, "a failed allocation leaves nothing mapped");
		JV_COVER(jv_maps == 1 && force && jv_lock_err == EPERM, "the demanded lock is refused");
		JV_COVER(jv_maps == 1 && !force && jv_lock_err == EINVAL, "a malformed lock request");
		JV_COVER(!jv_maps, "a size that cannot be rounded");
		return;
	}
	JV_CHECK(jv_mapped && JV_SAME(p), "the memory lies in the mapping");
	o = JV_OFF(p);
	JV_CHECK(o >= jv_page && o <= jv_total && len <= jv_total - o && jv_total - o - len >= jv_page,
		 "at least the requested size with a page in front and behind");
	if (jv_k >= o && jv_k - o < len) {
		JV_CHECK(jv_zero, "zeroed");
		JV_CHECK((jv_prot & (PROT_READ | PROT_WRITE)) == (PROT_READ | PROT_WRITE) && !(jv_prot & PROT_EXEC),
			 "readable and writable");
		JV_CHECK(jv_nodump, "excluded from core dumps");
		JV_CHECK(jv_lock_tried, "the lock is attempted");
		JV_CHECK(!force || jv_locked, "locked if that is demanded");
		JV_CHECK(jv_locked || jv_lock_err == EPERM || jv_lock_err == ENOMEM || jv_lock_err == EAGAIN,
			 "only a missing permission or exhausted limit is tolerated");
		JV_CHECK(!jent_memory_is_secure(flags) || jv_locked, "memory called secure is locked");
		JV_COVER(force, "locked memory");
		JV_COVER(!jv_locked, "unlocked memory");
	}
	/* the page in front of the memory, and the one behind its last page */
	if (jv_k < o && jv_k >= o - jv_page)
		JV_CHECK(jv_prot == PROT_NONE, "the page in front of the memory is inaccessible");
	if (jv_k >= jv_round(o + len) && jv_k - jv_round(o + len) < jv_page)
		JV_CHECK(jv_prot == PROT_NONE, "the page behind the memory is inaccessible");

	/* used, and released */
	jv_dirty_release = 0;
	if (jv_k >= o && jv_k - o < len)
		jv_zero = 0;
	else
		jv_zero = 1;
	jent_zfree(p, len);
	JV_CHECK(!jv_wrong && !jv_mapped, "exactly the mapping obtained is returned");
	JV_CHECK(!jv_dirty_release, "it is overwritten with zeros before");
	JV_CHECK(jent_secure_memory_supported() == 1, "this backend can provide secure memory");
	JV_COVER(len > 1ul << 30, "a large allocation");
}
