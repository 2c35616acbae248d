/*
 * Contract of jent_os_random_bytes() (C27): success means that every byte of the
 * buffer, whatever its length, was delivered by the operating system.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/random.h>
#include "jv.h"
#include "src/jitterentropy-internal.h"

static uint8_t jv_byte[1];
uint8_t *jv_base;
uint64_t jv_len, jv_k, jv_got;
int jv_cov, jv_oob, jv_fd, jv_fd_bad, jv_path_bad;

static ssize_t jv_deliver(void *p, size_t n)
{
#ifdef JV_CBMC
	uint64_t off = __CPROVER_POINTER_OFFSET(p), r;

	__CPROVER_assert(__CPROVER_same_object(p, jv_base), "JV: only the buffer is written");
#else
	uint64_t off = (uint64_t)((uint8_t *)p - jv_base), r;
#endif

	if (off > jv_len || n > jv_len - off) {
		jv_oob = 1;
		return -1;
	}
	if (jv_bool()) {
		errno = jv_bool() ? EINTR : EIO;
		return -1;
	}
	r = jv_u64();
	if (r > n)
		r = n;
	if (jv_k >= off && jv_k - off < r)
		jv_cov = 1;
	if (off == jv_got)
		jv_got += r;
	return (ssize_t)r;
}
static ssize_t jv_getrandom(void *p, size_t n, unsigned int flags) { (void)flags; return jv_deliver(p, n); }
static ssize_t jv_read(int fd, void *p, size_t n)
{
	if (fd != 5 || !jv_fd)
		jv_fd_bad = 1;
	return jv_deliver(p, n);
}
static int jv_open(const char *path, int fl)
{
	static const char dev[] = "/dev/urandom";
	unsigned int i;

	(void)fl;
	for (i = 0; i < sizeof(dev); i++)
		if (path[i] != dev[i]) {
			jv_path_bad = 1;
			break;
		}
	if (jv_fd)
		jv_fd_bad = 1;
	jv_got = 0;
	if (jv_bool()) {
		errno = ENOENT;
		return -1;
	}
	jv_fd = 1;
	return 5;
}
static int jv_close(int fd)
{
	if (fd != 5 || !jv_fd)
		jv_fd_bad = 1;
	jv_fd = 0;
	return 0;
}
#define getrandom jv_getrandom
#define open jv_open
#define read jv_read
#define close jv_close

static void jv_loop_entry(int l) { (void)l; }
static void jv_loop_havoc(void)
{
#ifdef JV_CBMC
	__CPROVER_havoc_object(&jv_got);
	__CPROVER_havoc_object(&jv_cov);
	__CPROVER_havoc_object(&jv_oob);
	__CPROVER_havoc_object(&jv_fd_bad);
#endif
}
#include JV_TU

void jv_harness(void)
{
	int r;

	jv_len = jv_u64();
	JV_ASSUME(jv_len <= 1ul << 46);
	jv_k = jv_u64();
	jv_base = jv_byte;	/* only its address is used */
	r = jent_os_random_bytes(jv_base, (size_t)jv_len);
	JV_CHECK(!jv_oob, "nothing outside of the buffer is requested");
	JV_CHECK(!jv_fd && !jv_fd_bad && !jv_path_bad, "the device is /dev/urandom, opened and closed exactly once");
	JV_CHECK(r || jv_k >= jv_len || jv_cov, "success: every byte is delivered by the operating system");
	JV_COVER(!r && jv_len > 16 && jv_k < jv_len, "delivery");
	JV_COVER(r && jv_cov, "partial delivery is a failure");
}
