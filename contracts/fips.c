/* Contract of jent_fips_enabled() (C32) */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <string.h>
#include "jv.h"
#include "src/jitterentropy-internal.h"

int jv_fd, jv_wrong, jv_outcome, jv_exists;
char jv_c[2];

static int jv_open(const char *path, int fl)
{
	static const char want[] = "/proc/sys/crypto/fips_enabled";
	unsigned int i;

	for (i = 0; i < sizeof(want); i++)
		if (path[i] != want[i]) {
			jv_wrong = 1;
			break;
		}
	(void)fl;
	if (!jv_exists || jv_fd) {
		errno = ENOENT;
		return -1;
	}
	jv_fd = 1;
	return (int)(jv_u64() & 1023);
}
static ssize_t jv_read(int fd, void *p, size_t n)
{
	uint64_t k = jv_u64() & 3;

	(void)fd;
	if (!jv_fd || n < 1)
		jv_wrong = 1;
	if (k == 0) {
		errno = EINTR;
		jv_outcome = 0;
		return -1;
	}
	if (k == 1) {
		errno = EIO;
		jv_outcome = 1;
		return -1;
	}
	if (k == 2 || n < 1) {
		jv_outcome = 1;		/* empty */
		return 0;
	}
	jv_outcome = 2;
	((char *)p)[0] = jv_c[0];
	if (n < 2 || jv_bool())
		return 1;
	((char *)p)[1] = jv_c[1];
	return 2;
}
static int jv_close(int fd)
{
	(void)fd;
	if (!jv_fd)
		jv_wrong = 1;
	jv_fd = 0;
	return 0;
}
static void jv_loop_entry(int l) { (void)l; }
static void jv_loop_havoc(void)
{
#ifdef JV_CBMC
	__CPROVER_havoc_object(&jv_outcome);
	__CPROVER_havoc_object(&jv_fd);
	__CPROVER_havoc_object(&jv_wrong);
#endif
}
#define open jv_open
#define read jv_read
#define close jv_close
#include JV_TU

void jv_harness(void)
{
	int r;

	jv_c[0] = (char)jv_u64();
	jv_c[1] = (char)jv_u64();
	jv_exists = jv_bool();
	r = jent_fips_enabled();
	JV_CHECK(!jv_wrong && !jv_fd, "the switch file, opened and closed once");
	JV_CHECK(!!r == (jv_exists && jv_outcome == 2 && jv_c[0] == '1'), "on only if the file can be read and starts with 1");
	JV_COVER(r, "on");
	JV_COVER(!r && jv_exists && jv_outcome == 2, "off");
}
