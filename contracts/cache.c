/*
 * Contracts of the Linux cache discovery (C32).
 *  JV_P 1: the size parser, 2: the level and type parsers, for every attribute text
 *  JV_P 3: the walk over the CPUs: the largest size per level, nothing left out
 *  JV_P 4: reading one attribute
 *  JV_P 5: the published working-set size
 *  JV_P 6: the fallback
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "jv.h"
#include "src/jitterentropy-internal.h"

#define JV_N 32		/* attribute buffer */

/* ---- the C library, as the standard describes it ---- */
static int jv_space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
/*
 * The value of the digits of an attribute is the ghost jv_V (jv_over: it is not
 * representable): strtol() is trusted to compute it, where it starts and ends is not.
 */
unsigned long jv_V;
int jv_over, jv_base_bad;
static long jv_strtol(const char *s, char **end, int base)
{
	unsigned int i = 0, d = 0;
	int neg = 0;

	if (base != 10)
		jv_base_bad = 1;
	while (jv_space(s[i]))
		i++;
	if (s[i] == '-' || s[i] == '+')
		neg = s[i++] == '-';
	while (s[i] >= '0' && s[i] <= '9') {
		i++;
		d++;
	}
	if (end)
		*end = (char *)s + (d ? i : 0);
	if (!d)
		return 0;
	if (jv_over) {
		errno = ERANGE;
		return neg ? LONG_MIN : LONG_MAX;
	}
	return neg ? -(long)jv_V : (long)jv_V;
}
static char *jv_strchr(const char *s, int c)
{
	unsigned int i;

	for (i = 0; s[i]; i++)
		if (s[i] == (char)c)
			return (char *)s + i;
	return NULL;
}
static char *jv_strstr(const char *s, const char *w)
{
	unsigned int i;

	if (w[0] && !w[1])
		return jv_strchr(s, w[0]);
	for (i = 0; s[i]; i++)
		if (s[i] == w[0] && s[i + 1] == w[1] && !w[2])
			return (char *)s + i;
	return NULL;
}
static int jv_strncmp(const char *a, const char *b, size_t n)
{
	size_t i;

	for (i = 0; i < n; i++) {
		if (a[i] != b[i])
			return a[i] < b[i] ? -1 : 1;
		if (!a[i])
			return 0;
	}
	return 0;
}
static size_t jv_strlen(const char *a)
{
	size_t i;

	for (i = 0; a[i]; i++)
		;
	return i;
}

/* ---- the file system ---- */
long jv_conf;			/* CPUs configured */
long jv_sc[3];			/* what sysconf() says about the caches */
long jv_nc, jv_cur_c;		/* CPU listings complete; CPU of the current index */
unsigned int jv_ni, jv_cur_i;
int jv_readable[3], jv_data, jv_lvl_ok, jv_size_ok, jv_kind, jv_wrong;
long jv_lvl, jv_size, jv_m[3];
long jv_K, jv_L;			/* an arbitrary size, a level */
int jv_exact, jv_reach;		/* a cache of that level and: that size / at least that size */
long jv_l1, jv_l2, jv_l3;
size_t jv_rlen;
int jv_fd, jv_opened, jv_hangs;
char jv_file[JV_N];
const char *jv_want_path;

static long jv_sysconf(int n)
{
	if (n == _SC_NPROCESSORS_CONF)
		return jv_conf;
	if (n == _SC_LEVEL1_DCACHE_SIZE)
		return jv_sc[0];
	if (n == _SC_LEVEL2_CACHE_SIZE)
		return jv_sc[1];
	if (n == _SC_LEVEL3_CACHE_SIZE)
		return jv_sc[2];
	jv_wrong = 1;
	return -1;
}

#if JV_P == 3

#define JV_SZ(x) ((long)(x))
static const char jv_dir[] = "D";
static const char *const jv_paths[3] = { "D/cpu#/cache/index#/type", "D/cpu#/cache/index#/level", "D/cpu#/cache/index#/size" };
static int jv_sound(void);
static int jv_complete(void);
static void jv_request(int kind, long cpu, unsigned int idx)
{
	jv_kind = kind;
	if (kind == 0) {
		long l;

		/* the next description of this CPU, or the first of the next one */
		if (cpu != jv_nc || idx != jv_ni)
			jv_wrong = 1;
		/* assertion at the head of every description: what holds so far, and only that */
		JV_CHECK(!jv_wrong, "the descriptions are read one after the other, each attribute of the same one");
		JV_CHECK(jv_sound(), "a size reported per level is that of a well-formed data cache");
		JV_CHECK(jv_complete(), "no well-formed data cache is larger than the size reported for its level");
#ifdef JV_CBMC
		{
			long a, b, c;
			int e, f;

			jv_l1 = a; jv_l2 = b; jv_l3 = c;
			jv_exact = e & 1; jv_reach = f & 1;
			JV_ASSUME(jv_sound() && jv_complete());
			jv_wrong = 0;
			jv_nc = cpu;
			jv_ni = idx;
		}
#endif
		jv_cur_c = cpu;
		jv_cur_i = idx;
		jv_readable[0] = (jv_u64() & 15) != 0;
		jv_readable[1] = jv_bool();
		jv_readable[2] = jv_bool();
		jv_data = jv_bool();
		jv_lvl_ok = jv_bool();
		jv_size_ok = jv_bool();
		jv_lvl = JV_SZ(jv_u64());
		jv_size = JV_SZ(jv_u64());
		jv_rlen = (size_t)(jv_u64() & 31) + 1;
		JV_ASSUME(jv_lvl >= 1 && jv_size >= 1);
		if (!jv_readable[0] || idx == 15) {
			jv_nc++;
			jv_ni = 0;
		} else {
			jv_ni++;
		}
		l = jv_lvl > 3 ? 3 : jv_lvl;
		if (jv_readable[0] && jv_readable[1] && jv_readable[2] && jv_data && jv_lvl_ok && jv_size_ok && l == jv_L) {
			if (jv_size == jv_K)
				jv_exact = 1;
			if (jv_size >= jv_K)
				jv_reach = 1;
		}
	} else if (cpu != jv_cur_c || idx != jv_cur_i) {
		jv_wrong = 1;
	}
}
static int jv_snprintf(char *out, size_t n, const char *fmt, ...)
{
	char path[48];
	unsigned int i, k = 0, nums = 0, j;
	long num[2] = { -1, -1 };
	int kind;
	va_list ap;

	va_start(ap, fmt);
	for (i = 0; fmt[i] && k < 46; i++) {
		int lng = 0;

		if (fmt[i] != '%') {
			path[k++] = fmt[i];
			continue;
		}
		i++;
		while (fmt[i] == 'l' || fmt[i] == 'z') {
			lng = 1;
			i++;
		}
		if (fmt[i] == 's') {
			if (va_arg(ap, const char *) != jv_dir)
				jv_wrong = 1;
			path[k++] = 'D';
		} else if (nums < 2) {
			path[k++] = '#';
			num[nums++] = lng ? va_arg(ap, long) : (long)va_arg(ap, int);
		}
	}
	va_end(ap);
	path[k] = 0;
	for (kind = 0; kind < 3; kind++) {
		for (j = 0; j < 40; j++)
			if (path[j] != jv_paths[kind][j] || !path[j])
				break;
		if (!path[j] && !jv_paths[kind][j])
			break;
	}
	out[0] = 'f';
	out[1] = 0;
	if (n < 48)
		jv_wrong = 1;	/* the path does not fit */
	if (kind == 3)
		jv_wrong = 1;
	else
		jv_request(kind, num[0], (unsigned int)num[1]);
	return (int)k;
}
static long jv_lv(void) { return jv_L == 1 ? jv_l1 : jv_L == 2 ? jv_l2 : jv_l3; }
static int jv_sound(void) { return jv_lv() >= 0 && (jv_lv() != jv_K || jv_exact); }
static int jv_complete(void) { return !jv_reach || jv_lv() >= jv_K; }
#define snprintf jv_snprintf
/* contracts of the helpers (checked by themselves) */
ssize_t jent_read_sysfs_attr__jv(const char *file, char *buf, size_t buflen)
{
	if (file[0] != 'f' || buflen != JV_N)
		jv_wrong = 1;
	if (!jv_readable[jv_kind])
		return -1;
	buf[0] = (char)('a' + jv_kind);
	buf[1] = 0;
	return (ssize_t)jv_rlen;
}
int jent_cache_type_is_data__jv(const char *buf)
{
	if (buf[0] != 'a')
		jv_wrong = 1;
	return jv_data;
}
int jent_parse_cache_level__jv(const char *buf, long *level)
{
	if (buf[0] != 'b')
		jv_wrong = 1;
	if (!jv_lvl_ok)
		return -1;
	*level = jv_lvl;
	return 0;
}
int jent_parse_cache_size__jv(char *buf, size_t rlen, size_t buflen, long *size)
{
	if (buf[0] != 'c' || rlen != jv_rlen || buflen != JV_N)
		jv_wrong = 1;
	if (!jv_size_ok)
		return -1;
	*size = jv_size;
	return 0;
}
#endif

#if JV_P == 4
static int jv_open(const char *path, int fl)
{
	if (path != jv_want_path || (fl & O_ACCMODE) != O_RDONLY || jv_fd)
		jv_wrong = 1;
	jv_opened = !jv_bool();
	if (!jv_opened)
		return -1;
	jv_fd = 1;
	return 7;
}
static ssize_t jv_read(int fd, void *p, size_t n)
{
	unsigned int i;

	if (fd != 7 || !jv_fd || n > JV_N)
		jv_wrong = 1;
	if (jv_bool()) {
		errno = jv_bool() ? EINTR : EIO;
		jv_hangs = errno == EINTR ? 0 : 2;
		return -1;
	}
	jv_hangs = 1;
	jv_rlen = (size_t)(jv_u64() & 63);
	if (jv_rlen > n)
		jv_rlen = n;
	for (i = 0; i < JV_N; i++)
		if (i < jv_rlen)
			((char *)p)[i] = jv_file[i];
	return (ssize_t)jv_rlen;
}
static int jv_close(int fd)
{
	if (fd != 7 || !jv_fd)
		jv_wrong = 1;
	jv_fd = 0;
	return 0;
}
#define open jv_open
#define read jv_read
#define close jv_close
#endif

#if JV_P == 5
void jent_get_cachesize_uncached__jv(long *l1, long *l2, long *l3)
{
	*l1 = jv_l1;
	*l2 = jv_l2;
	*l3 = jv_l3;
}
#endif
#if JV_P == 6
void jent_get_cachesize_sysfs_dir__jv(const char *dir, long *l1, long *l2, long *l3)
{
	static const char want[] = "/sys/devices/system/cpu";
	unsigned int i;

	for (i = 0; i < sizeof(want); i++)
		if (dir[i] != want[i]) {
			jv_wrong = 1;
			break;
		}
	*l1 = jv_m[0];
	*l2 = jv_m[1];
	*l3 = jv_m[2];
}
#endif
static char jv_buf[JV_N + 1];
static void jv_loop_entry(int l) { (void)l; }
static void jv_loop_havoc(void)
{
#ifdef JV_CBMC
# if JV_P == 3
	long a, b, c, g;

	jv_l1 = a; jv_l2 = b; jv_l3 = c;
	__CPROVER_havoc_object(&jv_exact);
	__CPROVER_havoc_object(&jv_reach);
	jv_nc = g;
	__CPROVER_havoc_object(&jv_ni);
	__CPROVER_havoc_object(&jv_cur_c);
	__CPROVER_havoc_object(&jv_cur_i);
	__CPROVER_havoc_object(&jv_wrong);
# endif
# if JV_P == 4
	__CPROVER_havoc_object(jv_buf);
	__CPROVER_havoc_object(&jv_wrong);
	__CPROVER_havoc_object(&jv_fd);
	__CPROVER_havoc_object(&jv_hangs);
	__CPROVER_havoc_object(&jv_rlen);
# endif
#endif
}

#undef strncmp
#undef strstr
#undef strchr
#define sysconf jv_sysconf
#define strtol jv_strtol
#define strstr jv_strstr
#define strchr jv_strchr
#define strncmp jv_strncmp
#define strlen jv_strlen
#include "arch/jitterentropy-arch-atomic.c"
#include JV_TU
#undef strlen

static void jv_text(void)
{
	unsigned int i;

	for (i = 0; i < JV_N; i++)
		jv_file[i] = jv_buf[i] = (char)jv_u64();
	jv_file[JV_N - 1] = jv_buf[JV_N - 1] = 0;
	jv_buf[JV_N] = 'x';
	jv_V = jv_u64() & LONG_MAX;
	jv_over = jv_bool();
}
/* the number an attribute starts with: digits seen, value */
static unsigned int jv_digits(const char *s, unsigned long *v, unsigned int *from)
{
	unsigned int i = 0;

	while (i < JV_N - 1 && s[i] >= '0' && s[i] <= '9')
		i++;
	*v = jv_over ? ~0ul : jv_V;
	*from = i;
	return i;
}

void jv_harness(void)
{
#if JV_P == 1
	unsigned long v;
	unsigned int n, d, i, shift;
	long size = -7;
	int r, wf, hask = 0, hasm = 0;
	size_t rlen = JV_T(size_t);

	jv_text();
	JV_ASSUME(rlen >= 1 && rlen <= JV_N);
	r = jent_parse_cache_size(jv_buf, rlen, JV_N, &size);
	JV_CHECK(jv_buf[JV_N] == 'x', "nothing behind the buffer is written");
	JV_CHECK(r == 0 || r == -1, "accepted or refused");
	JV_CHECK(!jv_base_bad, "sizes are decimal");
	d = jv_digits(jv_file, &v, &n);
	/* digits, an optional suffix, an optional line end */
	shift = jv_file[n] == 'K' ? 10 : jv_file[n] == 'M' ? 20 : 0;
	i = n + (shift ? 1 : 0);
	wf = d && (jv_file[i] == 0 || (jv_file[i] == '\n' && jv_file[i + 1] == 0));
	if (rlen == JV_N)
		JV_CHECK(r, "a text that may be truncated is refused");
	else if (wf && v >= 1 && v <= (1ul << 40)) {
		JV_CHECK(!r && size == (long)(v << shift), "a well-formed size is taken, in bytes");
		JV_COVER(shift == 10 && v > 31, "kilobytes");
		JV_COVER(shift == 20 && v > 31, "megabytes");
	}
	JV_CHECK(r || size > 0, "an accepted size is positive");
	/* the text does not start with a number (white space and a plus sign are tolerated) */
	if (!d && !jv_space(jv_file[0]) && jv_file[0] != '+')
		JV_CHECK(r, "a text that is no number is refused");
	if (d && v == 0)
		JV_CHECK(r, "zero is refused");
	for (i = 0; i < JV_N && jv_file[i]; i++) {
		hask |= jv_file[i] == 'K';
		hasm |= jv_file[i] == 'M';
	}
	if (d && !r) {
		shift = hask ? 10 : hasm ? 20 : 0;
		JV_CHECK(v <= (unsigned long)LONG_MAX >> shift, "a size that overflows is refused");
		JV_CHECK(size == (long)(v << shift), "an accepted size is the number scaled by its suffix");
	}
	JV_COVER(r && wf && rlen < JV_N && v > 1000, "an overflow");
#elif JV_P == 2
	unsigned long v;
	unsigned int n, d;
	long level = -7;
	int r;

	jv_text();
	d = jv_digits(jv_file, &v, &n);
	r = jent_parse_cache_level(jv_buf, &level);
	if (d && v >= 1 && v < 1000)
		JV_CHECK(!r && level == (long)v, "a level is taken");
	if (d && v == 0)
		JV_CHECK(r, "level zero is refused");
	if (!d && !jv_space(jv_file[0]) && jv_file[0] != '+')
		JV_CHECK(r, "a text that is no number is refused");
	JV_CHECK(!jv_base_bad, "levels are decimal");
	JV_CHECK(r || level >= 1, "levels count from one");
	JV_COVER(!r && level == 3, "level 3");
	jv_text();
	r = jent_cache_type_is_data(jv_buf);
	JV_CHECK(!!r == ((jv_file[0] == 'D' && jv_file[1] == 'a' && jv_file[2] == 't' && jv_file[3] == 'a') ||
			 (jv_file[0] == 'U' && jv_file[1] == 'n' && jv_file[2] == 'i' && jv_file[3] == 'f' &&
			  jv_file[4] == 'i' && jv_file[5] == 'e' && jv_file[6] == 'd')),
		 "data and unified caches only");
	JV_COVER(r && jv_file[0] == 'U', "unified");
#elif JV_P == 3
	jv_conf = (long)jv_u64();
	jv_l1 = (long)jv_u64();
	jv_l2 = jv_l3 = 5;
	jv_K = JV_SZ(jv_u64());
	jv_L = JV_LVL;
	JV_ASSUME(jv_L >= 1 && jv_K >= 1);
	jv_exact = jv_reach = 0;
	jv_nc = 0;
	jv_ni = 0;
	jent_get_cachesize_sysfs_dir(jv_dir, &jv_l1, &jv_l2, &jv_l3);
	JV_CHECK(!jv_wrong, "the descriptions are read one after the other, each attribute of the same one");
	JV_CHECK(jv_ni == 0 && jv_nc == (jv_conf <= 0 ? 1 : jv_conf > 65536 ? 65536 : jv_conf), "every CPU is looked at");
	JV_CHECK(jv_sound(), "a size reported per level is that of a well-formed data cache");
	JV_CHECK(jv_complete(), "no well-formed data cache is larger than the size reported for its level");
	JV_COVER(jv_conf > 3 && jv_l2 > 7, "several CPUs");
#elif JV_P == 4
	ssize_t r;
	unsigned int i;

	jv_text();
	jv_want_path = "p";
	for (i = 0; i < JV_N; i++)
		jv_buf[i] = (char)jv_u64();
	jv_buf[JV_N] = 'x';
	r = jent_read_sysfs_attr(jv_want_path, jv_buf, JV_N);
	JV_CHECK(!jv_wrong && !jv_fd, "the file asked for, opened and closed once");
	JV_CHECK(jv_buf[JV_N] == 'x', "nothing behind the buffer is written");
	JV_CHECK((r > 0) == (jv_opened && jv_hangs == 1 && jv_rlen > 0), "an interrupted read is repeated; a failed or empty one is a failure");
	if (r > 0) {
		JV_CHECK((size_t)r == jv_rlen, "the number of bytes read");
		for (i = 0; i < JV_N; i++)
			JV_CHECK(jv_buf[i] == (i < jv_rlen && i < JV_N - 1 ? jv_file[i] : 0), "the bytes read, terminated");
	}
	JV_COVER(r == JV_N, "a long attribute");
#elif JV_P == 5
	uint32_t r[3], a = (uint32_t)jv_bool(), i;

	jv_l1 = (long)jv_u64();
	jv_l2 = (long)jv_u64();
	jv_l3 = (long)jv_u64();
	/* the discovery reports sizes; together they fit a machine word */
	JV_ASSUME(jv_l1 >= 0 && jv_l2 >= 0 && jv_l3 >= 0 && jv_l1 < 1l << 60 && jv_l2 < 1l << 60 && jv_l3 < 1l << 60);
	r[0] = jent_cache_size_roundup((int)a);
	r[1] = jent_cache_size_roundup((int)!a);
	r[2] = jent_cache_size_roundup((int)a);
	JV_CHECK(r[0] == r[2], "the answer does not change");
	for (i = 0; i < 2; i++) {
		uint32_t x = r[i];
		uint64_t sum = (uint64_t)jv_l1 + ((i ? !a : a) ? (uint64_t)jv_l2 + (uint64_t)jv_l3 : 0);

		JV_CHECK((x & (x - 1)) == 0, "a power of two or zero");
		if (!sum)
			JV_CHECK(!x, "zero if nothing is known");
		else if (sum < 1ul << 31)
			JV_CHECK(x >= sum && x / 2 <= sum, "the power of two not smaller than the size");
		JV_COVER(i && sum > 100000 && x > 4096 && x < 1u << 30, "a size");
	}
	JV_CHECK(jent_cache_size_roundup(7) == (a ? r[0] : r[1]), "any non-zero value asks for all levels");
#elif JV_P == 6
	long l[3] = { 9, 9, 9 };
	unsigned int i;

	for (i = 0; i < 3; i++) {
		jv_m[i] = (long)jv_u64();
		jv_sc[i] = (long)jv_u64();
		JV_ASSUME(jv_m[i] >= 0);
	}
	jent_get_cachesize_uncached(&l[0], &l[1], &l[2]);
	JV_CHECK(!jv_wrong, "the system's directory");
	for (i = 0; i < 3; i++) {
		long fb = jv_sc[i] > 0 ? jv_sc[i] : 0;

		JV_CHECK(l[i] == (jv_m[0] > 0 ? jv_m[i] : jv_m[i] > fb ? jv_m[i] : fb),
			 "the scan is preferred; the fallback never makes it smaller and never reports a failure as a size");
	}
	JV_COVER(jv_m[0] == 0 && jv_m[1] > jv_sc[1] && jv_sc[0] > 5, "a partial scan");
#endif
}
