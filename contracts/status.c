/*
 * Contracts of jent_status() and jent_uuid() (C26).
 *
 * The formatted print is replaced by a model that knows what snprintf() promises.
 *  JV_P 1: the report is read as it is produced: every named value is compared with
 *          the collector's (all values of the collector, no buffer limit).
 *  JV_P 2: for every buffer size and every length of every piece: in bounds,
 *          terminated, and successful only if nothing is missing.
 *  JV_P 3: jent_uuid()
 */
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include "jv.h"
#include "ec.h"

struct rand_data jv_ec;
static char jv_obj[1];
char *jv_buf;
static uint8_t jv_exp[200];
unsigned int jv_calls;
uint64_t jv_buflen, jv_pos, jv_pieces;
int jv_wrong, jv_term, jv_trunc, jv_probe;

long jv_n;
unsigned int jv_c[2], jv_ms, jv_hl;
int jv_sec;

long jent_ncpu(void) { return jv_n; }
uint32_t jent_cache_size_roundup(int all) { return jv_c[!!all]; }
/* functions of the collector's flags */
uint32_t jent_memsize(unsigned int flags) { return flags == jv_ec.flags ? jv_ms : jv_ms + 1; }
uint32_t jent_hashloop_cnt(unsigned int flags) { return flags == jv_ec.flags ? jv_hl : jv_hl + 1; }
int jent_memory_is_secure(unsigned int flags) { return flags == jv_ec.flags ? jv_sec : !jv_sec; }

#ifdef JV_CBMC
# define JV_OFF(p)	((uint64_t)__CPROVER_POINTER_OFFSET(p))
# define JV_BUF(p)	__CPROVER_same_object((p), jv_obj)
#else
# define JV_OFF(p)	((uint64_t)((uintptr_t)(p) - (uintptr_t)jv_obj))
# define JV_BUF(p)	((uintptr_t)(p) - (uintptr_t)jv_obj < 1ul << 40)
#endif

/* ---- reading the report ---- */
#define H0 0xcbf29ce484222325ul
static uint64_t jv_h1(uint64_t h, char c) { return (h ^ (uint8_t)c) * 0x100000001b3ul; }
static uint64_t jv_hs(const char *s)
{
	uint64_t h = H0;
	unsigned int i;

	for (i = 0; s[i]; i++)
		h = jv_h1(h, s[i]);
	return h;
}
static int jv_streq(const char *a, const char *b)
{
	unsigned int i;

	for (i = 0; i < 40; i++) {
		if (a[i] != b[i])
			return 0;
		if (!a[i])
			return 1;
	}
	return 0;
}
#define JV_MAXE 48
static uint64_t jv_eh[JV_MAXE], jv_ev[JV_MAXE];
static unsigned int jv_en[JV_MAXE], jv_entries;
static void jv_expect(const char *path, uint64_t v)
{
	jv_eh[jv_entries] = jv_hs(path);
	jv_ev[jv_entries] = v;
	jv_en[jv_entries] = 0;
	jv_entries++;
}
static uint64_t jv_path[6], jv_key;
static int jv_depth, jv_instr, jv_val, jv_lit, jv_verpart, jv_uuid_seen, jv_ver_seen, jv_closed;
static uint64_t jv_uuid_h, jv_ver_h;

static void jv_value(uint64_t v)
{
	unsigned int i;

	for (i = 0; i < jv_entries; i++)
		if (jv_eh[i] == jv_key) {
			jv_en[i]++;
			JV_CHECK(jv_ev[i] == v, "a reported value is not the collector's");
		}
}
static void jv_char(char c)
{
	if (c == '"') {
		jv_instr = !jv_instr;
		if (jv_instr && !jv_val)
			jv_key = jv_path[jv_depth];
		return;
	}
	if (jv_instr) {
		if (!jv_val)
			jv_key = jv_h1(jv_key, c);
		return;
	}
	if (c == ':') {
		jv_val = 1;
		jv_lit = 0;
	} else if (c == ',') {
		jv_val = 0;
	} else if (c == '{') {
		if (jv_depth)
			jv_path[jv_depth + 1] = jv_h1(jv_key, '/');
		else
			jv_path[1] = H0;
		jv_depth++;
		jv_val = 0;
	} else if (c == '}') {
		jv_depth--;
		jv_val = 0;
		if (!jv_depth)
			jv_closed++;
	} else if (jv_val && !jv_lit && (c == 't' || c == 'f')) {
		jv_lit = 1;
		jv_value(c == 't');
	}
}
static void jv_string(const char *p)
{
	unsigned int i;

	if (jv_instr && jv_val) {
		if (jv_key == jv_uuid_h) {
			jv_uuid_seen++;
			JV_CHECK(jv_streq(p, jv_ec.uuid), "the identifier reported is not the collector's");
		}
		return;
	}
	if (jv_val && !jv_instr) {
		jv_value(jv_streq(p, "true") ? 1 : jv_streq(p, "false") ? 0 : 2);
		return;
	}
	for (i = 0; p[i]; i++)
		jv_char(p[i]);
}
static void jv_number(uint64_t v)
{
	if (jv_instr && jv_val && jv_key == jv_ver_h) {
		JV_CHECK(v == (jv_verpart == 0 ? JENT_MAJVERSION : jv_verpart == 1 ? JENT_MINVERSION : JENT_PATCHLEVEL),
			 "the version reported is not the library's");
		jv_verpart++;
		return;
	}
	if (jv_val)
		jv_value(v);
}

static int jv_vsnprintf(char *p, size_t n, const char *fmt, va_list ap)
{
	uint64_t o = JV_OFF(p), l;

	if (!JV_BUF(p) || o > jv_buflen || n > jv_buflen - o) {
		jv_wrong = 1;
		return -1;
	}
#if JV_P == 1
	unsigned int i;

	for (i = 0; fmt[i]; i++) {
		int lng = 0;

		if (fmt[i] != '%') {
			jv_char(fmt[i]);
			continue;
		}
		i++;
		while (fmt[i] == 'l' || fmt[i] == 'z' || fmt[i] == '-' || fmt[i] == '+' || (fmt[i] >= '0' && fmt[i] <= '9')) {
			if (fmt[i] == 'l' || fmt[i] == 'z')
				lng = 1;
			i++;
		}
		if (fmt[i] == '%')
			jv_char('%');
		else if (fmt[i] == 's')
			jv_string(va_arg(ap, const char *));
		else if (fmt[i] == 'c')
			jv_char((char)va_arg(ap, int));
		else if (lng)
			jv_number(va_arg(ap, unsigned long));
		else if (fmt[i] == 'u')
			jv_number(va_arg(ap, unsigned int));
		else
			jv_number((uint64_t)va_arg(ap, int));
	}
	if (o != jv_pos)
		jv_wrong = 1;
	jv_pos += 8;
	return 8;
#else
	(void)ap;
	l = jv_probe ? 1 : jv_u64() & 0x7f;	/* no piece is longer */
	jv_pieces++;
	if (o != jv_pos)
		jv_wrong = 1;		/* a piece is overwritten or detached */
	if (l >= n) {
		jv_trunc = 1;
		if (!n)
			return (int)l;
		jv_pos = n == jv_buflen - o ? jv_buflen - 1 : o + n - 1;
	} else {
		jv_pos += l;
	}
	/* cut: shown here, used for the pieces that follow */
	JV_CHECK(jv_pos < jv_buflen, "the output is terminated inside of the buffer");
	JV_ASSUME(jv_pos < jv_buflen);
	jv_term = 1;
	return (int)l;
#endif
}
static int jv_snprintf(char *p, size_t n, const char *fmt, ...)
{
	va_list ap;
	int r;

	va_start(ap, fmt);
	r = jv_vsnprintf(p, n, fmt, ap);
	va_end(ap);
	return r;
}
static size_t jv_strlen(const char *p)
{
	size_t i;

	if (JV_BUF(p)) {
		JV_CHECK(jv_term || JV_P != 2, "the buffer is not read before it is terminated");
#if JV_P == 2
		/* cuts: shown here, used for what follows */
		if (p == jv_buf && jv_calls < 200) {
			JV_CHECK(jv_pos < jv_buflen && jv_pos <= 128 * (jv_calls + 1), "terminated inside of the buffer");
			JV_CHECK(!jv_wrong, "in bounds, piece after piece");
			if (jv_probe)
				jv_exp[jv_calls] = (uint8_t)jv_pieces;
			JV_CHECK(jv_pos + 1 >= jv_buflen || (!jv_trunc && jv_pieces == jv_exp[jv_calls]), "as long as there is room, nothing is left out");
#ifdef JV_CBMC
			if (!jv_probe) {
				/* any state with these properties */
				uint64_t any;
				jv_pos = any & 0x3fff;
				__CPROVER_havoc_object(&jv_trunc);
				__CPROVER_havoc_object(&jv_pieces);
			}
			jv_wrong = 0;
#endif
			JV_ASSUME(jv_pos < jv_buflen && jv_pos <= 128 * (jv_calls + 1));
			JV_ASSUME(jv_pos + 1 >= jv_buflen || (!jv_trunc && jv_pieces == jv_exp[jv_calls]));
			jv_calls++;
		}
#endif
		return JV_OFF(p) <= jv_pos ? jv_pos - JV_OFF(p) : 0;
	}
	for (i = 0; i < 64 && p[i]; i++)
		;
	return i;
}
#undef snprintf
#undef vsnprintf
#undef strlen
#define snprintf jv_snprintf
#define vsnprintf jv_vsnprintf
#define strlen jv_strlen
#include JV_TU
#undef snprintf
#undef strlen

static void jv_setup(void)
{
	unsigned int i;

	jv_fill_ec(&jv_ec);
	for (i = 0; i < JENT_UUID_STRLEN - 1; i++)
		jv_ec.uuid[i] = (char)jv_u64();
	jv_ec.uuid[JENT_UUID_STRLEN - 1] = 0;
	jv_n = (long)jv_u64();
	jv_c[0] = jv_uint();
	jv_c[1] = jv_uint();
	jv_ms = jv_uint();
	jv_hl = jv_uint();
	jv_sec = jv_bool();
	jv_buf = jv_obj;
}

#if JV_P == 1
static int jv_f(unsigned int bit) { return !!(jv_ec.flags & bit); }
static int jv_hf(unsigned int bit) { return !!(jv_ec.health_failure & bit); }
void jv_harness(void)
{
	unsigned int i;
	int r;

	jv_setup();
	jv_buflen = 1ul << 20;
	jv_uuid_h = jv_hs("uuid");
	jv_ver_h = jv_hs("version");
#ifdef JV_NOEC
	r = jent_status(NULL, jv_buf, jv_buflen);
	JV_CHECK(!r && jv_verpart == 3 && jv_closed == 1 && !jv_uuid_seen, "without a collector: the version only");
	JV_CHECK(!jv_wrong, "appended in order");
#else
	jv_expect("reinitializations", jv_ec.reinit_count);
	jv_expect("output/invocations", jv_ec.read_invocations);
	jv_expect("output/bytes", jv_ec.bytes_output);
	jv_expect("output/bits", jv_ec.bytes_output * 8);
	jv_expect("healthFailure/apt/intermittent", jv_hf(JENT_APT_FAILURE));
	jv_expect("healthFailure/apt/permanent", jv_hf(JENT_APT_FAILURE_PERMANENT));
	jv_expect("healthFailure/rct/intermittent", jv_hf(JENT_RCT_FAILURE));
	jv_expect("healthFailure/rct/permanent", jv_hf(JENT_RCT_FAILURE_PERMANENT));
	jv_expect("healthFailure/rctMemory/intermittent", jv_hf(JENT_RCT_MEM_FAILURE));
	jv_expect("healthFailure/rctMemory/permanent", jv_hf(JENT_RCT_MEM_FAILURE_PERMANENT));
#ifdef JENT_HEALTH_LAG_PREDICTOR
	jv_expect("healthFailure/lag/intermittent", jv_hf(JENT_LAG_FAILURE));
	jv_expect("healthFailure/lag/permanent", jv_hf(JENT_LAG_FAILURE_PERMANENT));
#endif
	jv_expect("runtimeEnvironment/cpuCores", (uint64_t)jv_n);
	jv_expect("runtimeEnvironment/cpuCache/l1Bytes", jv_c[0]);
	jv_expect("runtimeEnvironment/cpuCache/allBytes", jv_c[1]);
	jv_expect("configuration/osr", jv_ec.osr);
	jv_expect("configuration/memoryBlockSizeBytes", jv_ms);
	jv_expect("configuration/hashLoopCount/runtime", jv_hl);
	jv_expect("configuration/hashLoopCount/initialization", (unsigned int)(jv_hl * JENT_HASH_LOOP_INIT));
	jv_expect("configuration/memoryLoopCount/runtime", jv_ec.memaccessloops);
	jv_expect("configuration/memoryLoopCount/initialization", (unsigned int)(jv_ec.memaccessloops * JENT_MEM_ACC_LOOP_INIT));
	jv_expect("configuration/secureMemory", jv_sec);
	jv_expect("configuration/internalTimer", jv_ec.enable_notime);
	jv_expect("configuration/mockedTimerBuild", 0);
	jv_expect("configuration/fipsMode", jv_ec.is_fips_enabled);
	jv_expect("configuration/ntg1Mode", jv_f(JENT_NTG1));
	jv_expect("configuration/flags/JENT_DISABLE_MEMORY_ACCESS", jv_f(JENT_DISABLE_MEMORY_ACCESS));
	jv_expect("configuration/flags/JENT_FORCE_INTERNAL_TIMER", jv_f(JENT_FORCE_INTERNAL_TIMER));
	jv_expect("configuration/flags/JENT_DISABLE_INTERNAL_TIMER", jv_f(JENT_DISABLE_INTERNAL_TIMER));
	jv_expect("configuration/flags/JENT_FORCE_FIPS", jv_f(JENT_FORCE_FIPS));
	jv_expect("configuration/flags/JENT_NTG1", jv_f(JENT_NTG1));
	jv_expect("configuration/flags/JENT_CACHE_ALL", jv_f(JENT_CACHE_ALL));
	jv_expect("configuration/flags/JENT_FORCE_SECURE_MEM", jv_f(JENT_FORCE_SECURE_MEM));
	r = jent_status(&jv_ec, jv_buf, jv_buflen);
	JV_CHECK(!r, "a sufficient buffer succeeds");
	JV_CHECK(!jv_wrong, "appended in order");
	JV_CHECK(jv_verpart == 3 && jv_uuid_seen == 1, "version and identifier are reported");
	JV_CHECK(jv_closed == 1 && jv_depth == 0, "the document is closed");
	for (i = 0; i < jv_entries; i++)
		JV_CHECK(jv_en[i] == 1, "each value is reported once");
	JV_COVER(jv_ec.flags & JENT_NTG1, "a report");
#endif
	JV_COVER(!r, "success");
}
#elif JV_P == 2
void jv_harness(void)
{
	uint64_t pieces, buflen = jv_u64();

#ifdef JV_LARGE
	/* longer than any report */
	JV_ASSUME(buflen >= 1ul << 14 && buflen <= 1ul << 50);
#else
	buflen &= 0x3fff;
#endif
#ifdef JV_NOEC
	const int noec = 1;
#else
	const int noec = 0;
#endif
	int r;

	jv_setup();
	/* what the whole report consists of */
	jv_buflen = 1ul << 40;
	jv_probe = 1;
	r = jent_status(noec ? NULL : &jv_ec, jv_buf, jv_buflen);
	JV_CHECK(!r && !jv_wrong && !jv_trunc, "a sufficient buffer succeeds");
	pieces = jv_pieces;

	jv_probe = 0;
	jv_calls = 0;
	jv_pieces = jv_pos = 0;
	jv_term = 0;
	jv_buflen = buflen;
	
	JV_ASSUME(buflen);
	r = jent_status(noec ? NULL : &jv_ec, jv_buf, buflen);
	JV_CHECK(!jv_wrong, "the output stays inside of the buffer, piece after piece");
	JV_CHECK(jv_term && jv_pos < buflen, "the output is terminated");
	JV_CHECK(r <= 0, "0 or an error");
	JV_CHECK(r || (!jv_trunc && jv_pieces == pieces), "success is reported only if the report is complete");
	JV_CHECK(!r || jv_trunc || jv_pieces != pieces || jv_pos + 1 >= buflen, "a complete report with room to spare is a success");
#ifdef JV_LARGE
	JV_CHECK(!r, "a report that fits succeeds");
#else
	JV_COVER(r && buflen > 10, "a truncated report");
#endif
	JV_COVER(!r, "a complete report");
}
#elif JV_P == 4
void jv_harness(void)
{
	uint64_t buflen = jv_u64();
	int r;

	jv_setup();
	if (jv_bool()) {
		jv_buflen = 0;
		r = jent_status(jv_bool() ? NULL : &jv_ec, NULL, buflen);
	} else {
		jv_buflen = 0;
		r = jent_status(jv_bool() ? NULL : &jv_ec, jv_buf, 0);
	}
	JV_CHECK(r < 0 && !jv_wrong && !jv_term, "a missing buffer is refused");
	JV_COVER(buflen > 100, "a missing buffer");
}
#else
void jv_harness(void)
{
	char out[48];
	size_t buflen = JV_T(size_t);
	unsigned int i, len = 0;
	int r, noec = jv_bool(), nobuf = jv_bool();

	jv_setup();
	for (i = 0; i < sizeof(out); i++)
		out[i] = 'x';
	while (len < JENT_UUID_STRLEN && jv_ec.uuid[len])
		len++;
	r = jent_uuid(noec ? NULL : &jv_ec, nobuf ? NULL : out + 4, buflen);
	JV_CHECK((r == 0) == (!noec && !nobuf && buflen > len), "refused without collector or buffer, or if it does not fit");
	for (i = 0; i < sizeof(out); i++)
		if (r == 0 && i >= 4 && i - 4 <= len)
			JV_CHECK(out[i] == jv_ec.uuid[i - 4], "the identifier is copied completely");
		else if (r || i < 4 || i - 4 >= buflen || i > 4 + JENT_UUID_STRLEN)
			JV_CHECK(out[i] == 'x', "or not at all");
	JV_COVER(r && !noec && !nobuf && buflen > 30 && len == 36, "too small");
	JV_COVER(!r && len == 36, "copied");
}
#endif
