/*
 * Contracts of src/jitterentropy-timer.c on top of the real arch-thread.c.
 * JV_P 1: configuration of the clock thread and its freezing (C23)
 * JV_P 2: lifecycle of the clock thread (C31, C15)
 * JV_P 3: time stamps of the internal timer (C31)
 *
 * Any sequence of operations is made that the contracts of the callers allow
 * (base_alloc.c, base_read.c: a clock is started only when stopped, the context is
 * released only when the clock is stopped).  pthread functions may fail at will.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <errno.h>
#include "ec.h"
#include "src/jitterentropy-timer.h"
#include "src/jitterentropy-base.h"

struct rand_data jv_ec;
struct jent_notime_ctx jv_ctx;
int jv_ctx_live, jv_res_bad, jv_flag_bad, jv_pth_bad, jv_reset_bad, jv_attr, jv_run, jv_created;
long jv_ncpu, jv_highest;
unsigned int jv_flags, jv_need;
int jv_qual, jv_qual_ret, jv_qual_bad;
unsigned long jv_pin;
int jv_pinned;
void *(*jv_routine)(void *);
uint64_t jv_now;
unsigned long jv_cpu, jv_bit;
int jv_aff;
size_t jv_zeroed;
int jv_plat;

void *jent_zalloc(size_t len, unsigned int flags)
{
	static const struct jent_notime_ctx z;

	if ((flags & jv_need) != jv_need)
		jv_flag_bad = 1;
	if (len != sizeof(struct jent_notime_ctx) || jv_ctx_live)
		jv_res_bad = 1;
	if (jv_ncpu < 2)
		jv_res_bad = 1;
	if (jv_bool())
		return NULL;
	jv_ctx = z;
	jv_ctx_live = 1;
	return &jv_ctx;
}
void jent_zfree(void *p, size_t len)
{
	if (p != &jv_ctx || len != sizeof(struct jent_notime_ctx) || !jv_ctx_live || jv_run || jv_attr)
		jv_res_bad = 1;
	jv_ctx_live = 0;
}
long jent_ncpu(void) { return jv_ncpu; }
long jent_cpu_highest(void) { return jv_highest; }
void jent_get_nstime(uint64_t *out) { jv_plat = 1; *out = jv_now; }
int jent_time_entropy_init(unsigned int osr, unsigned int flags)
{
	jv_qual = 1;
	if (osr != jv_ec.osr || flags != (jv_flags | JENT_FORCE_INTERNAL_TIMER))
		jv_qual_bad = 1;
	jv_qual_ret = (int)(jv_u64() & 15);
	return jv_qual_ret;
}
void jent_yield(void)
{
	/* the clock thread ticks meanwhile */
	jv_ec.notime_timer += jv_u64() & 3;
}

#define jv_attr_ok(a) ((const void *)(a) == (const void *)&jv_ctx.notime_pthread_attr)
static int jv_pthread_attr_init(pthread_attr_t *a)
{
	if (!jv_ctx_live || !jv_attr_ok(a) || jv_attr)
		jv_pth_bad = 1;
	if (jv_bool())
		return ENOMEM;
	jv_attr = 1;
	return 0;
}
static int jv_pthread_attr_destroy(pthread_attr_t *a)
{
	if (!jv_ctx_live || !jv_attr_ok(a) || !jv_attr)
		jv_pth_bad = 1;
	jv_attr = 0;
	return 0;
}
static int jv_pthread_create(pthread_t *id, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	if (!jv_ctx_live || (a && (!jv_attr_ok(a) || !jv_attr)) || id != &jv_ctx.notime_thread_id || jv_run ||
	    arg != &jv_ec || !fn)
		jv_pth_bad = 1;
	if (jv_ec.notime_interrupt || jv_ec.notime_timer || jv_ec.notime_prev_timer)
		jv_reset_bad = 1;
	jv_routine = fn;
	if (jv_bool())
		return EAGAIN;
	jv_run = 1;
	jv_created = 1;
	*id = (pthread_t)77;
	return 0;
}
static int jv_pthread_join(pthread_t id, void **ret)
{
	(void)ret;
	if (!jv_ctx_live || !jv_run || id != (pthread_t)77)
		jv_pth_bad = 1;
	if (!jv_ec.notime_interrupt)
		jv_reset_bad = 1;
	jv_run = 0;
	return 0;
}
static int jv_sched_setaffinity(pid_t pid, size_t size, const cpu_set_t *set)
{
	size_t w = jv_bit / 64;

	jv_pinned++;
	if (pid != 0)
		jv_pth_bad = 1;
	/* any bit of the set: exactly the one asked for */
	if (size * 8 <= jv_cpu || (jv_zeroed && size > jv_zeroed))
		jv_pth_bad = 1;
	else if (jv_bit < size * 8 &&
		 ((((const uint64_t *)set)[w] >> (jv_bit % 64)) & 1) != (jv_bit == jv_cpu))
		jv_pth_bad = 1;
	errno = EINVAL;
	jv_aff = jv_bool() ? -1 : 0;
	return jv_aff;
}
#define pthread_attr_init jv_pthread_attr_init
#define pthread_attr_destroy jv_pthread_attr_destroy
#define pthread_create jv_pthread_create
#define pthread_join jv_pthread_join
#define sched_setaffinity jv_sched_setaffinity

/* a complete external implementation, and one with handlers missing at will */
int jv_ext_init[2], jv_ext_fini[2], jv_ext_start[2], jv_ext_stop[2], jv_ext_bad;
static char jv_extctx[2];
static int ext_init(int i, void **ctx)
{
	jv_ext_init[i]++;
	*ctx = &jv_extctx[i];
	return 0;
}
static void ext_ctx(int i, void *ctx)
{
	if (ctx != &jv_extctx[i])
		jv_ext_bad = 1;
}
static int a_init(void **c) { return ext_init(0, c); }
static int b_init(void **c) { return ext_init(1, c); }
static void a_fini(void *c) { ext_ctx(0, c); jv_ext_fini[0]++; }
static void b_fini(void *c) { ext_ctx(1, c); jv_ext_fini[1]++; }
static int a_start(void *c, void *(*fn)(void *), void *arg) { ext_ctx(0, c); jv_ext_start[0]++; if (arg != &jv_ec || !fn) jv_ext_bad = 1; return 0; }
static int b_start(void *c, void *(*fn)(void *), void *arg) { ext_ctx(1, c); jv_ext_start[1]++; if (arg != &jv_ec || !fn) jv_ext_bad = 1; return 0; }
static void a_stop(void *c) { ext_ctx(0, c); jv_ext_stop[0]++; }
static void b_stop(void *c) { ext_ctx(1, c); jv_ext_stop[1]++; }
static struct jent_notime_thread jv_a = { a_init, a_fini, a_start, a_stop }, jv_b;

static void jv_loop_entry(int l) { (void)l; }
static void jv_loop_havoc(void)
{
#ifdef JV_CBMC
	uint64_t x;
	jv_ec.notime_timer = x;
#endif
}

#include "arch/jitterentropy-arch-atomic.c"
#include JV_TU
#undef pthread_attr_init
#undef pthread_attr_destroy
#undef pthread_create
#undef pthread_join
#undef sched_setaffinity
#define pthread_attr_init jv_pthread_attr_init
#define pthread_attr_destroy jv_pthread_attr_destroy
#define pthread_create jv_pthread_create
#define pthread_join jv_pthread_join
#define sched_setaffinity jv_sched_setaffinity
#if JV_P == 1 || JV_P == 2
int jent_thread_pin_to_cpu(unsigned long cpu)
{
	if (cpu != jv_ctx.notime_cpu)
		jv_pth_bad = 1;
	return jv_bool() ? -EINVAL : 0;
}
/* the pinning itself is JV_P 4 */
#define jent_thread_pin_to_cpu jv_real_pin
#endif
#if JV_P == 4
struct jv_cpus { uint64_t w[JENT_NCPU_SET_MAX / 64]; } jv_set;
static const struct jv_cpus jv_noset;
static void jv_memset(void *p, int c, size_t n)
{
	unsigned int i;

	if (p == (void *)&jv_set) {
		/* zeroing up to the size handed to the kernel is what counts: nothing behind it is read */
		if (c || n > sizeof(jv_set) || n * 8 <= jv_cpu)
			jv_pth_bad = 1;
		jv_zeroed = n;
		jv_set = jv_noset;
		return;
	}
	if (c || n != sizeof(cpu_set_t))
		jv_pth_bad = 1;
	for (i = 0; i < sizeof(cpu_set_t) / 8; i++)
		((uint64_t *)p)[i] = 0;
}
#define __builtin_memset jv_memset
#endif
#if JV_P != 3
#include "arch/jitterentropy-arch-thread.c"
#endif
#undef __builtin_memset
#undef jent_thread_pin_to_cpu

static void start(void)
{
	jv_ncpu = (long)(int)jv_u64();
	jv_highest = (long)(int)jv_u64();
	jv_flags = JV_T(unsigned int);
	jv_need = jv_flags & JENT_FORCE_SECURE_MEM;
	jv_fill_ec(&jv_ec);
	jv_ec.enable_notime = 0;
	jv_ec.notime_thread_ctx = NULL;
}

#if JV_P == 1
static void check(int sel, int cpu_set, unsigned long cpu)
{
	int i, r;

	start();
	JV_ASSUME(jv_ncpu >= 2);
	jv_ec.enable_notime = 0;
	jent_notime_force();
	r = jent_notime_enable(&jv_ec, jv_flags);
	if (!r) {
		unsigned long hi = jv_highest >= 0 ? (unsigned long)jv_highest : (unsigned long)(jv_ncpu - 1);

		JV_CHECK(sel >= 0 || jv_ctx.notime_cpu == (cpu_set ? cpu : hi), "the CPU set last is used, the highest one by default");
		r = jent_notime_settick(&jv_ec);
		jent_notime_unsettick(&jv_ec);
		jent_notime_disable(&jv_ec);
		JV_CHECK(sel >= 0 || jv_ext_init[0] + jv_ext_init[1] == 0, "the built-in implementation is used unless another is accepted");
		for (i = 0; i < 2; i++)
			JV_CHECK(jv_ext_init[i] == (sel == i) && jv_ext_start[i] == (sel == i) && jv_ext_stop[i] == (sel == i) &&
				 jv_ext_fini[i] == (sel == i), "exactly the accepted implementation is used");
		JV_CHECK(!jv_ext_bad, "with its own context");
		JV_CHECK(sel < 0 || !jv_created, "and no built-in thread");
		JV_COVER(sel == 1, "second implementation in use");
		JV_COVER(sel < 0 && cpu_set, "configured CPU in use");
	}
}

void jv_harness(void)
{
	int i, sel = -1, blocked = 0, cpu_set = 0, r;
	unsigned long cpu = 0;

	for (i = 0; i < 4; i++) {
		unsigned int op = (unsigned int)(jv_u64() & 3);

		if (op == 0) {
			jent_notime_block_switch();
			blocked = 1;
		} else if (op == 1) {
			unsigned long c = JV_T(unsigned long);

			r = jent_notime_set_cpu(c);
			JV_CHECK(r == (blocked ? -EAGAIN : 0), "the CPU can be set until initialisation starts");
			if (!blocked) {
				cpu_set = 1;
				cpu = c;
			}
		} else {
			unsigned int w = (unsigned int)(jv_u64() & 3), m = (unsigned int)(jv_u64() & 15);
			struct jent_notime_thread *t = w == 0 ? NULL : w == 1 ? &jv_a : &jv_b;
			int bad = !t || (t == &jv_b && m != 15);

			/* an implementation that is in use is not taken apart */
			if (t == &jv_b && sel != 1) {
				jv_b.jent_notime_init = m & 1 ? b_init : NULL;
				jv_b.jent_notime_fini = m & 2 ? b_fini : NULL;
				jv_b.jent_notime_start = m & 4 ? b_start : NULL;
				jv_b.jent_notime_stop = m & 8 ? b_stop : NULL;
			} else if (t == &jv_b)
				bad = 0;
			r = jent_notime_switch(t);
			JV_CHECK(r == (blocked ? -EAGAIN : bad ? -EINVAL : 0), "an implementation is accepted iff complete and in time");
			if (!blocked && !bad)
				sel = t == &jv_a ? 0 : 1;
			JV_COVER(r == -EINVAL && m == 7 && t, "incomplete implementation");
			JV_COVER(r == -EAGAIN && sel == 0, "too late");
		}
	}
	check(sel, cpu_set, cpu);
}
#elif JV_P == 2
void jv_harness(void)
{
	int i, r, forced = 0, used = 0, had = 0, fresh;

	start();
	if (jv_bool()) {
		jent_notime_force();
		forced = 1;
	}
	JV_CHECK(!!jent_notime_forced() == forced, "forcing is visible");
	fresh = jv_bool();
	if (!fresh) {
		/* set up */
		r = jent_notime_enable(&jv_ec, jv_flags);
		JV_CHECK(jv_qual == (!forced && (jv_flags & JENT_FORCE_INTERNAL_TIMER)), "the internal timer is qualified once");
		JV_CHECK(!jv_qual_bad, "for the rate and flags of the collector");
		JV_CHECK(!jv_flag_bad, "its context is locked on demand");
		used = forced || (jv_flags & JENT_FORCE_INTERNAL_TIMER);
		if (!used || (jv_qual && jv_qual_ret)) {
			JV_CHECK(!jv_ec.enable_notime && !jv_ctx_live, "not used");
			JV_CHECK(!r == !used, "a failed qualification is an error");
			JV_CHECK(!used || r == EHEALTH, "namely a health error");
			used = 0;
		} else {
			JV_CHECK(jv_ec.enable_notime, "the collector uses the clock thread");
			if (jv_ncpu < 2)
				JV_CHECK(r && !jv_ctx_live, "never on fewer than two CPUs");
			JV_CHECK(!r == jv_ctx_live, "success has a context");
			if (!r)
				JV_CHECK(jv_ec.notime_thread_ctx == &jv_ctx &&
					 (long)jv_ctx.notime_cpu == (jv_highest >= 0 ? jv_highest : jv_ncpu - 1), "on the highest CPU");
		}
		had = jv_ctx_live;
		JV_COVER(!r && used, "clock thread configured");
		JV_COVER(r && used, "set up failed");
	}
	for (i = 0; i < 4; i++) {
		if (jv_bool()) {
			if (jv_run)
				continue;
			jv_created = 0;
			r = jent_notime_settick(&jv_ec);
			if (jv_ec.enable_notime)
				JV_CHECK(!r == jv_run && (!r || r < 0 || 1), "a start is reported as it happened");
			else
				JV_CHECK(!r && !jv_created, "no thread without need");
			JV_CHECK(jv_run || !jv_attr, "a failed start leaves no attributes behind");
			JV_COVER(r && jv_ctx_live, "failed start");
		} else {
			jent_notime_unsettick(&jv_ec);
			JV_CHECK(!jv_run && !jv_attr, "stopping joins the thread and releases its attributes");
		}
		JV_CHECK(!jv_pth_bad, "only a started thread is joined, everything once");
		JV_CHECK(!jv_reset_bad, "counter and stop request are reset before a start, the stop is requested before the join");
	}
	jent_notime_unsettick(&jv_ec);
	JV_CHECK(!jv_run && !jv_attr && !jv_pth_bad && !jv_reset_bad, "stopped");
	if (jv_routine) {
		/* the stop request is pending: the routine of the thread honours it */
		jv_routine(&jv_ec);
		JV_CHECK(jv_ec.notime_timer == 0, "the counter starts at zero");
		JV_COVER(1, "thread routine");
	}
	jent_notime_disable(&jv_ec);
	JV_CHECK(!jv_ctx_live && !jv_res_bad, "the context is released exactly once");
	(void)had;
}
#elif JV_P == 4
int jv_set_live, jv_oom;
cpu_set_t *__sched_cpualloc(size_t count)
{
	if (jv_set_live || count > JENT_NCPU_SET_MAX)
		jv_res_bad = 1;
	if (jv_bool()) {
		jv_oom = 1;
		return NULL;
	}
	jv_set_live = 1;
	return (cpu_set_t *)&jv_set;
}
void __sched_cpufree(cpu_set_t *set)
{
	if (set != (cpu_set_t *)&jv_set || !jv_set_live)
		jv_res_bad = 1;
	jv_set_live = 0;
}
void jv_harness(void)
{
	int r;

	jv_cpu = JV_T(unsigned long);
	jv_bit = JV_T(unsigned long);
#ifdef JV_CBMC
	__CPROVER_havoc_object(&jv_set);
#endif
	r = jent_thread_pin_to_cpu(jv_cpu);
	JV_CHECK(!jv_pth_bad, "exactly the given CPU is selected");
	JV_CHECK(!jv_res_bad && !jv_set_live, "the set is released");
	JV_CHECK(jv_pinned <= 1 && (r == 0) == (jv_pinned && !jv_aff), "success iff the thread is pinned");
	JV_CHECK(r <= 0, "a negative code else");
	JV_CHECK(jv_cpu >= JENT_NCPU_SET_MAX || jv_pinned || jv_oom, "every CPU can be selected");
	JV_COVER(!r && jv_cpu >= 1024, "a high CPU");
	JV_COVER(!r && jv_cpu < 1024, "a low CPU");
}
#else
void jv_harness(void)
{
	uint64_t out = 0, prev, t0;

	start();
	jv_ec.enable_notime = jv_bool();
	jv_now = JV_T(uint64_t);
	prev = jv_ec.notime_prev_timer;
	t0 = jv_ec.notime_timer;
	jent_get_nstime_internal(&jv_ec, &out);
	if (jv_ec.enable_notime) {
		JV_CHECK(out != prev, "each time stamp differs from the previous one");
		JV_CHECK(out == jv_ec.notime_timer && jv_ec.notime_prev_timer == out, "it is the counter, which is remembered");
		JV_CHECK(!jv_plat, "the platform clock is not involved");
		JV_COVER(t0 == prev, "waited for the clock");
	} else {
		JV_CHECK(out == jv_now && jv_ec.notime_prev_timer == prev && jv_ec.notime_timer == t0, "the platform clock");
		JV_COVER(1, "platform clock");
	}
}
#endif
