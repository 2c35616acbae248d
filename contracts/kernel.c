/*
 * Contracts of the kernel interfaces (C33, C34).
 * JV_U 1 character device, 2 hwrng, 3 crypto API, 4 single-field ioctls,
 *      5 self test instance.
 * JV_P (unit 1): 1 read, 2 ioctls.
 *
 * The operations are reached through what the unit registers with the kernel,
 * so no static function is named.  Kernel services are contract stubs; the
 * library calls are represented by their contracts (C01-C03, C18, C26, C29).
 */
#include <stdlib.h>
#if JV_U == 4
# include "ec.h"
#endif
#include "jv.h"
#include "kshim.h"
#include "jitterentropy.h"
#include "linux_kernel/jitterentropy_selftest.h"
#include "linux_kernel/jitterentropy_uapi.h"

int fips_enabled;
unsigned int osr, flags, verbose;
struct proc_dir_entry *jent_proc_dir;
static struct proc_dir_entry jv_pde;

static char jv_col[2];			/* two collectors: before and after a recovery */
struct rand_data *jv_cur;		/* ghost: the live collector of the instance */
struct rand_data **jv_slot;		/* ghost: where the instance refers to it */
struct mutex *jv_held;			/* ghost: the lock held */
struct mutex *jv_lock;			/* ghost: the lock of the instance */
int jv_unlocked, jv_wrong;		/* ghost: requirement of a service broken */
int jv_uses;				/* ghost: library calls */
ssize_t jv_rc;				/* ghost: result of the last library read */
uint64_t jv_done, jv_len;		/* ghost: bytes handed to the caller / wanted */
char *jv_ubase;
const void *jv_src;			/* ghost: where the last bytes were delivered */
uint64_t jv_avail;
int jv_dirty;				/* ghost: random bytes lie in the bounce buffer */
int jv_fault, jv_intr, jv_again, jv_nomem;	/* ghost: refused services */
int jv_live;				/* ghost: temporary buffers held */
struct file jv_file;

static int jv_permanent(ssize_t r)
{
	return r == JENT_ERR_RCT_PERMANENT || r == JENT_ERR_APT_PERMANENT || r == JENT_ERR_LAG_PERMANENT ||
	       r == JENT_ERR_RCT_MEM_PERMANENT || r == JENT_ERR_SELFTEST;
}

static int jv_map(ssize_t r)
{
	if (jv_permanent(r))
		return -EFAULT;
	if (r == JENT_ERR_RCT || r == JENT_ERR_APT || r == JENT_ERR_LAG || r == JENT_ERR_RCT_MEM)
		return -EAGAIN;
	if (r == JENT_ERR_EINVAL || r == JENT_ERR_NOTIME)
		return -EINVAL;
	return -EFAULT;
}

#if JV_U == 5
int jv_st_ret;
#endif
void panic(const char *f, ...)
{
	(void)f;
#if JV_U == 5
	JV_CHECK(fips_enabled && jv_st_ret, "panic only on a failed self test in FIPS mode");
#else
	JV_CHECK(fips_enabled && jv_permanent(jv_rc), "panic only on a permanent failure in FIPS mode");
#endif
#ifdef JV_CBMC
	JV_ASSUME(0);
#else
	fprintf(stderr, "JV-OK\n");
	exit(0);
#endif
}

void mutex_init(struct mutex *m) { m->held = 0; }
void mutex_destroy(struct mutex *m)
{
	if (jv_held == m)
		jv_wrong = 1;
}
void mutex_lock(struct mutex *m)
{
	if (jv_held)
		jv_wrong = 1;
	jv_held = m;
}
int mutex_lock_interruptible(struct mutex *m)
{
	if (jv_bool()) {
		jv_intr = 1;
		return -EINTR;
	}
	mutex_lock(m);
	return 0;
}
int mutex_trylock(struct mutex *m)
{
	if (jv_bool()) {
		jv_again = 1;
		return 0;
	}
	mutex_lock(m);
	return 1;
}
void mutex_unlock(struct mutex *m)
{
	if (jv_held != m)
		jv_wrong = 1;
	jv_held = NULL;
}

static void *jv_tmpbuf;			/* ghost: last buffer allocated, and its size */
static size_t jv_tmpsize;
void *kvzalloc(size_t n, int g)
{
	void *p;

	(void)g;
	if (jv_bool()) {
		jv_nomem = 1;
		return NULL;
	}
	p = calloc(1, n);
	JV_ASSUME(p != NULL);
	jv_live++;
	jv_tmpbuf = p;
	jv_tmpsize = n;
	return p;
}
void *kvmalloc(size_t n, int g) { return kvzalloc(n, g); }
void kvfree(const void *p)
{
	if (!p)
		return;
	if (jv_dirty && p == jv_tmpbuf)
		jv_wrong = 1;
	jv_live--;
	free((void *)p);
}
void memzero_explicit(void *p, size_t n)
{
	if (p == jv_tmpbuf && n >= jv_tmpsize)
		jv_dirty = 0;
}
void kvfree_sensitive(const void *p, size_t n)
{
	memzero_explicit((void *)p, n);
	kvfree(p);
}

bool jv_cap;
bool capable(int cap)
{
	if (cap != CAP_SYS_ADMIN)
		jv_wrong = 1;
	return jv_cap;
}
int jv_signal(void) { return jv_bool(); }
int jv_resched(void) { return jv_bool(); }
int jv_ratelimit(void) { return jv_bool(); }
void seq_puts(struct seq_file *m, const char *s) { (void)m; (void)s; }
struct proc_dir_entry *proc_create_single_data(const char *n, int m, struct proc_dir_entry *d, int (*f)(struct seq_file *, void *), void *p)
{ (void)n; (void)m; (void)d; (void)f; (void)p; return jv_bool() ? &jv_pde : NULL; }
struct proc_dir_entry *proc_mkdir(const char *n, struct proc_dir_entry *d) { (void)n; (void)d; return jv_bool() ? &jv_pde : NULL; }
void proc_remove(struct proc_dir_entry *p) { (void)p; }
void jent_proc_instance_inc(void) {}
void jent_proc_instance_dec(void) {}

#if JV_U <= 3
/* ---- library contracts ---- */
struct rand_data *jent_entropy_collector_alloc(unsigned int o, unsigned int f)
{
	JV_CHECK(o == osr && f == flags, "the collector is allocated with the configured rate and flags");
	if (jv_bool())
		return NULL;
	jv_cur = (struct rand_data *)&jv_col[0];
	return jv_cur;
}
void jent_entropy_collector_free(struct rand_data *ec)
{
	if (ec != jv_cur)
		jv_wrong = 1;
	jv_cur = NULL;
}
ssize_t jent_read_entropy_safe(struct rand_data **ec, char *data, size_t len)
{
	uint64_t r = jv_u64();

	if (!jv_held || jv_held != jv_lock)
		jv_unlocked = 1;
	if (ec != jv_slot || *ec != jv_cur || jv_dirty > 1)
		jv_wrong = 1;
	jv_uses = 1;
#if JV_U == 1
	if ((void *)data != jv_tmpbuf || len > jv_tmpsize)
		jv_wrong = 1;
	jv_dirty = 1;
	jv_file.f_flags = JV_T(unsigned int);
#else
	if (data != jv_ubase || len != jv_len)
		jv_wrong = 1;
#endif
	if (jv_bool()) {
		jv_cur = (struct rand_data *)&jv_col[1];
		*ec = jv_cur;
	}
	jv_rc = r & 1 ? -1 - (ssize_t)((r >> 1) % 12) : (ssize_t)len;
	jv_src = data;
	jv_avail = jv_rc > 0 ? (uint64_t)jv_rc : 0;
	return jv_rc;
}
char jv_stat_text[1];
size_t jv_slen;
void *jv_stbuf;
int jv_stat_ret;
int jent_status(const struct rand_data *ec, char *buf, size_t n)
{
	if (!jv_held || jv_held != jv_lock)
		jv_unlocked = 1;
	if (ec != jv_cur || (void *)buf != jv_tmpbuf || n > jv_tmpsize || !n)
		jv_wrong = 1;
	jv_stbuf = buf;
	jv_uses = 1;
	jv_stat_ret = jv_bool() ? -1 : 0;
	buf[0] = (char)jv_u64();
	return jv_stat_ret;
}
int jent_uuid(const struct rand_data *ec, char *buf, size_t n)
{
	if (ec != jv_cur)
		jv_wrong = 1;
	if (n)
		buf[0] = 0;
	return jv_bool() ? -1 : 0;
}
struct jent_selftest_instance *jv_st;
void jent_selftest_instance_init(struct jent_selftest_instance *st, struct mutex *lock, struct rand_data **ec)
{
	jv_st = st;
	jv_lock = lock;
	jv_slot = ec;
	if (*ec != jv_cur || !jv_cur)
		jv_wrong = 1;
}
void jent_selftest_instance_exit(struct jent_selftest_instance *st)
{
	if (st != jv_st || !jv_cur || jv_held)
		jv_wrong = 1;
	jv_st = NULL;
}
#endif

/* everything an iteration of the read loop may change */
void jv_loop_entry(int l) { (void)l; }
void jv_loop_havoc(void)
{
#ifdef JV_CBMC
	int c;

	jv_done = jv_u64();
	jv_rc = (ssize_t)jv_u64();
	jv_avail = jv_u64();
	jv_dirty = jv_bool();
	jv_fault = jv_bool();
	jv_intr = jv_bool();
	jv_again = jv_bool();
	jv_unlocked = jv_bool();
	jv_wrong = jv_bool();
	jv_uses = jv_bool();
	jv_file.f_flags = JV_T(unsigned int);
	jv_cur = (struct rand_data *)&jv_col[c & 1];
	*jv_slot = jv_cur;
	jv_held = jv_bool() ? jv_lock : NULL;
#endif
}
static int jv_idle(void)
{
	return !jv_held && !jv_unlocked && !jv_wrong && !jv_fault && !jv_intr && !jv_again;
}

#if JV_U == 1
const struct file_operations *jv_fops;
int misc_register(struct miscdevice *m) { jv_fops = m->fops; return 0; }
void misc_deregister(struct miscdevice *m) { (void)m; jv_fops = NULL; }
long compat_ptr_ioctl(struct file *f, unsigned int c, unsigned long a) { (void)f; (void)c; (void)a; return 0; }

/* user memory: the read buffer (ghost range), the ioctl argument, the status buffer */
struct jent_status_ioctl jv_arg, jv_arg0;
static unsigned char jv_argraw[64];
char *jv_ustat;
uint64_t jv_ustat_len;			/* ghost: bytes copied to the status buffer */
int jv_argcopies;
int jv_is_status;
#include "linux_kernel/jitterentropy_ioctl.h"

unsigned long copy_to_user(void *to, const void *from, unsigned long n)
{
	if (jv_held)
		jv_wrong = 1;
	if (jv_bool()) {
		jv_fault = 1;
		return 1;
	}
#if JV_P == 1
	/* the freshly delivered bytes, and no others, to the next place of the caller's buffer */
	if (from != jv_src || n > jv_avail || to != (void *)(jv_ubase + jv_done) || n > jv_len - jv_done)
		jv_wrong = 1;
	jv_avail = 0;
	jv_done += n;
#else
	if (to == (void *)&jv_arg && jv_is_status) {
		if (n != sizeof(jv_arg))
			jv_wrong = 1;
		memcpy(&jv_arg, from, sizeof(jv_arg));
	} else if (to == (void *)jv_ustat && jv_is_status) {
		if (from != jv_stbuf || n > jv_arg0.length || jv_stat_ret)
			jv_wrong = 1;
		jv_ustat_len = n;
	} else if (to == (void *)jv_argraw && !jv_is_status) {
		if (n > sizeof(jv_argraw))
			jv_wrong = 1;
		else
			memcpy(jv_argraw, from, n);
		jv_argcopies++;
		jv_ustat_len = n;
	} else
		jv_wrong = 1;
#endif
	return 0;
}
unsigned long copy_from_user(void *to, const void *from, unsigned long n)
{
	if (jv_bool()) {
		jv_fault = 1;
		return 1;
	}
	if (from != (void *)&jv_arg || n != sizeof(jv_arg))
		jv_wrong = 1;
	else
		memcpy(to, &jv_arg, sizeof(jv_arg));
	return 0;
}
size_t jv_strlen(const char *s)
{
	if ((const void *)s != jv_stbuf)
		jv_wrong = 1;
	return jv_slen;
}
#define strlen jv_strlen
int jv_fret;
struct jent_ioctl_field jv_fld;
bool jent_ioctl_is_field(unsigned int cmd) { return cmd >= JENT_IOCVERSION && (cmd & 1); }
int jent_ioctl_field_get(const struct rand_data *ec, unsigned int cmd, struct jent_ioctl_field *out)
{
	(void)cmd;
	if (!jv_held || jv_held != jv_lock)
		jv_unlocked = 1;
	if (ec != jv_cur)
		jv_wrong = 1;
	jv_uses = 1;
	jv_fret = jv_bool() ? -5 : 0;
	memset(out, 0, sizeof(*out));
	out->value.output.invocations = jv_u64();
	out->value.output.bytes = jv_u64();
	out->size = 1 + jv_u64() % sizeof(out->value);
	jv_fld = *out;
	return jv_fret;
}
int jv_strun, jv_stres;
int jent_selftest_instance_run(struct jent_selftest_instance *st)
{
	if (st != jv_st || jv_held)
		jv_wrong = 1;
	jv_strun++;
	return jv_stres = jv_bool() ? -EFAULT : 0;
}
int jent_selftest_run_now(void) { jv_wrong = 1; return 0; }
#include JV_TU

static int jv_open(void)
{
	static struct inode ino;
	int r;

	jent_proc_dir = jv_bool() ? &jv_pde : NULL;
	if (jent_chardev_init() || !jv_fops)
		return 0;
	jv_file.f_flags = JV_T(unsigned int);
	r = jv_fops->open(&ino, &jv_file);
	JV_CHECK(!jv_wrong && !jv_held, "opening uses the kernel services properly");
	JV_CHECK(!r == !!jv_cur && (r == 0 || r == -ENOMEM), "a device is opened exactly with a collector of its own");
	JV_CHECK(r ? jv_live == 0 : jv_live == 1, "a failed open leaves nothing behind");
	return r == 0;
}
static void jv_close(void)
{
	static struct inode ino;

	JV_CHECK(jv_fops->release(&ino, &jv_file) == 0 && !jv_wrong && !jv_cur && !jv_st && jv_live == 0,
		 "closing stops the self test and then releases the collector and the instance");
}

#if JV_P == 1
void jv_harness(void)
{
	ssize_t r;
	loff_t pos = 0;
	static char ub[1];

	fips_enabled = jv_bool();
	if (!jv_open())
		return;
	jv_nomem = 0;
	jv_len = jv_u64() & ((1ul << 46) - 1);
#ifndef JV_CBMC
	jv_len &= 255;
#endif
	jv_ubase = ub;
	r = jv_fops->read(&jv_file, jv_ubase, jv_len, &pos);
	JV_CHECK(!jv_unlocked, "the instance lock is held around every use of the collector");
	JV_CHECK(!jv_held, "the instance lock is released on every path");
	JV_CHECK(!jv_wrong, "only the bytes just delivered reach the caller, in order, and the bounce buffer is wiped before its release");
	JV_CHECK(jv_live == 1, "the bounce buffer is released");
	JV_CHECK(jv_done <= jv_len, "not more than requested");
	JV_CHECK(jv_done == 0 || r == (ssize_t)jv_done, "the count is the number of bytes handed over");
	JV_CHECK(jv_done != 0 || jv_len == 0 || r < 0, "no byte handed over is reported as an error");
	JV_CHECK(jv_len || r == 0, "an empty read is a success");
	JV_CHECK(!(jv_uses && jv_rc < 0 && jv_done == 0) || r == jv_map(jv_rc), "the error code is the documented one");
	JV_CHECK(!(jv_uses && jv_rc < 0 && fips_enabled && jv_permanent(jv_rc)), "a permanent failure in FIPS mode does not return");
	JV_CHECK(!(jv_fault && jv_done == 0) || r == -EFAULT, "a failed copy is a fault");
	JV_CHECK(!(jv_intr && jv_done == 0) || r == -ERESTARTSYS, "an interrupted wait restarts");
	JV_CHECK(!(jv_again && jv_done == 0) || r == -EAGAIN, "a busy instance is try-again");
	JV_CHECK(!(jv_nomem && jv_len) || r == -ENOMEM, "lack of memory is reported");
	JV_COVER(jv_done > 32 && jv_rc < 0, "failure after a part");
	JV_COVER(r == -EAGAIN && jv_uses, "intermittent failure");
	JV_COVER(r > 0 && jv_done == jv_len, "full read");
	jv_close();
}
#else
static int jv_field_ok(void)
{
	size_t i;

	for (i = 0; i < sizeof(jv_fld.value); i++)
		if (jv_argraw[i] != (i < jv_fld.size ? ((unsigned char *)&jv_fld.value)[i] : 0))
			return 0;
	return 1;
}
void jv_harness(void)
{
	unsigned int cmd = JV_T(unsigned int);
	unsigned long a;
	long r;

	fips_enabled = jv_bool();
	if (!jv_open())
		return;
	jv_nomem = 0;
	jv_cap = jv_bool();
	jv_slen = jv_u64() % JENT_STATUS_MAX_LEN;
	if (jv_bool())
		cmd = jv_bool() ? JENT_IOCSTATUS : JENT_IOCSELFTEST;
	jv_is_status = cmd == JENT_IOCSTATUS;
	jv_arg.length = JV_T(uint32_t);
	{
		static char us[1];
		jv_ustat = us;
	}
	jv_arg.buf = (uint64_t)(uintptr_t)jv_ustat;
	jv_arg0 = jv_arg;
	a = jv_is_status ? (unsigned long)&jv_arg : (unsigned long)jv_argraw;
	r = jv_fops->unlocked_ioctl(&jv_file, cmd, a);
	JV_CHECK(!jv_unlocked && !jv_held, "the instance lock is held around every use of the collector and released");
	JV_CHECK(!jv_wrong, "only the report of this instance reaches the caller, and not more than fits");
	JV_CHECK(jv_live == 1, "the temporary buffer is released");
	JV_CHECK(cmd != JENT_IOCSELFTEST || (jv_cap ? jv_strun == 1 && r == jv_stres : jv_strun == 0 && r == -EPERM),
		 "the self test runs exactly for an administrator and its verdict is reported");
	JV_CHECK(cmd == JENT_IOCSELFTEST || jv_strun == 0, "no other request runs it");
	if (jv_is_status) {
		JV_CHECK(r || (!jv_fault && !jv_stat_ret && jv_ustat_len == jv_slen + 1 && jv_arg.length == jv_slen + 1),
			 "a status is complete, terminated and announced with its length");
		JV_CHECK(r != -EOVERFLOW || (jv_arg0.length < jv_slen + 1 && jv_arg.length == jv_slen + 1 && !jv_ustat_len),
			 "a short buffer is announced the needed length and not written");
		JV_CHECK(!jv_fault || r == -EFAULT, "a failed copy is a fault");
		JV_CHECK(!jv_stat_ret || r == -EIO, "a failed report is an error");
		JV_CHECK(jv_arg0.length > jv_slen || r, "no success with a short buffer");
		JV_COVER(r == 0, "status reported");
		JV_COVER(r == -EOVERFLOW, "short buffer");
	} else if (cmd != JENT_IOCSELFTEST) {
		if (!jent_ioctl_is_field(cmd))
			JV_CHECK(r == -ENOTTY && !jv_uses && !jv_argcopies, "unknown requests are refused");
		else {
			JV_CHECK(r || (jv_argcopies == 1 && jv_fret == 0 && jv_ustat_len == jv_fld.size && jv_field_ok()),
				 "the field is copied completely");
			JV_CHECK(!jv_fault || r == -EFAULT, "a failed copy is a fault");
			JV_CHECK(!jv_fret || !jv_uses || (r == jv_fret && !jv_argcopies), "a refused field is reported and nothing copied");
			JV_COVER(r == 0, "field reported");
		}
	}
	jv_close();
}
#endif
#endif

#if JV_U == 2
struct hwrng *jv_rng;
int hwrng_register(struct hwrng *r)
{
	if (jv_bool())
		return -EBUSY;
	jv_rng = r;
	return 0;
}
void hwrng_unregister(struct hwrng *r)
{
	if (r != jv_rng)
		jv_wrong = 1;
	jv_rng = NULL;
}
#include JV_TU
void jv_harness(void)
{
	static char ub[1];
	int r;
	bool w = jv_bool();

	fips_enabled = jv_bool();
	jent_proc_dir = jv_bool() ? &jv_pde : NULL;
	r = jent_hwrng_init();
	JV_CHECK(!jv_wrong && !jv_held && (r == 0) == (jv_rng != NULL), "registered exactly on success");
	JV_CHECK((r == 0) == (jv_cur != NULL), "a failed registration leaves no collector behind");
	JV_CHECK((r == 0) == (jv_st != NULL), "nor its self test");
	if (r)
		return;
	jv_ubase = ub;
	jv_len = jv_u64() & 0x7fffffff;
	r = jv_rng->read(jv_rng, ub, jv_len, w);
	JV_CHECK(!jv_unlocked && !jv_held, "the instance lock is held around every use of the collector and released");
	JV_CHECK(!jv_wrong, "the caller's request is passed on unchanged");
	JV_CHECK(!jv_uses || jv_rc < 0 || r == (int)jv_len, "success is exactly the bytes delivered");
	JV_CHECK(!jv_uses || jv_rc >= 0 || r == jv_map(jv_rc), "the error code is the documented one");
	JV_CHECK(!(jv_uses && jv_rc < 0 && fips_enabled && jv_permanent(jv_rc)), "a permanent failure in FIPS mode does not return");
	JV_CHECK(jv_uses || r <= 0, "no byte is reported without a delivery");
	JV_CHECK(!jv_intr || (r == -ERESTARTSYS && w), "an interrupted wait restarts");
	JV_CHECK(!jv_again || (r == 0 && !w), "a busy instance delivers nothing");
	JV_CHECK(jv_uses || jv_intr || jv_again || !jv_len, "a read is made");
	JV_COVER(r > 0, "read");
	JV_COVER(r == -EFAULT, "fault");
	jent_hwrng_exit();
	JV_CHECK(!jv_wrong && !jv_cur && !jv_st && !jv_rng, "removal releases the collector after its self test");
}
#endif

#if JV_U == 3
struct rng_alg *jv_alg;
int crypto_register_rng(struct rng_alg *a) { jv_alg = a; return 0; }
void crypto_unregister_rng(struct rng_alg *a) { (void)a; jv_alg = NULL; }
int jv_lines;
char *jv_strsep(char **s, const char *d)
{
	char *p = *s;

	(void)d;
	if (jv_lines++ >= 2)
		*s = NULL, p = NULL;
	return p;
}
#define strsep jv_strsep
#include JV_TU
static uint64_t jv_ctx[128];
void jv_harness(void)
{
	static char ub[1];
	struct crypto_rng t;
	int r;

	fips_enabled = jv_bool();
	verbose = jv_bool();
	if (jent_kcapi_init() || !jv_alg)
		return;
	JV_CHECK(jv_alg->base.cra_ctxsize <= sizeof(jv_ctx), "context size");
	t.base.ctx = jv_ctx;
	r = jv_alg->base.cra_init(&t.base);
	JV_CHECK(!jv_wrong && !jv_unlocked && !jv_held, "instance set-up uses the kernel services properly");
	JV_CHECK((r == 0) == (jv_cur != NULL) && (r == 0) == (jv_st != NULL) && jv_live == 0, "set up exactly with a collector");
	if (r)
		return;
	jv_uses = 0;
	jv_lines = 0;
	jv_ubase = ub;
	jv_len = jv_u64() & 0xffffffff;
	jv_rc = 0;
	r = jv_alg->generate(&t, NULL, 0, (u8 *)ub, (unsigned int)jv_len);
	JV_CHECK(!jv_unlocked && !jv_held, "the instance lock is held around every use of the collector and released");
	JV_CHECK(!jv_wrong, "the caller's request is passed on unchanged");
	JV_CHECK(jv_uses, "a read is made");
	JV_CHECK(jv_rc < 0 ? r == jv_map(jv_rc) : r == 0, "success exactly if all bytes were delivered, else the documented code");
	JV_CHECK(!(jv_rc < 0 && fips_enabled && jv_permanent(jv_rc)), "a permanent failure in FIPS mode does not return");
	JV_CHECK(jv_live == 0, "the log buffer is released");
	JV_COVER(r == 0, "generated");
	JV_COVER(r == -EAGAIN, "intermittent");
	jv_alg->base.cra_exit(&t.base);
	JV_CHECK(!jv_wrong && !jv_held && !jv_cur && !jv_st, "removal releases the collector after its self test");
}
#endif

#if JV_U == 4
#include "linux_kernel/jitterentropy_ioctl.h"
struct rand_data jv_ec, jv_old;
int jv_uret, jv_uempty;
unsigned int jv_ver;
unsigned int jent_version(void) { return jv_ver; }
int jent_uuid(const struct rand_data *ec, char *buf, size_t n)
{
	JV_CHECK(ec == &jv_ec && n >= JENT_UUID_STRLEN, "the identifier of this instance, with room for it");
	if (jv_uret)
		return jv_uret;
	memcpy(buf, jv_ec.uuid, JENT_UUID_STRLEN);
	return 0;
}
int jent_selftest_instance_run(struct jent_selftest_instance *st) { (void)st; return 0; }
int jent_selftest_run_now(void) { return 0; }
#include JV_TU
void jv_harness(void)
{
	struct jent_ioctl_field f;
	unsigned int cmd = JV_T(unsigned int), k = (unsigned int)(jv_u64() % 9), want = 0, isu32 = 1;
	static const unsigned int cmds[7] = { JENT_IOCUUID, JENT_IOCVERSION, JENT_IOCOSR, JENT_IOCFLAGS, JENT_IOCHEALTH, JENT_IOCOUTPUT, JENT_IOCREINIT };
	int none = jv_bool(), r, i, known = 0;

	memset(&f, 0xa5, sizeof(f));
	jv_fill_ec(&jv_ec);
	for (i = 0; i < JENT_UUID_STRLEN - 1; i++)
		jv_ec.uuid[i] = (char)jv_u64();
	jv_ver = jv_uint();
	jv_uret = jv_bool() ? -1 : 0;
	jv_old = jv_ec;
	if (k < 7)
		cmd = cmds[k];
	for (i = 0; i < 7; i++)
		known |= cmd == cmds[i];
	JV_CHECK(jent_ioctl_is_field(cmd) == (known != 0), "exactly the field requests are fields");
	r = jent_ioctl_field_get(none ? NULL : &jv_ec, cmd, &f);
	JV_CHECK(jv_same(&jv_ec, &jv_old, G_ALL), "a query changes nothing");
	JV_CHECK(known || r == -ENOTTY || (none && r == -ENODATA), "unknown requests are refused");
	if (none)
		JV_CHECK((r == 0) == (cmd == JENT_IOCVERSION), "without an instance only the version is known");
	if (cmd == JENT_IOCVERSION)
		want = jv_ver;
	else if (cmd == JENT_IOCOSR)
		want = jv_ec.osr;
	else if (cmd == JENT_IOCFLAGS)
		want = jv_ec.flags;
	else if (cmd == JENT_IOCHEALTH)
		want = jv_ec.health_failure;
	else if (cmd == JENT_IOCREINIT)
		want = jv_ec.reinit_count;
	else
		isu32 = 0;
	if (isu32 && (!none || cmd == JENT_IOCVERSION))
		JV_CHECK(r == 0 && f.size == 4 && f.value.u32 == want, "exactly the named value of this instance");
	if (!none && cmd == JENT_IOCOUTPUT)
		JV_CHECK(r == 0 && f.size == sizeof(struct jent_output_ioctl) && f.value.output.invocations == jv_ec.read_invocations &&
			 f.value.output.bytes == jv_ec.bytes_output, "exactly the output counters of this instance");
	if (!none && cmd == JENT_IOCUUID) {
		JV_CHECK(r == (jv_uret ? -EIO : jv_ec.uuid[0] ? 0 : -ENODATA), "an identifier only if there is one");
		JV_CHECK(r || (f.size == sizeof(struct jent_uuid_ioctl) && !memcmp(f.value.uuid.uuid, jv_ec.uuid, JENT_UUID_STRLEN)),
			 "exactly the identifier of this instance");
		JV_COVER(r == 0, "identifier");
	}
	for (i = 0; i < (int)sizeof(f.value); i++)
		if (r == 0 && (size_t)i < f.size && i >= 4 && isu32)
			JV_CHECK(0, "no memory behind the value");
	JV_COVER(r == -ENOTTY, "refused");
}
#endif

#if JV_U == 5
struct rand_data *jv_want;
int jv_runs, jv_failed, jv_queued;
void (*jv_workfn)(struct work_struct *);
static struct jent_selftest_instance jv_sti;
static struct mutex jv_m;
static struct rand_data *jv_ecp;
int jent_selftest(struct rand_data *ec)
{
	if (ec && jv_held != &jv_m)
		jv_unlocked = 1;
	if (ec != jv_want)
		jv_wrong = 1;
	if (jv_runs < 100)
		jv_runs++;
	jv_st_ret = jv_bool() ? 1 : 0;
	return jv_st_ret;
}
int jent_uuid(const struct rand_data *ec, char *buf, size_t n)
{
	(void)ec;
	JV_CHECK(n >= JENT_UUID_STRLEN, "room for the identifier");
	buf[0] = jv_bool() ? 'a' : 0;
	buf[1] = 0;
	return jv_bool() ? -1 : 0;
}
void jv_init_work(struct delayed_work *w, void (*f)(struct work_struct *))
{
	if (w != &jv_sti.work)
		jv_wrong = 1;
	jv_workfn = f;
}
void jv_queue_work(struct delayed_work *w) { if (w != &jv_sti.work) jv_wrong = 1; jv_queued = 1; }
void cancel_delayed_work_sync(struct delayed_work *w) { (void)w; jv_queued = 0; }
#include JV_TU
void jv_harness(void)
{
	int i, r, b;
	struct jent_selftest_stats s0, s1;

	fips_enabled = jv_bool();
	verbose = jv_bool();
	jv_sti.failed = jv_bool();
	jv_ecp = (struct rand_data *)&jv_col[0];
	jent_selftest_instance_init(&jv_sti, &jv_m, &jv_ecp);
	/* the instance keeps nothing but its verdict, so these runs reach every state of it */
	for (i = 0; i < 3; i++) {
		jv_intr = 0;
		jv_st_ret = 0;
		b = jv_runs;
		if (jv_bool())
			jv_ecp = (struct rand_data *)&jv_col[1];	/* recovery */
		jv_want = jv_ecp;
		jent_selftest_get_stats(&s0);
		if (jv_bool()) {
			jv_queued = 0;
			jv_workfn(&jv_sti.work.work);
			JV_CHECK(jv_failed ? jv_runs == b : jv_runs == b + 1, "the periodic run tests the instance until it failed");
			if (jv_st_ret)
				jv_failed = 1;
			JV_CHECK(jv_queued == !jv_failed, "repeated exactly while it passes");
		} else {
			r = jent_selftest_instance_run(&jv_sti);
			if (jv_intr) {
				JV_CHECK(r == -ERESTARTSYS && jv_runs == b, "an interrupted wait runs nothing");
			} else {
				JV_CHECK(jv_failed ? r == -EFAULT && jv_runs == b : jv_runs == b + 1 && r == (jv_st_ret ? -EFAULT : 0),
					 "the verdict is reported, and a failed one by every later run");
				if (jv_st_ret)
					jv_failed = 1;
			}
			JV_COVER(i == 2 && jv_failed && r == -EFAULT && jv_runs == b, "sticky verdict");
		}
		JV_CHECK(!(fips_enabled && jv_st_ret), "a failed self test in FIPS mode does not return");
		JV_CHECK(!jv_unlocked && !jv_wrong && !jv_held, "the current collector is tested under the instance lock, released afterwards");
		jent_selftest_get_stats(&s1);
		JV_CHECK(s1.runs == s0.runs + (u64)(jv_runs - b) && s1.failures == s0.failures + (jv_st_ret ? 1 : 0), "runs and failures are counted");
	}
	jv_want = NULL;
	jv_st_ret = 0;
	r = jent_selftest_run_now();
	JV_CHECK(r == (jv_st_ret ? -EFAULT : 0) && !jv_wrong, "an unbound run reports its own verdict");
	jent_selftest_instance_exit(&jv_sti);
	JV_CHECK(!jv_queued, "nothing runs after the exit");
}
#endif
