/*
 * Kernel services the kernel units of /repo call, as types, macros and the
 * declarations of contract stubs (bodies in contracts/kernel.c).  Nothing of
 * /repo is repeated here: the units themselves are included unchanged.
 */
#ifndef KSHIM_H
#define KSHIM_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t s64;
typedef uint8_t __u8; typedef uint32_t __u32; typedef uint64_t __u64;
#define __aligned_u64 uint64_t __attribute__((aligned(8)))
#ifndef ERESTARTSYS
#define ERESTARTSYS 512
#endif
#define __user
#define __init
#define __exit
#define GFP_KERNEL 0
#define HZ 250
#define THIS_MODULE ((void *)0)
#define KERNEL_VERSION(a,b,c) (((a) << 16) + ((b) << 8) + (c))
#define LINUX_VERSION_CODE KERNEL_VERSION(6,8,0)
#define module_param(n,t,m)
#define MODULE_PARM_DESC(n,d)
#define BUILD_BUG_ON(c) _Static_assert(!(c), "BUILD_BUG_ON")
#define min_t(t,a,b) ((t)(a) < (t)(b) ? (t)(a) : (t)(b))
#define max_t(t,a,b) ((t)(a) > (t)(b) ? (t)(a) : (t)(b))
#define max(a,b) ((a) > (b) ? (a) : (b))
#define min(a,b) ((a) < (b) ? (a) : (b))
#define container_of(p,t,m) ((t *)((char *)(p) - offsetof(t, m)))
#define u64_to_user_ptr(x) ((void *)(uintptr_t)(x))
static inline void jv_log(const char *f, ...) { (void)f; }
#define pr_err jv_log
#define pr_warn jv_log
#define pr_info jv_log
#define pr_notice jv_log
#define pr_err_ratelimited jv_log
#define pr_warn_ratelimited jv_log
#define _IOC_(d,t,n,s) (((unsigned)(d) << 30) | ((unsigned)(s) << 16) | ((unsigned)(t) << 8) | (unsigned)(n))
#define _IO(t,n) _IOC_(0,t,n,0)
#define _IOR(t,n,s) _IOC_(2,t,n,sizeof(s))
#define _IOW(t,n,s) _IOC_(1,t,n,sizeof(s))
#define _IOWR(t,n,s) _IOC_(3,t,n,sizeof(s))
extern int fips_enabled;
void panic(const char *f, ...);
struct mutex { int held; };
void mutex_init(struct mutex *m);
void mutex_destroy(struct mutex *m);
void mutex_lock(struct mutex *m);
int mutex_lock_interruptible(struct mutex *m);
int mutex_trylock(struct mutex *m);
void mutex_unlock(struct mutex *m);
void *kvmalloc(size_t n, int g);
void *kvzalloc(size_t n, int g);
void kvfree(const void *p);
void kvfree_sensitive(const void *p, size_t n);
void memzero_explicit(void *p, size_t n);
unsigned long copy_to_user(void *to, const void *from, unsigned long n);
unsigned long copy_from_user(void *to, const void *from, unsigned long n);
#define kmalloc kvmalloc
#define kzalloc kvzalloc
#define kfree kvfree
#define kfree_sensitive(p) kvfree_sensitive(p, (size_t)-1)
#define mutex_lock_killable mutex_lock_interruptible
#define likely(x) (x)
#define unlikely(x) (x)
#define CAP_SYS_ADMIN 21
bool capable(int cap);
#define current 0
int jv_signal(void);
int jv_resched(void);
#define signal_pending(c) jv_signal()
#define need_resched() jv_resched()
#define cond_resched() do {} while (0)
struct seq_file { void *private; };
void seq_puts(struct seq_file *m, const char *s);
struct proc_dir_entry { int x; };
struct proc_dir_entry *proc_create_single_data(const char *n, int m, struct proc_dir_entry *d, int (*f)(struct seq_file *, void *), void *p);
#define proc_create_single(n,m,d,f) proc_create_single_data(n,m,d,f,NULL)
struct proc_dir_entry *proc_mkdir(const char *n, struct proc_dir_entry *d);
void proc_remove(struct proc_dir_entry *p);
struct inode { int x; };
struct file { void *private_data; unsigned int f_flags; };
struct file_operations {
	void *owner;
	int (*open)(struct inode *, struct file *);
	int (*release)(struct inode *, struct file *);
	ssize_t (*read)(struct file *, char *, size_t, loff_t *);
	long (*unlocked_ioctl)(struct file *, unsigned int, unsigned long);
	long (*compat_ioctl)(struct file *, unsigned int, unsigned long);
};
long compat_ptr_ioctl(struct file *f, unsigned int c, unsigned long a);
#define MISC_DYNAMIC_MINOR 255
struct miscdevice { int minor; const char *name; const struct file_operations *fops; int mode; };
int misc_register(struct miscdevice *m);
void misc_deregister(struct miscdevice *m);
struct hwrng { const char *name; int (*read)(struct hwrng *, void *, size_t, bool); unsigned short quality; };
int hwrng_register(struct hwrng *r);
void hwrng_unregister(struct hwrng *r);
struct work_struct { int x; };
struct delayed_work { struct work_struct work; void (*func)(struct work_struct *); };
#define to_delayed_work(w) container_of(w, struct delayed_work, work)
void jv_init_work(struct delayed_work *w, void (*f)(struct work_struct *));
#define INIT_DELAYED_WORK(w,f) jv_init_work(w, f)
#define system_power_efficient_wq 0
void jv_queue_work(struct delayed_work *w);
#define queue_delayed_work(q,w,d) jv_queue_work(w)
void cancel_delayed_work_sync(struct delayed_work *w);
typedef struct { s64 counter; } atomic64_t;
#define ATOMIC64_INIT(v) { v }
static inline s64 atomic64_read(const atomic64_t *a) { return a->counter; }
static inline void atomic64_inc(atomic64_t *a) { a->counter++; }
struct crypto_tfm { void *ctx; };
struct crypto_rng { struct crypto_tfm base; };
#define crypto_tfm_ctx(t) ((t)->ctx)
#define crypto_rng_ctx(t) ((t)->base.ctx)
struct crypto_alg {
	const char *cra_name, *cra_driver_name; int cra_priority; unsigned int cra_ctxsize; void *cra_module;
	int (*cra_init)(struct crypto_tfm *); void (*cra_exit)(struct crypto_tfm *);
};
struct rng_alg {
	int (*generate)(struct crypto_rng *, const u8 *, unsigned int, u8 *, unsigned int);
	int (*seed)(struct crypto_rng *, const u8 *, unsigned int);
	unsigned int seedsize; struct crypto_alg base;
};
int crypto_register_rng(struct rng_alg *a);
void crypto_unregister_rng(struct rng_alg *a);
struct ratelimit_state { int x; };
#define DEFAULT_RATELIMIT_INTERVAL 0
#define DEFAULT_RATELIMIT_BURST 0
#define DEFINE_RATELIMIT_STATE(n,i,b) struct ratelimit_state n = { 0 }
int jv_ratelimit(void);
#define __ratelimit(s) jv_ratelimit()
#endif
