/* stand-ins for the kernel (rseq, getcpu), the dynamic linker and the auxiliary vector */
#include <rseq/rseq.h>
#include <errno.h>
#include <string.h>
#include <pthread.h>
#include <sys/syscall.h>
#include "sx.h"
#ifndef __NR_rseq
#define __NR_rseq 334
#endif

#ifdef SX_TSAN
#define KERNEL __attribute__((no_sanitize("thread"), noinline))
#else
#define KERNEL
#endif
/* the C library's symbols */
static int has_off, has_size, has_flags, ndl[3];
static ptrdiff_t c_off; static unsigned int c_size, c_flags;
KERNEL void *env_dlsym(void *h, const char *name)
{
	(void) h;
	if (!strcmp(name, "__rseq_offset")) { ndl[0]++; return has_off ? &c_off : NULL; }
	if (!strcmp(name, "__rseq_size")) { ndl[1]++; return has_size ? &c_size : NULL; }
	if (!strcmp(name, "__rseq_flags")) { ndl[2]++; return has_flags ? &c_flags : NULL; }
	return NULL;
}
/* the kernel's features */
static unsigned long feat, falign;
unsigned long env_getauxval(unsigned long t) { return t == 27 ? feat : t == 28 ? falign : 0; }

/* rseq(2) */
#define MAXT 4
static struct { struct rseq_abi *p; uint32_t len, sig; } reg[MAXT];
static int k_ok, k_nosys, k_fail, k_calls, k_errno_probe = EINVAL, k_getcpu_fail; static uint32_t k_cpu, k_node;
static struct rseq_abi *last_area; static uint32_t last_len; static int last_flags; static uint32_t last_sig;
static long err(int e) { errno = e; return -1; }
static KERNEL long k_rseq1(struct rseq_abi *p, uint32_t len, int flags, uint32_t sig)
{
	int t = sx_tid(), i;
	uint32_t f = feat ? feat : 20, al = falign ? falign : 32;
	if (!p && !len && !flags && !sig) return err(k_errno_probe);	/* availability probe */
	k_calls++; last_area = p; last_len = len; last_flags = flags; last_sig = sig;
#if defined(VP_C09) || defined(VP_C10)
	if (!(flags & 1) && !k_ok) sx_assert(rseq_size == 0, "no features are announced before a thread is registered");
#endif
	if (k_nosys) return err(ENOSYS);
	if (k_fail) return err(k_fail);
	if (flags & 1) {
		if (flags & ~1) return err(EINVAL);
		if (!reg[t].p || reg[t].p != p) return err(EINVAL);
		if (reg[t].len != len) return err(EINVAL);
		if (reg[t].sig != sig) return err(EPERM);
		p->cpu_id_start = 0; p->cpu_id = -1; p->node_id = 0; p->mm_cid = 0;
		reg[t].p = NULL; return 0;
	}
	if (flags) return err(EINVAL);
	if (reg[t].p) return err(reg[t].p != p || reg[t].len != len ? EINVAL : reg[t].sig != sig ? EPERM : EBUSY);
	if (len < 32 || (len == 32 && (uintptr_t) p % 32) || (len != 32 && ((uintptr_t) p % al || len < f))) return err(EINVAL);
	for (i = 0; i < MAXT; i++) if (reg[i].p == p) sx_fail("two threads register one area");
#ifdef VP_C10
	sx_room(p, len);
#endif
	k_ok = 1; reg[t].p = p; reg[t].len = len; reg[t].sig = sig;
	p->cpu_id_start = p->cpu_id = k_cpu; p->node_id = k_node; p->mm_cid = 0;
	return 0;
}
static KERNEL long k_rseq(struct rseq_abi *p, uint32_t len, int flags, uint32_t sig)
{
	sx_races(0); long r = k_rseq1(p, len, flags, sig); sx_races(1);	/* the kernel's own state is not the library's */
	return r;
}
static long k_getcpu(unsigned *c, unsigned *n)
{
	if (k_getcpu_fail) return err(k_getcpu_fail);
	if (c) *c = k_cpu;
	if (n) *n = k_node;
	return 0;
}
long env_syscall(long nr, long a, long b, long c, long d)
{
	if (nr == __NR_rseq) return k_rseq((struct rseq_abi *) a, b, c, d);
	if (nr == __NR_getcpu) return k_getcpu((unsigned *) a, (unsigned *) b);
	sx_fail("unexpected system call");
}
int env_getcpu(unsigned *c, unsigned *n) { return k_getcpu(c, n); }
int env_sched_getcpu(void) { unsigned c; return k_getcpu(&c, NULL) ? -1 : (int) c; }
static pthread_mutex_t once_lock = PTHREAD_MUTEX_INITIALIZER;
int env_pthread_once(int *o, void (*f)(void)) { pthread_mutex_lock(&once_lock); if (!*o) { f(); *o = 1; } pthread_mutex_unlock(&once_lock); return 0; }

/* any C library, any kernel */
static void any_libc(void)
{
	has_off = sx_choice(2, "has_offset"); has_size = sx_choice(2, "has_size"); has_flags = sx_choice(2, "has_flags");
	c_off = sx_u64("libc_offset"); c_size = sx_u32("libc_size"); c_flags = sx_u32("libc_flags");
}
static void any_kernel(void)
{
	feat = sx_u32("feature_size"); sx_assume(feat <= 1024 && (!feat || feat >= 20));
	falign = 32UL << sx_choice(6, "align"); if (sx_choice(2, "noalign")) falign = 0;
	k_cpu = sx_u32("cpu"); sx_assume((int32_t) k_cpu >= 0); k_node = sx_u32("node");
}
static int libc_owns(void) { return has_off && has_size && has_flags && c_size != 0; }
static unsigned kfeat(void) { return feat ? feat : 20; }
static int valid_unreg(struct rseq_abi *p) { return p != NULL; }
