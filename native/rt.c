/* Native runtime of the harness interface: replays the solver's values against the real code.
 * argv[1]: file with one input per line: <kind> <name> <value> <n>
 * exit: 0 no violation, 10 violation reproduced, 11 the run diverged from the recorded path,
 *       12 something the native run cannot reproduce. */
#define _GNU_SOURCE
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>

struct in { char kind[12]; char name[120]; unsigned long long val; int n; };
static struct in *ins; static int nin, pos;
static int expect_abort, in_child, fault_budget, munmap_budget, fault_fired, tier; static uint64_t mmap_mode;
static int ignore_aborts;
static char params[64][64]; static long pvals[64]; static int nparams;

#ifdef SX_TSAN
#define FREE_RUN 1
#else
#define FREE_RUN 0
#endif

static void out(int code, const char *fmt, ...)
{
	char b[1024]; va_list ap;
	va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
	if (n > (int) sizeof b - 2) n = sizeof b - 2;
	b[n++] = '\n';
	if (write(1, b, n)) { }
	syscall(SYS_exit_group, code);
	__builtin_unreachable();
}
static void viol(const char *m) { out(10, "SX-VIOLATION %s", m); }

static unsigned long long take(const char *kind, const char *name)
{
	while (pos < nin && (!strcmp(ins[pos].kind, "event") || !strcmp(ins[pos].kind, "regs"))) pos++;	/* not inputs of the program */
	if (pos >= nin) {
		/* the symbolic path ended here; anything later is unconstrained */
		out(11, "SX-DIVERGED inputs exhausted at %s %s", kind, name);
	}
	struct in *i = &ins[pos];
	char nb[120]; size_t k;
	for (k = 0; name && name[k] && k < sizeof nb - 1; k++) nb[k] = name[k] == ' ' ? '_' : name[k];
	nb[k] = 0; if (name) name = nb;
	if (strcmp(i->kind, kind) || (name && strcmp(i->name, name)))
		out(11, "SX-DIVERGED expected %s %s, have %s %s", i->kind, i->name, kind, name ? name : "");
	pos++;
	return i->val;
}
uint64_t sx_u64(const char *n) { return take("u64", n); }
uint32_t sx_u32(const char *n) { return take("u32", n); }
uint8_t sx_u8(const char *n) { return take("u8", n); }
void sx_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((uint8_t *) p)[i] = take("u8", name); }
int sx_choice(int n, const char *name) { (void) n; return take("choice", name); }
void sx_assume(int c) { if (!c) out(11, "SX-DIVERGED assumption false"); }
void sx_assert(int c, const char *m) { if (!c) viol(m); }
void sx_fail(const char *m) { viol(m); __builtin_unreachable(); }
void sx_cover(const char *n) { (void) n; }
void sx_end(void) { if (in_child) _exit(0); out(0, "SX-END"); __builtin_unreachable(); }
void sx_expect_abort(int on) { expect_abort = on; }
uint64_t sx_concrete(uint64_t v) { return v; }
void sx_faults(int b) { fault_budget = b; }
void sx_munmap_faults(int b) { munmap_budget = b; }
int sx_fault_fired(void) { return fault_fired; }
void sx_mmap_any(uint64_t span) { mmap_mode = span; }
int sx_native(void) { return 1; }
int sx_tier(void) { return tier; }
int sx_param(const char *n) { for (int i = 0; i < nparams; i++) if (!strcmp(params[i], n)) return pvals[i]; return 0; }
void *sx_thread_pointer(void) { return __builtin_thread_pointer(); }
int sx_private(void *p)
{
	/* present, not a page of the file and not the zero page */
	uint64_t e; FILE *f = fopen("/proc/self/pagemap", "r");
	if (!f || fseek(f, (uintptr_t) p / 4096 * 8, SEEK_SET) || fread(&e, 8, 1, f) != 1) out(12, "SX-UNSUPPORTED page privateness");
	fclose(f);
	return (e >> 63 & 1) && !(e >> 61 & 1) && (e >> 56 & 1);
}
void sx_cow_race(void *p, int on) { (void) p; (void) on; }
void sx_preempt_bound(int n) { (void) n; }
void sx_races(int on) { (void) on; }

static int fault(const char *kind)
{
	int *b = strcmp(kind, "munmap") ? &fault_budget : &munmap_budget;
	char nm[64];
	if (*b <= 0) return 0;
	snprintf(nm, sizeof nm, "fault:%s", kind);
	if (take("fault", nm)) { --*b; fault_fired++; return 1; }
	return 0;
}

/* ---- resources */
static pthread_mutex_t rl = PTHREAD_MUTEX_INITIALIZER;
static void *heap[1 << 16]; static int nheap, heap_live;
static void hadd(void *p) { pthread_mutex_lock(&rl); heap[nheap++] = p; heap_live++; pthread_mutex_unlock(&rl); }
int sx_heap_live(void) { return heap_live; }
/* reads the digits itself, so that the address sanitizer sees it */
static void touch_num(const char *s)
{
	while (*(const volatile char *) s == ' ' || (*s >= 9 && *s <= 13)) s++;
	if (*s == '-' || *s == '+') s++;
	while (*(const volatile char *) s >= '0' && *s <= '9') s++;
}
long env_strtol(const char *s, char **e, int b) { touch_num(s); return strtol(s, e, b); }
unsigned long env_strtoul(const char *s, char **e, int b) { touch_num(s); return strtoul(s, e, b); }
long long env_strtoll(const char *s, char **e, int b) { touch_num(s); return strtoll(s, e, b); }
unsigned long long env_strtoull(const char *s, char **e, int b) { touch_num(s); return strtoull(s, e, b); }
long env___isoc23_strtol(const char *s, char **e, int b) { touch_num(s); return strtol(s, e, b); }
unsigned long env___isoc23_strtoul(const char *s, char **e, int b) { touch_num(s); return strtoul(s, e, b); }
void *env_malloc(size_t n) { if (fault("malloc")) { errno = ENOMEM; return NULL; } void *p = malloc(n); if (p) { memset(p, 0xa5, n); hadd(p); } return p; }
void *env_calloc(size_t a, size_t b) { if (fault("calloc")) { errno = ENOMEM; return NULL; } if (b && a > (1UL << 24) / b) { errno = ENOMEM; return NULL; } void *p = calloc(a, b); if (p) hadd(p); return p; }
void env_free(void *p)
{
	if (!p) return;
	pthread_mutex_lock(&rl);
	for (int i = 0; i < nheap; i++) if (heap[i] == p) { heap[i] = heap[--nheap]; heap_live--; pthread_mutex_unlock(&rl); free(p); return; }
	pthread_mutex_unlock(&rl);
	viol("free() of a pointer that is not a live heap block");
}
void *env_realloc(void *p, size_t n)
{
	if (!p) return env_malloc(n);
	if (fault("realloc")) { errno = ENOMEM; return NULL; }
	void *q = malloc(n); if (!q) return NULL;
	hadd(q); memcpy(q, p, n); env_free(p); return q;
}
char *env_strdup(const char *s) { if (fault("strdup")) { errno = ENOMEM; return NULL; } char *p = strdup(s); if (p) hadd(p); return p; }
char *env_strndup(const char *s, size_t n) { if (fault("strdup")) { errno = ENOMEM; return NULL; } char *p = strndup(s, n); if (p) hadd(p); return p; }
int env_posix_memalign(void **pp, size_t a, size_t n) { if (fault("malloc")) return ENOMEM; int r = posix_memalign(pp, a, n); if (!r) hadd(*pp); return r; }
void *env_aligned_alloc(size_t a, size_t n) { if (fault("malloc")) { errno = ENOMEM; return NULL; } void *p = aligned_alloc(a, n); if (p) hadd(p); return p; }

struct seg { uintptr_t a, b; };
static struct seg segs[4096]; static int nsegs;
static int covered(uintptr_t a, uintptr_t b)
{
	while (a < b) {
		int f = 0;
		for (int i = 0; i < nsegs; i++) if (segs[i].a <= a && a < segs[i].b) { a = segs[i].b; f = 1; break; }
		if (!f) return 0;
	}
	return 1;
}
static void carve(uintptr_t a, uintptr_t b)
{
	for (int i = 0; i < nsegs; i++) {
		struct seg s = segs[i];
		if (s.b <= a || s.a >= b) continue;
		segs[i] = segs[--nsegs]; i--;
		if (s.a < a) segs[nsegs++] = (struct seg){ s.a, a };
		if (s.b > b) segs[nsegs++] = (struct seg){ b, s.b };
	}
}
uint64_t sx_map_live(void) { uint64_t t = 0; for (int i = 0; i < nsegs; i++) t += segs[i].b - segs[i].a; return t; }
int sx_mapped(uint64_t a, uint64_t n) { return a + n > a && covered(a & ~4095ULL, (a + n + 4095) & ~4095ULL); }
#include <sys/stat.h>
static struct { uintptr_t a, len; ino_t ino; off_t off; int shared; } fmaps[4096]; static int nfmaps;
static void fmap(void *p, size_t len, int fd, off_t off, int flags)
{
	struct stat st;
	if ((flags & MAP_ANONYMOUS) || fstat(fd, &st)) return;
	for (int i = 0; i < nfmaps; i++) if (fmaps[i].a == (uintptr_t) p) fmaps[i--] = fmaps[--nfmaps];
	fmaps[nfmaps].a = (uintptr_t) p; fmaps[nfmaps].len = len; fmaps[nfmaps].ino = st.st_ino; fmaps[nfmaps].off = off; fmaps[nfmaps++].shared = !!(flags & MAP_SHARED);
}
void *sx_init_ptr(void *q)
{
	uintptr_t p = (uintptr_t) q;
	for (int i = 0; i < nfmaps; i++)
		if (fmaps[i].a <= p && p < fmaps[i].a + fmaps[i].len) {
			uintptr_t o = p - fmaps[i].a + fmaps[i].off;
			for (int j = 0; j < nfmaps; j++)
				if (fmaps[j].shared && fmaps[j].ino == fmaps[i].ino && o - fmaps[j].off < fmaps[j].len) return (void *) (fmaps[j].a + o - fmaps[j].off);
		}
	return NULL;
}
static struct { uintptr_t a, b; } nofork[256]; static int nnofork;
#define UP(x) (((x) + 4095UL) & ~4095UL)
void *env_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
	void *p;
	if (!len) { errno = EINVAL; return MAP_FAILED; }
	if (len > 1UL << 47) { errno = ENOMEM; return MAP_FAILED; }
	pthread_mutex_lock(&rl);
	if (flags & MAP_FIXED) {
		if ((uintptr_t) addr & 4095) { errno = EINVAL; pthread_mutex_unlock(&rl); return MAP_FAILED; }
		if (fault("mmap_fixed")) { errno = ENOMEM; pthread_mutex_unlock(&rl); return MAP_FAILED; }
		if (!covered((uintptr_t) addr, (uintptr_t) addr + UP(len))) viol("MAP_FIXED mapping over addresses the caller does not own");
		p = mmap(addr, len, prot, flags | MAP_NORESERVE, fd, off);
		if (p != MAP_FAILED) { fmap(p, len, fd, off, flags); carve((uintptr_t) p, (uintptr_t) p + UP(len)); segs[nsegs++] = (struct seg){ (uintptr_t) p, (uintptr_t) p + UP(len) }; }
		pthread_mutex_unlock(&rl); return p;
	}
	if (fault("mmap")) { errno = ENOMEM; pthread_mutex_unlock(&rl); return MAP_FAILED; }
	if (mmap_mode) {
		/* any address residue: reserve a span and map inside it */
		uint64_t k = take("addr64", "mmap_page"), m = mmap_mode;
		char *r = mmap(NULL, UP(len) + 2 * m + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (r == MAP_FAILED) out(12, "SX-UNSUPPORTED reservation failed");
		uintptr_t base = ((uintptr_t) r + m - 1) / m * m;
		p = mmap((void *) (base + k * 4096), len, prot, flags | MAP_FIXED | MAP_NORESERVE, fd, off);
	} else
		p = mmap(addr, len, prot, flags | MAP_NORESERVE, fd, off);
	if (p == MAP_FAILED && len > 1UL << 30) out(12, "SX-UNSUPPORTED mapping of %zu bytes refused", len);
	if (p != MAP_FAILED) segs[nsegs++] = (struct seg){ (uintptr_t) p, (uintptr_t) p + UP(len) };
	pthread_mutex_unlock(&rl);
	return p;
}
void *env_mmap64(void *a, size_t l, int p, int f, int d, off_t o) { return env_mmap(a, l, p, f, d, o); }
int env_munmap(void *addr, size_t len)
{
	uintptr_t a = (uintptr_t) addr;
	if ((a & 4095) || !len) { errno = EINVAL; return -1; }
	if (fault("munmap")) { errno = ENOMEM; return -1; }
	pthread_mutex_lock(&rl);
	if (!covered(a, a + UP(len))) viol("munmap of addresses that are not mapped by the caller");
	for (int i = 0; i < nfmaps; i++) if (fmaps[i].a >= a && fmaps[i].a < a + len) fmaps[i--] = fmaps[--nfmaps];
	carve(a, a + UP(len));
	for (int i = 0; i < nnofork; i++) if (nofork[i].a >= a && nofork[i].b <= a + UP(len)) nofork[i--] = nofork[--nnofork];
	int r = munmap(addr, len);
	if (mmap_mode) mmap(addr, UP(len), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	pthread_mutex_unlock(&rl);
	return r;
}
int env_madvise(void *addr, size_t len, int adv)
{
	uintptr_t a = (uintptr_t) addr;
	if (a & 4095) { errno = EINVAL; return -1; }
	if (fault("madvise")) { errno = EINVAL; return -1; }
	if (!covered(a, a + UP(len))) viol("madvise on addresses that are not mapped");
	if (adv == MADV_DONTFORK && nnofork < 256) { nofork[nnofork].a = a; nofork[nnofork++].b = a + UP(len); }
	return madvise(addr, len, adv);
}
static int fds[256], nfds;
int sx_fd_live(void) { return nfds; }
void sx_fd_first(int n) { if (!n) close(0); }
int env_memfd_create(const char *name, unsigned f)
{
	if (strlen(name) > 249) { errno = EINVAL; return -1; }
	if (fault("memfd_create")) { errno = EMFILE; return -1; }
	int fd = memfd_create(name, f);
	if (fd >= 0) fds[nfds++] = fd;
	return fd;
}
int env_ftruncate(int fd, off_t n) { if (fault("ftruncate")) { errno = EINVAL; return -1; } return ftruncate(fd, n); }
int env_ftruncate64(int fd, off_t n) { return env_ftruncate(fd, n); }
#ifndef SX_NO_CLOSE
int env_close(int fd)
{
	for (int i = 0; i < nfds; i++) if (fds[i] == fd) {
		fds[i] = fds[--nfds]; close(fd);
		if (fault("close")) { errno = EIO; return -1; }
		return 0;
	}
	viol("close of a descriptor that is not open");
	return -1;
}
#endif

__attribute__((weak)) int env_numa_node_of_cpu(int c) { (void) c; return 0; }
__attribute__((weak)) long env_move_pages(int p, unsigned long n, void **a, const int *b, int *s, int f) { (void) p; (void) n; (void) a; (void) b; (void) s; (void) f; return 0; }

/* ---- process */
static void aborted(const char *why)
{
	if (in_child) _exit(134);
	if (expect_abort || ignore_aborts) out(0, "SX-END aborted");
	out(10, "SX-VIOLATION process aborted: %s", why);
}
void env_abort(void) { aborted("abort()"); __builtin_unreachable(); }
void env___assert_fail(const char *a, const char *f, unsigned l, const char *fn) { (void) f; (void) l; (void) fn; aborted(a); }
static void segv(int s) { if (in_child) _exit(139); out(10, "SX-VIOLATION invalid memory access (signal %d)", s); }
static void alrm(int s) { (void) s; out(10, "SX-VIOLATION no progress (deadlock or endless loop)"); }
int sx_fork(int (*fn)(void *), void *arg)
{
	fflush(stdout);
	pid_t p = fork();
	if (!p) { in_child = 1; expect_abort = 0; for (int i = 0; i < nnofork; i++) carve(nofork[i].a, nofork[i].b); _exit(fn(arg)); }
	int st; waitpid(p, &st, 0);
	if (WIFSIGNALED(st)) return 128 + WTERMSIG(st);
	/* inputs consumed by the child were consumed there: the harness draws none in children */
	return WEXITSTATUS(st);
}

/* ---- threads: one runs at a time, switching where the symbolic schedule did */
struct th { pthread_t t; void (*fn)(void *); void *arg; int state, id; void *want; };
enum { RUN, DONE, JOIN };
static struct th ths[16]; static int nths = 1, mt; static int token;
static pthread_mutex_t tl = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t tc = PTHREAD_COND_INITIALIZER;
static __thread int me;
static struct { void *m; int owner; } mtx[64]; static int nmtx;
static int *owner(void *m) { for (int i = 0; i < nmtx; i++) if (mtx[i].m == m) return &mtx[i].owner; mtx[nmtx].m = m; mtx[nmtx].owner = -1; return &mtx[nmtx++].owner; }
int sx_tid(void) { return me; }
static void schedule(void)	/* tl held */
{
	int en[16], n = 0;
	for (int i = 0; i < nths; i++) {
		struct th *t = &ths[i];
		if (t->state == DONE) continue;
		if (t->state == JOIN) { int all = 1; for (int j = 0; j < nths; j++) if (j != i && ths[j].state != DONE) all = 0; if (!all) continue; }
		else if (t->want && *owner(t->want) != -1) continue;
		en[n++] = i;
	}
	if (!n) {
		for (int i = 0; i < nths; i++) if (ths[i].state != DONE) viol("deadlock: every thread is blocked");
		return;
	}
	for (int i = 0; i < n; i++) if (en[i] == me) { for (int j = i; j > 0; j--) en[j] = en[j - 1]; en[0] = me; break; }
	int k = n > 1 ? (int) take("sched", "schedule") : 0;
	struct th *t = &ths[en[k]];
	if (t->want) { *owner(t->want) = t->id; t->want = NULL; }
	if (t->state == JOIN) t->state = RUN;
	token = t->id; pthread_cond_broadcast(&tc);
}
static void *tmain(void *a)
{
	struct th *t = a; me = t->id;
	if (!FREE_RUN) { pthread_mutex_lock(&tl); while (token != me) pthread_cond_wait(&tc, &tl); pthread_mutex_unlock(&tl); }
	t->fn(t->arg);
	if (!FREE_RUN) { pthread_mutex_lock(&tl); t->state = DONE; schedule(); pthread_mutex_unlock(&tl); }
	return NULL;
}
int sx_spawn(void (*fn)(void *), void *arg)
{
	struct th *t = &ths[nths]; t->fn = fn; t->arg = arg; t->id = nths; mt = 1;
	ths[0].t = pthread_self(); nths++;
	pthread_create(&t->t, NULL, tmain, t);
	return t->id;
}
void sx_join_all(void)
{
	if (!FREE_RUN) {
		pthread_mutex_lock(&tl); ths[me].state = JOIN; schedule();
		while (token != me) pthread_cond_wait(&tc, &tl);
		pthread_mutex_unlock(&tl);
	}
	for (int i = 1; i < nths; i++) pthread_join(ths[i].t, NULL);
}
#if !FREE_RUN
int env_pthread_mutex_init(pthread_mutex_t *m, const void *a) { (void) a; *owner(m) = -1; return 0; }
int env_pthread_mutex_destroy(pthread_mutex_t *m) { if (*owner(m) != -1) viol("destroying a locked mutex"); return 0; }
int env_pthread_mutex_lock(pthread_mutex_t *m)
{
	if (!mt) { if (*owner(m) != -1) viol("deadlock: mutex already held by this thread"); *owner(m) = 0; return 0; }
	pthread_mutex_lock(&tl);
	ths[me].want = m; schedule();
	while (token != me) pthread_cond_wait(&tc, &tl);
	pthread_mutex_unlock(&tl);
	return 0;
}
int env_pthread_mutex_trylock(pthread_mutex_t *m) { if (*owner(m) != -1) return EBUSY; *owner(m) = me; return 0; }
int env_pthread_mutex_unlock(pthread_mutex_t *m) { if (*owner(m) != me) viol("unlock of a mutex not held by this thread"); *owner(m) = -1; return 0; }
#endif

/* ---- restartable sequences: single-step through the code, interrupt it at the chosen steps and
 * do to it what the kernel would */
#include <ucontext.h>
static volatile long fire[8], nfire, fired, stepno, stepping; static int ev_kind[8]; static unsigned char *rarea;
void sx_rseq_area(void *a) { rarea = a; }
void sx_interrupts(int n) { (void) n; }
void sx_observers(int n) { (void) n; }
void sx_shared(void *p, size_t n) { (void) p; (void) n; }
void sx_room(void *p, size_t n) { (void) p; (void) n; }
void sx_commit(void *p) { (void) p; }
void sx_release(int on) { (void) on; }
int sx_fired(void) { return fired; }
__attribute__((weak)) void h_on_interrupt(void) { }
__attribute__((weak)) void h_on_observe(void) { }
#ifdef __x86_64__
static void trap(int s, siginfo_t *si, void *u)
{
	ucontext_t *c = u; greg_t *g = c->uc_mcontext.gregs;
	(void) s; (void) si;
	if (!stepping) { g[REG_EFL] &= ~0x100L; return; }
	stepno++;
	if (fired >= nfire || stepno != fire[fired]) return;
	if (ev_kind[fired++] == 2) { h_on_observe(); return; }
	h_on_interrupt();
	uint64_t p, d[4], ip = g[REG_RIP], z = 0; uint32_t sig;
	memcpy(&p, rarea + 8, 8);
	if (!p) return;
	memcpy(d, (void *) p, 32);
	if (d[0]) viol("kernel rejects the descriptor: version or flags");
	if (d[3] - d[1] < d[2]) viol("kernel rejects the descriptor: abort address inside the section");
	memcpy(&sig, (void *) (d[3] - 4), 4);
	if (sig != 0x53053053) viol("kernel kills the thread: no signature before the abort address");
	memcpy(rarea + 8, &z, 8);
	if (ip - d[1] < d[2]) g[REG_RIP] = d[3];
}
void sx_step(int on)
{
	if (!nfire) return;
	if (on) {
		struct sigaction sa = { .sa_sigaction = trap, .sa_flags = SA_SIGINFO | SA_ONSTACK };
		sigaction(SIGTRAP, &sa, NULL);
		stepping = 1; __builtin_ia32_writeeflags_u64(__builtin_ia32_readeflags_u64() | 0x100);
	} else {
		__builtin_ia32_writeeflags_u64(__builtin_ia32_readeflags_u64() & ~0x100UL); stepping = 0;
		if (fired < nfire) out(13, "SX-PAST %ld steps", stepno);
	}
}
#else
void sx_step(int on) { (void) on; if (nfire) out(12, "SX-UNSUPPORTED stepping"); }
#endif

/* ---- constructors moved out of .init_array by the replay build */
typedef void (*ifn)(void);
extern ifn __start_sx_init_array[] __attribute__((weak)), __stop_sx_init_array[] __attribute__((weak));
extern ifn __start_sx_fini_array[] __attribute__((weak)), __stop_sx_fini_array[] __attribute__((weak));
void sx_run_ctors(void) { for (ifn *f = __start_sx_init_array; f && f < __stop_sx_init_array; f++) (*f)(); }
void sx_run_dtors(void) { for (ifn *f = __start_sx_fini_array; f && f < __stop_sx_fini_array; f++) (*f)(); }

int main(int argc, char **argv)
{
	if (argc > 1) {
		FILE *f = fopen(argv[1], "r");
		if (!f) return 99;
		char line[512]; ins = calloc(1 << 16, sizeof *ins);
		while (fgets(line, sizeof line, f)) {
			struct in *i = &ins[nin];
			if (!strncmp(line, "param ", 6)) { if (sscanf(line, "param %63s %ld", params[nparams], &pvals[nparams]) == 2) nparams++; continue; }
			if (!strncmp(line, "tier ", 5)) { tier = atoi(line + 5); continue; }
			if (!strncmp(line, "ignore_aborts ", 14)) { ignore_aborts = atoi(line + 14); continue; }
			if (sscanf(line, "%11s %119s %llu %d", i->kind, i->name, &i->val, &i->n) == 4) nin++;
		}
		fclose(f);
	}
	for (int i = 2; i < argc && nfire < 8; i++) { ev_kind[nfire] = strchr(argv[i], 'o') ? 2 : 1; fire[nfire++] = atol(argv[i]); }
	static char alt[65536]; stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt }; sigaltstack(&ss, NULL);
	struct sigaction sa = { .sa_handler = segv, .sa_flags = SA_ONSTACK };
	sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGILL, &sa, NULL);
	sa.sa_handler = alrm; sigaction(SIGALRM, &sa, NULL); alarm(20);
	h_main();
	out(0, "SX-END");
	return 0;
}
