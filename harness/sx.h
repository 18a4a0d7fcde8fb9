/* Harness interface: symbolic inputs, assertions and environment control.
 * The same harness source is executed symbolically (symx) and, for the replay
 * of a counterexample, compiled natively against the real library. A function
 * env_X defined by a harness replaces the external function X of the library. */
#ifndef SX_H
#define SX_H
#include <stdint.h>
#include <stddef.h>
uint64_t sx_u64(const char *name);	/* arbitrary 64-bit value */
uint32_t sx_u32(const char *name);
uint8_t sx_u8(const char *name);
void sx_bytes(void *p, size_t n, const char *name);	/* arbitrary bytes */
int sx_choice(int n, const char *name);	/* any of 0..n-1 */
void sx_assume(int cond);
void sx_assert(int cond, const char *msg);
void sx_fail(const char *msg) __attribute__((noreturn));
void sx_cover(const char *name);	/* must be reached by some path */
void sx_end(void) __attribute__((noreturn));
void sx_expect_abort(int on);		/* a process abort now ends the path successfully */
uint64_t sx_concrete(uint64_t v);	/* enumerate all values of v */
void sx_faults(int budget);		/* up to budget resource calls (not munmap) may fail from now on */
void sx_munmap_faults(int budget);
int sx_fault_fired(void);
int sx_heap_live(void);			/* live heap blocks */
uint64_t sx_map_live(void);		/* mapped bytes */
int sx_fd_live(void);			/* open descriptors */
void sx_mmap_any(uint64_t span);	/* mmap may return any page address residue modulo span */
int sx_mapped(uint64_t addr, uint64_t len);	/* range is completely mapped */
int sx_private(void *p);		/* page of p was made private by a write */
void *sx_init_ptr(void *p);		/* where the shared page that backs p is mapped (initial values), or NULL */
void sx_cow_race(void *p, int on);	/* page of p may become private at any time */
int sx_fork(int (*fn)(void *), void *arg);	/* run fn in a child process: its status, 134 = abort, 139 = crash */
int sx_spawn(void (*fn)(void *), void *arg);
void sx_join_all(void);
void sx_preempt_bound(int n);
void sx_fd_first(int n);	/* 0: the next descriptor opened is 0 (standard input is closed) */
void sx_races(int on);
void sx_run_ctors(void);		/* the library's constructors / destructors */
void sx_run_dtors(void);
int sx_native(void);
int sx_tier(void);			/* 0 quick, 1 thorough */
int sx_param(const char *name);
void *sx_thread_pointer(void);
int sx_tid(void);
/* restartable sequences: asm blocks are executed instruction by instruction */
void sx_rseq_area(void *area);		/* the thread's rseq area, as registered with the kernel */
void sx_interrupts(int budget);		/* the thread may be interrupted before any instruction (h_on_interrupt runs meanwhile) */
void sx_observers(int budget);		/* another CPU may look between any two instructions (h_on_observe) */
void sx_shared(void *p, size_t n);	/* memory shared with other threads */
void sx_room(void *p, size_t n);	/* n bytes belong to the object p points to */
void sx_commit(void *p);		/* the word the final store is to */
void sx_release(int on);		/* the final store must be a release store */
int sx_fired(void);			/* interruptions and observations so far */
void sx_step(int on);			/* around the code that may be interrupted */
/* ordering: accesses of the current thread number (1, 2) to these words are recorded; the loads return any value */
void sx_order_word(void *p, size_t n);
void sx_order_thread(int k);
void sx_order_solve(void);		/* from here on, only values that an execution allowed by compiler and processor gives */
void h_on_interrupt(void);
void h_on_observe(void);
#define SX_CHECK(c) sx_assert(!!(c), #c)
void h_main(void);
#endif
