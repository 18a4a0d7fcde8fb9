/* C11: initialisation happens once under every interleaving; availability queries */
#include "ab.h"
static int rc[3]; static ptrdiff_t off[3]; static unsigned size[3], flags[3];
static void thread(void *x)
{
	int i = *(int *) x;
	rc[i] = rseq_register_current_thread();
	off[i] = rseq_offset; size[i] = RSEQ_READ_ONCE(rseq_size); flags[i] = rseq_flags;
}
void h_main(void)
{
	static int id[3] = { 0, 1, 2 };
	int i, n = sx_param("threads");
	if (!n) {
		/* queries */
		any_libc(); any_kernel();
		k_errno_probe = sx_choice(2, "supported") ? EINVAL : ENOSYS;
		sx_run_ctors();
		if (sx_choice(2, "registered")) { k_nosys = sx_choice(2, "nosys"); rseq_register_current_thread(); if (sx_choice(2, "and unregistered")) rseq_unregister_current_thread(); }
		unsigned q = sx_u32("query"); int c0 = k_calls;
		bool a = rseq_available(q);
		if (q == RSEQ_AVAILABLE_QUERY_KERNEL) { sx_assert(a == (k_errno_probe == EINVAL), "the kernel supports rseq"); sx_cover("?query:kernel"); }
		else if (q == RSEQ_AVAILABLE_QUERY_LIBC) { sx_assert(a == libc_owns(), "the C library owns the registration"); sx_cover("?query:libc"); }
		else { sx_assert(!a, "unknown queries are false"); sx_cover("?query:unknown"); }
		sx_assert(k_calls == c0, "a query registers nothing");
		return;
	}
	has_off = has_size = has_flags = 1; c_off = -4096; c_flags = 7; c_size = sx_choice(2, "libc") ? 64 : 0;
	feat = 28; falign = 32; k_cpu = 3;
	if (sx_param("preempt")) sx_preempt_bound(sx_param("preempt"));
	for (i = 0; i < n; i++) sx_spawn(thread, &id[i]);
	sx_join_all();
	sx_races(0);
	for (i = 0; i < 3; i++) sx_assert(ndl[i] == 1, "each symbol is looked up once");
	for (i = 0; i < n; i++) {
		sx_assert(rc[i] == 0, "every thread is registered");
		sx_assert(off[i] == rseq_offset && flags[i] == rseq_flags && size[i] == (c_size ? 64 : 28), "every thread sees the completed initialisation");
	}
	if (c_size) { sx_assert(k_calls == 0 && rseq_offset == -4096 && rseq_flags == 7, "the C library's registration is used"); sx_cover("?threads:libc owns"); }
	else { sx_assert(k_calls == n && rseq_flags == 0, "every thread registers with the kernel"); sx_cover("?threads:librseq owns"); }
}
