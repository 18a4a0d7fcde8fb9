/* C10: registration protocol with several threads */
#include "ab.h"
static uint32_t len0; static struct rseq_abi *ar[MAXT]; static int doc_unreg;
static void check_reg(int t)
{
	sx_assert(last_flags == 0, "registration flags are 0");
	sx_assert(last_sig == RSEQ_SIG, "the documented signature");
	sx_assert(last_area == rseq_get_abi(), "the thread's own area");
	sx_assert(last_len >= 32 && last_len >= kfeat() && last_len <= 1024, "length covers the features and at least 32 bytes, inside the reserved area");
	sx_assert((uintptr_t) last_area % (falign ? falign : 32) == 0, "aligned as the kernel asks");
	if (len0) sx_assert(last_len == len0, "every registration has the same length"); else len0 = last_len;
	ar[t] = last_area;
}
static void thread(void *x)
{
	int t = sx_tid(), i, again = *(int *) x;
	for (i = 0; i <= again; i++) {
		sx_assert(rseq_register_current_thread() == 0, "registration succeeds");
		check_reg(t);
		sx_assert(reg[t].p == last_area, "registered with the kernel");
		sx_assert(rseq_size == kfeat(), "feature size");
		sx_assert(rseq_current_cpu_raw() == (int32_t) k_cpu, "registered");
		if (doc_unreg || i < again) {
			sx_assert(rseq_unregister_current_thread() == 0, "unregistration succeeds");
			sx_assert(reg[t].p == NULL && last_flags == 1 && last_len == len0 && last_sig == RSEQ_SIG && last_area == ar[t], "with the arguments of the registration");
			sx_assert(rseq_current_cpu_raw() == -1, "an unregistered thread reads as uninitialized");
			sx_assert(rseq_size == kfeat() && rseq_flags == 0 && rseq_get_abi() == ar[t], "the published values stay when a thread unregisters");
		}
	}
}
void h_main(void)
{
	static int again[3];
	int i;
	any_kernel();
	doc_unreg = sx_choice(2, "unregister");
	if (sx_choice(2, "C library")) { any_libc(); if (!libc_owns()) sx_end(); }
	sx_run_ctors();
	if (libc_owns()) {
		for (i = 0; i < 2; i++) {
			sx_assert(rseq_register_current_thread() == 0, "the C library's registration counts as success");
			if (sx_choice(2, "twice")) continue;
			sx_assert(rseq_unregister_current_thread() == 0, "so does unregistration");
		}
		sx_assert(k_calls == 0, "no system call when the C library owns the registration"); sx_cover("libc");
		return;
	}
	if (sx_choice(2, "fails first")) {
		k_nosys = sx_choice(2, "enosys"); if (!k_nosys) k_fail = EPERM;
		sx_assert(rseq_register_current_thread() == -1, "failure is reported"); check_reg(0);
		sx_assert(rseq_size == 0, "and leaves no features");
		sx_assert(rseq_unregister_current_thread() == -1, "nothing to unregister");
		sx_assert(rseq_size == 0, "no features"); sx_cover("failed first");
		k_nosys = k_fail = 0;
	}
	for (i = 0; i < 3; i++) again[i] = i == 1 ? sx_choice(2, "again") : 0;
	thread(&again[0]);
	sx_assert(rseq_unregister_current_thread() == (doc_unreg ? -1 : 0), "an unregistered thread cannot unregister, a registered one can");
	for (i = 1; i < 3; i++) { sx_spawn(thread, &again[i]); sx_join_all(); reg[i].p = NULL; /* the thread is gone */ }
	sx_assert(ar[0] != ar[1] && ar[0] != ar[2], "every thread has its own area");
	sx_cover("threads");
	if (last_len > 32) sx_cover("long area");
}
