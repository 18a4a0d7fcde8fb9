/* C09: feature size and owner after initialisation, for every C library and kernel */
#include "ab.h"
void h_main(void)
{
	int i, n, reinit = sx_choice(2, "again");
	any_libc(); any_kernel();
	k_nosys = sx_choice(2, "enosys"); if (!k_nosys && sx_choice(2, "fail")) k_fail = EPERM;
	sx_run_ctors();
	if (reinit) { c_size ^= 64; sx_run_ctors(); c_size ^= 64; }
	if (libc_owns()) {
		unsigned want = c_size == 20 || c_size == 32 ? (kfeat() < 32 ? kfeat() : 32) : c_size;
		for (i = 0; i < 2; i++) {
			sx_assert(rseq_offset == c_off && rseq_flags == c_flags, "offset and flags are the C library's");
			sx_assert(rseq_size == want, "feature size derived from the C library's and the kernel's");
			sx_assert(rseq_available(RSEQ_AVAILABLE_QUERY_LIBC), "libc owns the registration");
			if (!i) { sx_assert(!rseq_register_current_thread(), "registration is the C library's"); sx_assert(!rseq_unregister_current_thread(), "so is unregistration"); }
		}
		sx_assert(k_calls == 0, "no system call");
		if (c_size == 20 || c_size == 32) sx_cover("special size"); else sx_cover("libc size");
		if (sx_choice(2, "exit")) { sx_run_dtors(); sx_assert(rseq_offset == c_off && rseq_size == want, "exit keeps the C library's values"); }
		return;
	}
	sx_assert(!rseq_available(RSEQ_AVAILABLE_QUERY_LIBC), "librseq owns the registration");
	sx_assert(rseq_size == 0 && rseq_flags == 0, "no features before the first registration");
	ptrdiff_t off = rseq_offset;
	sx_assert(rseq_current_cpu_raw() == -1, "an unregistered thread reads as uninitialized");
	n = rseq_register_current_thread();
	sx_assert(!rseq_available(RSEQ_AVAILABLE_QUERY_LIBC), "librseq still owns the registration");
	sx_assert(rseq_offset == off && rseq_flags == 0, "offset and flags stay");
	sx_assert((uintptr_t) last_area == (uintptr_t) sx_thread_pointer() + rseq_offset, "the offset addresses the registered area");
	if (k_nosys || k_fail) {
		sx_assert(n == -1, "failure is reported"); sx_assert(rseq_size == 0, "and leaves no features"); sx_cover("failed");
	} else {
		sx_assert(n == 0, "success"); sx_assert(rseq_size == kfeat(), "the kernel's feature size"); sx_cover("owner");
		sx_assert(rseq_current_cpu_raw() == (int32_t) k_cpu, "the area is live");
		if (feat == 0) sx_cover("original kernel");
		if (feat > 32) sx_cover("extended kernel");
	}
}
