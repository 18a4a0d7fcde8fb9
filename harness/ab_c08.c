/* C08: accessors of the rseq area */
#include "ab.h"
static struct rseq_abi area __attribute__((aligned(32)));
void h_main(void)
{
	uint32_t start = sx_u32("cpu_id_start"), id = sx_u32("cpu_id"), fl = sx_u32("flags"), node = sx_u32("node_id"), cid = sx_u32("mm_cid"); uint64_t cs = sx_u64("rseq_cs");
	rseq_offset = (uintptr_t) &area - (uintptr_t) sx_thread_pointer();
	rseq_size = sx_u32("rseq_size");
	area.cpu_id_start = start; area.cpu_id = id; area.flags = fl; area.node_id = node; area.mm_cid = cid; area.rseq_cs.ptr64 = cs;
	k_cpu = sx_u32("kcpu"); sx_assume((int32_t) k_cpu >= 0); k_node = sx_u32("knode");
	k_getcpu_fail = sx_choice(2, "getcpu fails") ? EFAULT : 0;
	sx_assert(rseq_get_abi() == &area, "the area is at the published offset from the thread pointer");
	sx_assert(rseq_current_cpu_raw() == (int32_t) id, "raw cpu");
	sx_assert(rseq_cpu_start() == start, "cpu start");
	sx_assert(rseq_current_mm_cid() == cid, "mm_cid");
	int32_t act = (int32_t) rseq_size;
	sx_assert(rseq_node_id_available() == (act >= 24), "node id available exactly when it lies in the active feature set");
	sx_assert(rseq_mm_cid_available() == (act >= 28), "mm_cid available exactly when it lies in the active feature set");
	if (act >= 24) { sx_assert(rseq_current_node_id() == node, "node id"); sx_cover("node id"); }
	else sx_cover("no node id");
	int32_t n = rseq_fallback_current_node();
	if (k_getcpu_fail) { sx_assert(n < 0, "failure of the fallback is negative"); sx_cover("fallback fails"); }
	else sx_assert(n == (int32_t) k_node, "fallback node");
	int what = sx_choice(3, "what");
	if (what == 0) {
		if ((int32_t) id < 0 && k_getcpu_fail) { sx_expect_abort(1); sx_cover("abort"); }
		uint32_t c = rseq_current_cpu(); sx_expect_abort(0);
		sx_assert(c == ((int32_t) id >= 0 ? id : k_cpu), "current cpu, or the kernel's answer when the thread is not registered");
		if ((int32_t) id < 0) sx_cover("fallback cpu");
	} else {
		if (what == 1) rseq_prepare_unload(); else rseq_clear_rseq_cs();
		sx_assert(area.rseq_cs.ptr64 == 0, "the critical section is cleared");
		sx_cover("unload"); cs = 0;
	}
	sx_assert(area.cpu_id_start == start && area.cpu_id == id && area.flags == fl && area.node_id == node && area.mm_cid == cid && area.rseq_cs.ptr64 == cs, "nothing else changes");
}
