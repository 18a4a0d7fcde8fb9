/* C34: the thread's area, as the kernel lays it out, in each architecture's byte order and word size.
 * The kernel's view is written here as bytes at fixed offsets, without the library's structures. */
#include <rseq/rseq.h>
#include "sx.h"
ptrdiff_t rseq_offset; unsigned int rseq_size, rseq_flags;
static uint64_t mem[16] __attribute__((aligned(32)));
static int big(void) { union { uint32_t u; unsigned char c[4]; } x = { .u = 1 }; return x.c[3]; }
static void put32(int off, uint32_t v)
{
	unsigned char *p = (unsigned char *) mem + off;
	for (int i = 0; i < 4; i++) p[i] = v >> 8 * (big() ? 3 - i : i);
}
static uint32_t get32(int off)
{
	unsigned char *p = (unsigned char *) mem + off; uint32_t v = 0;
	for (int i = 0; i < 4; i++) v |= (uint32_t) p[i] << 8 * (big() ? 3 - i : i);
	return v;
}
static int fb; int32_t rseq_fallback_current_cpu(void) { fb++; return 77; }
void h_main(void)
{
	uint32_t w[8]; int i;
	for (i = 0; i < 8; i++) { w[i] = sx_u32("word"); put32(4 * i, w[i]); }
	rseq_size = sx_u32("size");
	/* pointers on the stack and in statics are further apart than half the address space nowhere */
	rseq_offset = (ptrdiff_t) ((uintptr_t) mem - (uintptr_t) sx_thread_pointer());
	sx_assert(rseq_thread_pointer() == sx_thread_pointer(), "the thread pointer");
	sx_assert((void *) rseq_get_abi() == (void *) mem, "the area is at the published offset from the thread pointer");
	sx_assert(rseq_cpu_start() == w[0], "CPU to start with, at 0");
	sx_assert(rseq_current_cpu_raw() == (int32_t) w[1], "CPU, at 4");
	sx_assert(rseq_current_cpu() == ((int32_t) w[1] >= 0 ? w[1] : 77) && fb == ((int32_t) w[1] < 0), "CPU, at 4, or the fallback when it is negative");
	sx_assert(rseq_current_mm_cid() == w[6], "concurrency id, at 24");
	sx_assert(!!rseq_node_id_available() == ((int32_t) rseq_size >= 24), "the node id ends at 24");
	sx_assert(!!rseq_mm_cid_available() == ((int32_t) rseq_size >= 28), "the concurrency id ends at 28");
	if ((int32_t) rseq_size >= 24) { sx_assert(rseq_current_node_id() == w[5], "node id, at 20"); sx_cover("node id"); }
	/* the pointer to the critical section is 64 bits wide at 8; a 32-bit thread uses its low half, the other is zero */
	int lo = big() ? 12 : 8, hi = big() ? 8 : 12;
	if (sizeof(void *) == 4) sx_assume(w[hi / 4] == 0);
	if (sx_choice(2, "how")) rseq_clear_rseq_cs(); else rseq_prepare_unload();
	sx_assert(get32(lo) == 0 && get32(hi) == 0, "no critical section is active any more");
	for (i = 0; i < 8; i++)
		if (4 * i != lo && 4 * i != hi) sx_assert(get32(4 * i) == w[i], "nothing else changes");
	/* constants of the interface */
	sx_assert(RSEQ_ABI_FLAG_UNREGISTER == 1 && RSEQ_ABI_CPU_ID_UNINITIALIZED == -1 && RSEQ_ABI_CPU_ID_REGISTRATION_FAILED == -2, "constants of the kernel");
	sx_assert(__alignof__(struct rseq_abi) == 32 && __alignof__(struct rseq_abi_cs) == 32 && sizeof(struct rseq_abi) >= 32 && sizeof(struct rseq_abi_cs) == 32, "the areas are 32 bytes, aligned to 32");
	struct rseq_abi_cs cs = { .version = 1, .flags = 2, .start_ip = 3, .post_commit_offset = 4, .abort_ip = 5 };
	uint32_t *c = (uint32_t *) &cs; int l = big();
	sx_assert(c[0] == 1 && c[1] == 2 && c[2 + l] == 3 && c[4 + l] == 4 && c[6 + l] == 5 && !c[3 - l] && !c[5 - l] && !c[7 - l], "critical section descriptor");
	sx_cover("end");
}
