/* C28: the NUMA helper */
#include "mp.h"
static uint64_t next_page, end_page; static char *base; static int flags, node, calls, fail_call, rc_call; static long rc_val; static int cpu_arg;
static int node_of, node_errno;
int env_numa_node_of_cpu(int cpu) { sx_assert(cpu == cpu_arg, "the node of the given CPU is used"); if (node_of < 0) errno = node_errno; return node_of; }
long env_move_pages(int pid, unsigned long n, void **pages, const int *nodes, int *status, int f)
{
	sx_assert(pid == 0, "own process"); sx_assert(f == flags, "the given flags are passed");
	sx_assert(n > 0 && n <= end_page - next_page, "no page beyond the range");
	for (unsigned long i = 0; i < n; i++) {
		sx_assert(pages[i] == base + 4096 * (next_page + i), "each whole page exactly once, in order");
		sx_assert(nodes[i] == node_of, "to the node of the given CPU");
		status[i] = -1;
	}
	next_page += n;
	int k = calls++;
	if (k == fail_call) { errno = 1; return -1; }
	if (k == rc_call) return rc_val;
	return 0;
}
void h_main(void)
{
	static const uint64_t nrs[] = { 0, 1, 2, 3, 4095, 4096, 4097, 8191, 8192, 8193 };
	base = (char *) 0x200000000000UL;
	flags = (int) sx_u32("flags"); cpu_arg = (int) sx_u32("cpu");
	node_of = (int) sx_u32("node"); node_errno = 2;
	int k = sx_choice(sx_tier() ? 10 : 7, "pages");
	uint64_t sub = sx_u64("sub"); sx_assume(sub < 4096);
	size_t len = nrs[k] * 4096 + sub;
	end_page = nrs[k]; fail_call = sx_choice(4, "fail_call") - 1; rc_call = sx_choice(4, "rc_call") - 1; rc_val = 5;
	errno = 0;
	if (sx_param("nonuma")) { sx_assert(rseq_mempool_range_init_numa(base, len, cpu_arg, flags) == -1 && errno == ENOSYS && !calls, "without NUMA support the helper fails with ENOSYS"); sx_cover("?nonuma:no support"); return; }
	int r = rseq_mempool_range_init_numa(base, len, cpu_arg, flags);
	if (flags == 0) { sx_assert(r == -1 && errno == EINVAL && calls == 0, "zero flags fail with EINVAL"); sx_cover("noflags"); return; }
	if (node_of < 0) { sx_assert(r == -1 && errno == 2 && calls == 0, "the error of the node lookup is returned"); sx_cover("nonode"); return; }
	if (fail_call >= 0 && calls > fail_call) { sx_assert(r == -1 && errno == 1 && calls == fail_call + 1, "the error of move_pages is returned"); sx_cover("fail"); return; }
	sx_assert(next_page == end_page, "every whole page of the range is passed");
	sx_assert(r == 0, "returns 0, also when pages could not be moved");
	sx_cover("ok");
}
