/* C19: which configurations creation accepts, and that an accepted pool is what was asked for */
#include "mp.h"
static struct rseq_mempool *pool;

void h_main(void)
{
	int mode = sx_param("mode");
	size_t item_len = sx_u64("item_len"), stride = sx_u64("stride");
	int cpus = (int) sx_u32("cpus"), robust = sx_choice(2, "robust"), global = 0;
	uint32_t policy = sx_choice(2, "policy") ? INIT : ZERO;
	struct rseq_mempool_attr *a = rseq_mempool_attr_create();
	sx_assert(a != NULL, "attribute creation succeeds");
	if (mode == 0) {
		/* invalid arguments of every kind */
		policy = sx_u32("policy_value");
		global = sx_choice(2, "global");
		int bad_len = item_len > stride && stride != 0, bad_stride = stride != 0 && (stride < 4096 || (stride & (stride - 1)));
		int bad_cpus = !global && cpus < 0, bad_policy = policy != INIT && policy != ZERO;
		int bad = (int) (bad_len | bad_stride | bad_cpus | bad_policy);
		sx_assume(bad);
		if (global) rseq_mempool_attr_set_global(a, stride); else rseq_mempool_attr_set_percpu(a, stride, cpus);
		rseq_mempool_attr_set_populate_policy(a, policy);
		if (robust) rseq_mempool_attr_set_robust(a);
		sx_assume(global || cpus != 0);
		errno = 0;
		int h = sx_heap_live();
		pool = rseq_mempool_create("p", item_len, a);
		sx_assert(pool == NULL, "an invalid configuration is rejected");
		sx_assert(errno == EINVAL, "with EINVAL");
		sx_assert(sx_heap_live() == h && sx_map_live() == 0 && sx_fd_live() == 0, "and nothing is left behind");
		sx_cover("rejected");
		return;
	}
	/* valid configurations, up to the largest numbers */
	sx_assume(cpus > 0 && item_len <= stride && stride >= 4096 && (stride & (stride - 1)) == 0);
	stride = sx_concrete(stride);
	if (policy == INIT) { sx_assume(cpus <= 3 || stride >= (1UL << 46)); if (cpus <= 3) cpus = sx_concrete(cpus); }
	sx_assume(cpus <= 0x7fffffff);
	rseq_mempool_attr_set_percpu(a, stride, cpus);
	rseq_mempool_attr_set_populate_policy(a, policy);
	if (robust) { rseq_mempool_attr_set_robust(a); sx_assume(item_len >= stride >> 12); }
	pool = rseq_mempool_create("p", item_len, a);
	if (!pool) {
		sx_assert(errno == ENOMEM, "a valid configuration fails only for lack of memory");
		/* the model has 2^47 bytes of address space */
		uint64_t over = stride >> 40;
		sx_assert(over || (uint64_t) cpus >= ((1UL << 46) / stride), "a pool that fits is created");
		sx_cover("enomem");
		return;
	}
	char *p = rseq_mempool_percpu_malloc(pool);
	if (!p) sx_fail("a new pool has room for an item");
	size_t len = item_len < 8 ? 8 : item_len;
	uint32_t cpu = sx_u32("cpu"); sx_assume(cpu < (uint32_t) cpus);
	sx_assert(sx_mapped((uint64_t) p + (uint64_t) cpu * stride, len), "the item has the requested length on every requested CPU");
	sx_assert(((uintptr_t) p & (stride - 1)) + len <= stride, "inside its stride");
	if (cpus <= 2) {
		char *q = rseq_mempool_percpu_malloc(pool);
		if (!q) { sx_assert(errno == ENOMEM, "errno"); return; }
		if (((uintptr_t) p & ~(stride - 1)) == ((uintptr_t) q & ~(stride - 1)))
			sx_assert((size_t) (q > p ? q - p : p - q) >= len, "two items of the requested length do not overlap");
		sx_cover("two items");
	}
	sx_cover("created");
}
