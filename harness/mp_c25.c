/* C25: exact range mapping wherever the kernel places it */
#include "mp.h"
static struct cfg c;
static uint64_t check(char *p)
{
	uint64_t base = (uint64_t) p & ~(c.stride - 1), len = c.stride * c.cpus;
	sx_assert(sx_mapped(base, len), "the memory of every CPU is mapped at a stride-aligned address");
	sx_assert(sx_mapped(base - 4096, 4096), "its header lies just below");
	return base;
}
void h_main(void)
{
	any_cfg(&c, 1); c.cpus = 1 + sx_choice(2, "cpus2") * 2;
	c.stride = sx_param("order") ? 1UL << sx_param("order") : (uint64_t) sx_param("stride"); c.item_len = c.stride;
	if (c.stride > 1 << 20) c.robust = 0;	/* nothing that touches every byte */
	if (sx_param("any")) sx_mmap_any(c.stride * 2);
	struct rseq_mempool *p = mk_pool(&c);
	uint64_t m0 = sx_map_live();
	char *x = rseq_mempool_percpu_malloc(p);
	sx_assert(x != NULL, "allocation succeeds");
	uint64_t b0 = check(x);
	/* contiguous and nothing more: header (a few pages), CPUs, initial values, free list */
	uint64_t body = c.stride * (c.cpus + (c.policy == INIT) + c.robust);
	sx_assert(m0 >= body + 4096 && m0 <= body + 4 * 4096, "exactly the surplus of the kernel's mapping is unmapped");
	sx_assert(sx_mapped(b0 - (m0 - body), m0), "the remaining mapping is contiguous");
	for (int i = 0; i < c.cpus; i++) { at(&c, x, i)[0] = 1; at(&c, x, i)[c.stride - 1] = 2; }
	char *y = rseq_mempool_percpu_malloc(p);
	sx_assert(y != NULL, "the pool grows");
	check(y);
	sx_assert(sx_map_live() == 2 * m0, "exactly the surplus of the kernel's mapping is unmapped");
	for (int i = 0; i < c.cpus; i++) { at(&c, y, i)[0] = 3; at(&c, y, i)[c.stride - 1] = 4; }
	for (int i = 0; i < c.cpus; i++) sx_assert(at(&c, x, i)[0] == 1 && at(&c, x, i)[c.stride - 1] == 2, "ranges are separate");
	free_item(&c, x); free_item(&c, y);
	sx_assert(!rseq_mempool_destroy(p), "destroy succeeds");
	sx_assert(sx_map_live() == 0, "and unmaps exactly what is left");
	sx_cover("end");
}
