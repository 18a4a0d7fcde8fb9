/* C23: adding a second pool of a size class; destroying the set destroys its pools */
#include "mp.h"
static struct cfg c, d;
void h_main(void)
{
	struct rseq_mempool_set *s = rseq_mempool_set_create();
	any_cfg(&c, 1); d = c;
	c.item_len = sx_u64("len1"); d.item_len = sx_u64("len2");
	sx_assume(c.item_len <= 4096 && d.item_len <= 4096);
	struct rseq_mempool *p = mk_pool(&c), *q = mk_pool(&d);
	sx_assert(!rseq_mempool_set_add_pool(s, p), "adding the first pool succeeds");
	errno = 0;
	int r = rseq_mempool_set_add_pool(s, q);
	if (c.len == d.len) {
		sx_assert(r == -1 && errno == EBUSY, "a second pool of the same size class is refused with EBUSY");
		/* the caller still owns it */
		char *x = rseq_mempool_percpu_zmalloc(q); sx_assert(x != NULL, "the refused pool is usable");
		free_item(&d, x);
		sx_assert(!rseq_mempool_destroy(q), "and destroyed by its owner");
		x = rseq_mempool_set_percpu_malloc(s, c.len); sx_assert(x != NULL, "the set still uses the first pool");
		free_item(&c, x);
		sx_cover("busy");
	} else { sx_assert(r == 0, "pools of different size classes can be added"); sx_cover("added"); }
	errno = 0;
	sx_assert(!rseq_mempool_set_destroy(s), "set destroy succeeds");
	sx_assert(sx_heap_live() == 0 && sx_map_live() == 0 && sx_fd_live() == 0, "destroying the set destroys its pools");
}
