/* C14: init_len above the item length fails with EINVAL and allocates nothing */
#include "mp.h"
static struct cfg c;
static char buf[64];
void h_main(void)
{
	any_cfg(&c, 2); c.item_len = 2048; c.ranges = 1;
	struct rseq_mempool *pool = mk_pool(&c);
	size_t il = sx_u64("init_len"); sx_assume(il > c.len);
	errno = 0;
	sx_assert(rseq_mempool_percpu_malloc_init(pool, buf, il) == NULL, "init_len above the item length fails");
	sx_assert(errno == EINVAL, "with EINVAL");
	sx_assert(rseq_mempool_percpu_malloc(pool) && rseq_mempool_percpu_malloc(pool), "nothing was allocated by the failing call");
	sx_assert(!rseq_mempool_percpu_malloc(pool), "the pool is full");
	sx_cover("end");
}
