/* C18: exact capacity, growth to the limit, reuse of freed items */
#include "mp.h"
static struct cfg c;
static char *p[80];
void h_main(void)
{
	static const size_t sizes[] = { 256, 1000, 2048, 4096 };
	any_cfg(&c, 2);
	c.item_len = sizes[sx_choice(4, "size")];
	c.poison_set = sx_choice(2, "poison_set"); c.poison = 0x77;
	c.ranges = sx_choice(4, "ranges");
	struct rseq_mempool *pool = mk_pool(&c);
	unsigned per = c.stride / c.len, cap = (c.ranges ? c.ranges : 3) * per, n;
	int failing = sx_choice(2, "failing growth");
	for (n = 0; n < cap; n++) {
		if (failing && n == per) {
			/* growth fails for lack of memory (or, with no failure, succeeds) */
			sx_faults(1); errno = 0; p[n] = rseq_mempool_percpu_malloc(pool); sx_faults(0);
			if (p[n]) continue;
			sx_assert(sx_fault_fired() && errno != 0, "allocation within the capacity fails only for lack of memory"); sx_cover("failed growth");
		}
		p[n] = n & 1 ? rseq_mempool_percpu_malloc(pool) : rseq_mempool_percpu_zmalloc(pool);
		sx_assert(p[n] != NULL, "allocation within the capacity succeeds");
	}
	uint64_t ml = sx_map_live();
	if (c.ranges) {
		for (int k = 0; k < 2; k++) {
			errno = 0;
			sx_assert(rseq_mempool_percpu_malloc(pool) == NULL, "allocation beyond the limit fails");
			sx_assert(errno == ENOMEM, "with ENOMEM");
		}
		sx_cover("full");
	}
	/* free one or two items anywhere and get exactly that many again, without new memory */
	int x = sx_choice(4, "x"), y = sx_choice(3, "y");
	unsigned ix[] = { 0, per - 1, cap - 1, cap / 2 }, a = ix[x], b = ix[y];
	free_item(&c, p[a]); p[a] = 0;
	if (b != a) { free_item(&c, p[b]); p[b] = 0; }
	for (int k = 0; k < (a != b ? 2 : 1); k++) {
		char *q = k ? rseq_mempool_percpu_zmalloc(pool) : rseq_mempool_percpu_malloc(pool);
		sx_assert(q != NULL, "freed items can be allocated again");
		for (n = 0; n < cap; n++) sx_assert(p[n] != q, "not an item that is still live");
		if (!p[a]) p[a] = q; else p[b] = q;
	}
	sx_assert(sx_map_live() == ml, "reuse takes no new memory");
	errno = 0;
	char *q = rseq_mempool_percpu_malloc(pool);
	if (c.ranges) sx_assert(q == NULL && errno == ENOMEM, "capacity is unchanged by reuse");
	else sx_assert(q != NULL, "an unlimited pool grows");
	if (q) free_item(&c, q);
	for (n = 0; n < cap; n++) free_item(&c, p[n]);
	sx_assert(!rseq_mempool_destroy(pool), "destroy succeeds");
	sx_cover("end");
}
