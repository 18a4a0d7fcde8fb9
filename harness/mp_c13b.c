/* C13: many small items: all items of a range (several bitmap words), then reuse in any order */
#include "mp.h"
static struct cfg c;
void h_main(void)
{
	any_cfg(&c, 1);
	c.cpus = 2; c.item_len = 64 >> sx_choice(2, "half"); 
	struct rseq_mempool *pool = mk_pool(&c);
	static char *p[260];
	int n = c.stride / c.len + 3;
	uintptr_t base = 0;
	for (int i = 0; i < n; i++) {
		p[i] = rseq_mempool_percpu_malloc(pool);
		sx_assert(p[i] != NULL, "allocation succeeds");
		uintptr_t a = (uintptr_t) p[i];
		sx_assert(!(a & (c.len - 1)) && (a & (c.stride - 1)) + c.len <= c.stride, "aligned and inside its range");
		for (int k = 0; k < i; k++) sx_assert(p[k] != p[i], "live items are distinct");
		memset(at(&c, p[i], 0), 0xee, c.len); memset(at(&c, p[i], 1), 0xee, c.len);
	}
	(void) base;
	/* free a few chosen items and allocate them again */
	int x = sx_choice(4, "x"), y = sx_choice(4, "y");
	int ix[] = { 0, 63, 64, n - 1 };
	rseq_mempool_percpu_free(p[ix[x]], c.stride);
	if (y != x) rseq_mempool_percpu_free(p[ix[y]], c.stride);
	char *q = rseq_mempool_percpu_malloc(pool), *r = rseq_mempool_percpu_malloc(pool);
	sx_assert(q && r && q != r, "reallocation succeeds");
	for (int i = 0; i < n; i++)
		if (i != ix[x] && i != ix[y]) sx_assert(p[i] != q && p[i] != r, "reused item is not a live one");
	sx_cover("end");
}
