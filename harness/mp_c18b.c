/* C18: a pool grows to its limit whatever its name is */
#include "mp.h"
static char name[401]; static char *p[6];
void h_main(void)
{
	static const short lens[] = { 0, 1, 200, 230, 233, 234, 235, 236, 248, 249, 250, 255, 400 };
	struct cfg c; any_cfg(&c, 2); c.item_len = 4096; c.ranges = 3;
	int k = sx_choice(14, "name"), n, i;
	if (k < 13) for (i = 0; i < lens[k]; i++) name[i] = "%s/a\n"[i % 5];
	struct rseq_mempool_attr *a = mk_attr(&c);
	struct rseq_mempool *pool = rseq_mempool_create(k < 13 ? name : NULL, 4096, a);
	sx_assert(pool != NULL, "creation succeeds whatever the name is");
	rseq_mempool_attr_destroy(a);
	if (k < 13) for (i = 0; i < lens[k]; i++) name[i] = 0;	/* the caller's string is not used afterwards */
	for (n = 0; n < 3; n++) { p[n] = rseq_mempool_percpu_zmalloc(pool); sx_assert(p[n] != NULL, "allocation within the capacity succeeds whatever the name of the pool is"); }
	sx_assert(!rseq_mempool_percpu_malloc(pool), "allocation beyond the limit fails");
	for (n = 0; n < 3; n++) librseq_mempool_percpu_free(p[n], c.stride);
	sx_assert(!rseq_mempool_destroy(pool), "destroy succeeds");
	if (k == 12) sx_cover("long name"); if (k == 13) sx_cover("no name");
}
