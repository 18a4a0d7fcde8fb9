/* C17: many items per range: use, free and reuse items of every bitmap word, in and against order */
#include "mp.h"
static struct cfg c;
static char *p[1100];
void h_main(void)
{
	any_cfg(&c, 1); c.robust = 1; c.cpus = 1; c.item_len = sx_param("len");
	c.poison_set = sx_choice(2, "poison_set");
	if (c.poison_set) c.poison = sx_u64("poison");
	struct rseq_mempool *pool = mk_pool(&c);
	int per = c.stride / c.len, n = per + 1;
	for (int i = 0; i < n; i++) { p[i] = rseq_mempool_percpu_malloc(pool); sx_assert(p[i] != NULL, "allocation succeeds"); }
	uint64_t v = sx_u64("content");
	int ix[] = { 0, 31, 32, 63, 64, per - 1, n - 1 };
	for (int k = 0; k < 7; k++) *(uint64_t *) at(&c, p[ix[k]], 0) = v;
	int a = ix[sx_choice(7, "a")];
	free_item(&c, p[a]);
	p[a] = rseq_mempool_percpu_malloc(pool);
	sx_assert(p[a] != NULL, "reallocation succeeds");
	if (sx_choice(2, "order")) for (int i = 0; i < n; i++) free_item(&c, p[i]);
	else for (int i = n - 1; i >= 0; i--) free_item(&c, p[i]);
	for (int i = 0; i < 3; i++) p[i] = rseq_mempool_percpu_zmalloc(pool);
	for (int i = 0; i < 3; i++) free_item(&c, p[i]);
	sx_assert(rseq_mempool_destroy(pool) == 0, "destroy of a pool with nothing live succeeds");
	sx_cover("destroyed");
}
