/* C17: a robust pool never aborts a correct program */
#include "mp.h"
#define N 5
static struct cfg c;
static char *it[N]; static int live[N];
void h_main(void)
{
	int steps = sx_param("steps");
	any_cfg(&c, 1); c.robust = 1; c.cpus = sx_tier() ? 1 + sx_choice(2, "two_cpus") : 2; c.item_len = sx_param("len");
	c.poison_set = sx_choice(2, "poison_set");
	if (c.poison_set) c.poison = sx_u64("poison");
	struct rseq_mempool *pool = mk_pool(&c);
	uint64_t content = sx_u64("content");
	for (int s = 0; s < steps; s++) {
		int nl = 0, fr = -1, who[N];
		for (int k = 0; k < N; k++) { if (live[k]) who[nl++] = k; else if (fr < 0) fr = k; }
		int op = sx_choice(nl + 3, "op");
		if (op < nl) { live[who[op]] = 0; free_item(&c, it[who[op]]); sx_cover("free"); }
		else {
			uint64_t in = content;
			char *p = op == nl ? rseq_mempool_percpu_malloc(pool) : op == nl + 1 ? rseq_mempool_percpu_zmalloc(pool)
				: rseq_mempool_percpu_malloc_init(pool, &in, 8);
			sx_assert(p != NULL, "allocation succeeds");
			it[fr] = p; live[fr] = 1;
			int w = sx_tier() ? sx_choice(c.cpus + 1, "write") : sx_choice(2, "write") * 2;	/* the owner writes on no, the first, or the last CPU */
			if (w) { *(uint64_t *) at(&c, p, w - 1) = content; *(uint64_t *) (at(&c, p, w - 1) + c.len - 8) = content + 1; }
		}
	}
	for (int k = 0; k < N; k++) if (live[k]) free_item(&c, it[k]);
	sx_assert(rseq_mempool_destroy(pool) == 0, "destroy of a pool with nothing live succeeds");
	sx_cover("destroyed");
}
