/* C30: allocation does not populate per-CPU pages needlessly */
#include "mp.h"
static struct cfg c;
void h_main(void)
{
	any_cfg(&c, 1); c.cpus = 2; c.item_len = sx_param("len"); c.robust = 0; if (c.item_len > 4096) c.stride = c.item_len;
	if (sx_choice(2, "robust2")) c.robust = 1;
	struct rseq_mempool *p = mk_pool(&c);
	int pages = c.stride / 4096, wrote = sx_choice(3, "writer");	/* no CPU, CPU 0, CPU 1 wrote to its page before */
	char *b = NULL;
	if (wrote && c.len < c.stride) { b = rseq_mempool_percpu_malloc(p); at(&c, b, wrote - 1)[0] = 1; } else wrote = 0;
	int kind = sx_choice(3, "kind"); uint64_t in[2];
	int zero_content = c.policy == ZERO;
	if (kind == 2) { if (zero_content) in[0] = in[1] = 0; else { in[0] = sx_u64("init"); in[1] = sx_u64("init"); } }
	char *x = kind == 0 ? rseq_mempool_percpu_malloc(p) : kind == 1 ? rseq_mempool_percpu_zmalloc(p) : rseq_mempool_percpu_malloc_init(p, in, sx_choice(2, "odd") ? 13 : 16);
	sx_assert(x != NULL, "allocation succeeds");
	uintptr_t base = (uintptr_t) x & ~(c.stride - 1);
	for (int i = 0; i < c.cpus; i++)
		for (int k = 0; k < pages; k++) {
			int priv = sx_private((void *) (base + i * c.stride + k * 4096UL));
			int own = b && ((uintptr_t) b & ~(c.stride - 1)) == base && wrote == i + 1 && k == 0;
			if (!own) sx_assert(!priv, "a CPU page becomes private only by that CPU's own writes");
		}
	sx_cover("fresh");
	/* free and allocate again in an initial-value pool without poison: still nothing private */
	if (!c.robust && c.policy == INIT) {
		free_item(&c, x);
		char *y = rseq_mempool_percpu_zmalloc(p);
		for (int i = 0; i < c.cpus; i++)
			if (!(b && wrote == i + 1)) sx_assert(!sx_private(at(&c, y, i)), "reuse in an initial-value pool populates no untouched CPU page");
		sx_cover("reuse");
	}
}
