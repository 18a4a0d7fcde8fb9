/* C13: large strides and items: every item is usable memory up to its last byte on every CPU */
#include "mp.h"
static struct cfg c;
static void touch(char *p, int v) { for (int i = 0; i < c.cpus; i++) { at(&c, p, i)[0] = v + i; at(&c, p, i)[c.len / 2] = v + i + 50; at(&c, p, i)[c.len - 1] = v + i + 100; } }
static void look(char *p, int v) { for (int i = 0; i < c.cpus; i++) sx_assert(at(&c, p, i)[0] == (char) (v + i) && at(&c, p, i)[c.len / 2] == (char) (v + i + 50) && at(&c, p, i)[c.len - 1] == (char) (v + i + 100), "items are disjoint on every CPU"); }
void h_main(void)
{
	static const int ord[] = { 13, 17, 18, 20, 21, 24, 31, 32, 33, 36 };
	c.policy = sx_choice(2, "policy") ? INIT : ZERO; c.robust = sx_choice(2, "robust");
	c.cpus = 1 + 2 * sx_choice(2, "cpus"); c.stride = 1UL << ord[sx_choice(10, "stride")];
	c.item_len = sx_choice(2, "whole") ? c.stride : c.stride / 2;
	struct rseq_mempool *p = mk_pool(&c);
	char *x = rseq_mempool_percpu_malloc(p), *y = rseq_mempool_percpu_malloc(p), *z = rseq_mempool_percpu_malloc(p);
	sx_assert(x && y && z, "allocation succeeds");
	sx_assert(x != y && y != z && x != z, "different items");
	sx_assert(((uintptr_t) x | (uintptr_t) y | (uintptr_t) z) % c.len == 0, "items are aligned on their length");
	touch(x, 1); touch(y, 10); touch(z, 20);
	look(x, 1); look(y, 10); look(z, 20);
	sx_cover("end");
}
