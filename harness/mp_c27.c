/* C27: freed items are poisoned on every CPU */
#include "mp.h"
static struct cfg c;
void h_main(void)
{
	int len = sx_param("len");
	any_cfg(&c, 1); c.cpus = 3; c.item_len = len; if (len > 4096) c.stride = len;
	c.poison_set = c.robust ? sx_choice(2, "poison_set") : 1;
	if (c.poison_set) c.poison = sx_u64("poison");
	struct rseq_mempool *p = mk_pool(&c);
	char *b = NULL, *a;
	if (c.stride > c.len && sx_choice(2, "second")) b = rseq_mempool_percpu_malloc(p);
	a = rseq_mempool_percpu_malloc(p);
	sx_assert(a != NULL, "allocation succeeds");
	int who = sx_choice(4, "writers"), wrote[3] = { 0 };
	for (int i = 0; i < 3; i++) {
		if (!(who == 3 || (who == 1 && i == 0) || (who == 2 && i == 2))) continue;
		wrote[i] = 1;
		size_t off = len <= 32 ? 8 * sx_choice(len / 8, "word") : sx_choice(2, "end") ? len - 8 : 0;
		*(uint64_t *) (at(&c, a, i) + off) = sx_u64("content");
	}
	if (b && sx_choice(2, "free_other")) free_item(&c, b);
	free_item(&c, a);
	uint64_t poison = c.poison_set ? c.poison : c.policy == ZERO ? 0 : *(uint64_t *) at(&c, a, 0);
	if (!c.poison_set) sx_cover("default poison");
	for (int i = 0; i < 3; i++)
		for (size_t k = 0; k < c.len; k += 8) {
			if (k == 0 && !c.robust) {
				/* the link: first CPU in zero pools; the shared initial values otherwise */
				if (c.policy == ZERO && i == 0) continue;
				if (c.policy == INIT && !wrote[i]) continue;
			}
			sx_assert(*(uint64_t *) (at(&c, a, i) + k) == poison, "every word of a freed item is poisoned on every CPU");
		}
	sx_cover("end");
}
