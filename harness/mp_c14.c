/* C14: content after zeroed and initialised allocation, on fresh and reused memory */
#include "mp.h"
static struct cfg c;
static int callback(void *priv, void *addr, size_t len, int cpu)
{
	(void) priv;
	for (size_t i = 0; i + 8 <= len; i += 8) *(uint64_t *) ((char *) addr + i) = 0xa5a5a5a5a5a5a500UL + cpu;
	return 0;
}
void h_main(void)
{
	int len = sx_param("len"), race = sx_param("race");
	any_cfg(&c, 1);
	c.cpus = sx_param("cpus"); c.item_len = len;
	if (race) sx_assume(c.policy == INIT);	/* elsewhere a private page equals the zero page */
	if (len > 4096) c.stride = 8192;
	c.poison_set = c.robust ? 1 : sx_choice(2, "poison_set");
	if (c.poison_set) c.poison = race || len > 16 ? 0x7777 : sx_choice(2, "poison_any") ? sx_u64("poison") : 0;
	struct rseq_mempool *pool;
	if (sx_param("cb")) {
		/* fresh memory holds what an initialisation callback wrote */
		struct rseq_mempool_attr *at_ = mk_attr(&c);
		rseq_mempool_attr_set_init(at_, callback, NULL); rseq_mempool_attr_set_populate_policy(at_, c.policy);
		pool = rseq_mempool_create("pool", c.item_len, at_); c.len = round_len(c.item_len);
		sx_assert(pool != NULL, "creation of a valid pool succeeds");
	} else pool = mk_pool(&c);
	char *a = NULL, *b = rseq_mempool_percpu_malloc(pool);
	int reuse = sx_param("cb") ? 0 : sx_choice(2, "reuse");
	sx_assert(b != NULL, "allocation succeeds");
	if (reuse) { a = rseq_mempool_percpu_malloc(pool); sx_assert(a != NULL, "allocation succeeds"); }
	/* which CPUs wrote to the item / only to its neighbour on the same page */
	unsigned char w[64]; unsigned n = c.len < 16 ? c.len : 16;
	int who = sx_param("cb") ? 0 : race ? sx_choice(2, "writers") * 2 : sx_choice(4, "writers");	/* none, first, last, all */
	for (int i = 0; i < c.cpus; i++) {
		if (!(who == 3 || (who == 1 && i == 0) || (who == 2 && i == c.cpus - 1))) continue;
		if (reuse) {
			/* somewhere in the item: arbitrary bytes */
			unsigned off = c.len <= 16 ? 0 : sx_choice(2, "where") ? c.len - 16 : c.len / 2;
			sx_bytes(w, n, "old");
			memcpy(at(&c, a, i) + off, w, n);
		} else
			at(&c, b, i)[sx_choice(2, "end") ? c.len - 1 : 0] = 1;
	}
	if (reuse) free_item(&c, a);
	if (race) {
		for (int i = 0; i < c.cpus; i++)
			for (size_t o = 0; o < c.stride; o += 4096) sx_cow_race(at(&c, (char *) ((uintptr_t) b & ~(c.stride - 1)), i) + o, 1);
	}
	int kind = sx_choice(2, "kind");
	char *p;
	static unsigned char init[8200]; size_t il = 0;
	if (kind == 0) p = rseq_mempool_percpu_zmalloc(pool);
	else {
		if (c.len <= 16) { sx_bytes(init, c.len, "init"); il = sx_u64("init_len"); sx_assume(il <= c.len); if (race) sx_assume(il == c.len || il == c.len - 3); il = sx_concrete(il); }
		else { memset(init, 0x5a, sizeof init); il = c.len - sx_choice(2, "short"); init[il - 1] = sx_u8("tail"); init[0] = sx_u8("head"); }
		p = rseq_mempool_percpu_malloc_init(pool, init, il);
	}
	if (race)
		for (int i = 0; i < c.cpus; i++)
			for (size_t o = 0; o < c.stride; o += 4096) sx_cow_race(at(&c, (char *) ((uintptr_t) b & ~(c.stride - 1)), i) + o, 0);
	sx_assert(p != NULL, "allocation succeeds");
	for (int i = 0; i < c.cpus; i++) {
		unsigned char *q = (unsigned char *) at(&c, p, i);
		if (kind == 0) { for (size_t k = 0; k < c.len; k++) sx_assert(q[k] == 0, "zeroed item reads zero on every CPU"); }
		else for (size_t k = 0; k < il; k++) sx_assert(q[k] == init[k], "initialised item shows the given content on every CPU");
	}
	sx_cover("checked");
	if (reuse) sx_cover("?reuse:reused");
}
