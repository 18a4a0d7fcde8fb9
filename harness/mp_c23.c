/* C23: pool sets choose the smallest fitting pool with space */
#include "mp.h"
#define NP 3
static struct cfg c[NP];
static uintptr_t base[NP]; static int left[NP], present[NP];
static int pool_of(char *p) { for (int i = 0; i < NP; i++) if (present[i] && ((uintptr_t) p & ~4095UL) == base[i]) return i; return -1; }
void h_main(void)
{
	static const size_t sets[3][NP] = { { 8, 16, 4096 }, { 1024, 2048, 4096 }, { 100, 600, 3000 } };
	int w = sx_param("sizes"), steps = sx_param("steps");
	struct rseq_mempool_set *s = rseq_mempool_set_create();
	sx_assert(s != NULL, "set creation succeeds");
	int order = sx_choice(2, "order");
	any_cfg(&c[0], 1);
	if (!sx_tier()) sx_assume(w == 1 || (c[0].robust == (w == 2) && c[0].policy == INIT));
	int pol = c[0].policy, rob = c[0].robust;
	for (int x = 0; x < NP; x++) {
		int i = order ? NP - 1 - x : x;
		present[i] = x == 0 ? 1 : sx_choice(2, "present");
		if (!present[i]) continue;
		c[i] = c[0]; c[i].policy = pol; c[i].robust = rob; c[i].cpus = 2; c[i].item_len = sets[w][i]; c[i].ranges = 1; c[i].stride = 4096; c[i].poison_set = 0;
		struct rseq_mempool *p = mk_pool(&c[i]);
		/* leave one item or none */
		int cap = c[i].stride / c[i].len, keep = sx_choice(2, "space");
		left[i] = keep;
		char *q = NULL;
		if (cap - keep == 0) { q = rseq_mempool_percpu_malloc(p); base[i] = (uintptr_t) q & ~4095UL; memset(at(&c[i], q, 1), 0xaa, 8); free_item(&c[i], q); }
		for (int k = 0; k < cap - keep; k++) { q = rseq_mempool_percpu_malloc(p); base[i] = (uintptr_t) q & ~4095UL; }
		sx_assert(q != NULL, "allocation succeeds");
		if (cap != keep) memset(at(&c[i], q, 0), 0xaa, 8);	/* make a page private */
		sx_assert(!rseq_mempool_set_add_pool(s, p), "adding a pool succeeds");
	}
	size_t len = sx_u64("len");
	for (int k = 0; k < steps; k++) {
		int kind = sx_choice(3, "kind"); static unsigned char init[4096];
		if (kind == 2) {
			sx_assume(len <= 4096);
			init[0] = sx_u8("init0"); init[7] = 0x3c;
			len = sx_concrete(len <= 8 ? 8 : len <= 16 ? 16 : len <= 1024 ? 1000 : len <= 2048 ? 2048 : 4096);
			init[len - 1] = sx_u8("initlast");
		}
		int want = -1;
		for (int i = NP - 1; i >= 0; i--) if (present[i] && left[i] > 0 && c[i].len >= len) want = i;
		errno = 0;
		char *p = kind == 0 ? rseq_mempool_set_percpu_malloc(s, len) : kind == 1 ? rseq_mempool_set_percpu_zmalloc(s, len)
			: rseq_mempool_set_percpu_malloc_init(s, init, len);
		if (want < 0) { sx_assert(p == NULL, "an allocation that no pool can satisfy fails"); sx_assert(errno == ENOMEM, "with ENOMEM"); sx_cover("none"); break; }
		sx_assert(p != NULL, "an allocation that some pool can satisfy succeeds");
		sx_assert(pool_of(p) == want, "from the smallest fitting pool with space");
		left[want]--;
		for (int i = 0; i < 2; i++) {
			unsigned char *q = (unsigned char *) at(&c[want], p, i);
			if (kind == 1) { sx_assert(q[0] == 0 && q[7] == 0 && q[c[want].len - 1] == 0, "zeroed item reads zero"); }
			if (kind == 2) sx_assert(q[0] == init[0] && q[len - 1] == init[len - 1] && (len <= 8 || q[7] == 0x3c), "initialised item shows the given content");
		}
		sx_cover("allocated");
	}
	sx_cover("end");
}
