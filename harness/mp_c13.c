/* C13: histories of allocations and frees; every returned item is aligned, inside its range,
 * mapped on every CPU and disjoint from all other live items and the allocator's data. */
#include "mp.h"
#define N 8
static char *it[N]; static int live[N];
static struct cfg c;

static void check_new(char *p, int self)
{
	uintptr_t a = (uintptr_t) p, off = a & (c.stride - 1);
	sx_assert((a & (c.len - 1)) == 0, "item is aligned on its rounded length");
	sx_assert(c.len >= c.item_len, "rounded length");
	sx_assert(off + c.len <= c.stride, "item lies inside one stride-aligned range");
	for (int i = 0; i < c.cpus; i++)
		sx_assert(sx_mapped(a + i * c.stride, c.len), "item memory is mapped on every CPU");
	for (int k = 0; k < N; k++) {
		if (!live[k] || k == self) continue;
		for (int i = 0; i < c.cpus; i++)
			for (int j = 0; j < c.cpus; j++) {
				uintptr_t x = a + i * c.stride, y = (uintptr_t) it[k] + j * c.stride;
				sx_assert(x + c.len <= y || y + c.len <= x, "live items do not overlap");
			}
	}
	/* the caller owns all of it: scribble, so that overlap with allocator data shows */
	for (int i = 0; i < c.cpus; i++) memset(at(&c, p, i), 0xff, c.len);
}

void h_main(void)
{
	int steps = sx_param("steps"), sizes = sx_param("sizes");
	any_cfg(&c, 2);
	if (!c.robust) c.poison_set = sx_choice(2, "poison_set");
	c.poison = 0x1122334455667788UL;
	if (sizes == 0) {
		c.item_len = sx_u64("item_len");
		sx_assume(c.item_len <= c.stride);
		size_t l = sizeof(void *);
		while (l < c.item_len) l <<= 1;
	} else if (sizes == 1) {
		static const size_t s[] = { 2048, 4096 };
		c.item_len = s[sx_choice(2, "size")];
	} else {
		c.item_len = 3000; c.stride = 8192;
	}
	struct rseq_mempool *pool = mk_pool(&c);
	for (int s = 0; s < steps; s++) {
		int nl = 0, fr = -1, who[N];
		for (int k = 0; k < N; k++) { if (live[k]) who[nl++] = k; else if (fr < 0) fr = k; }
		int op = sx_choice(nl + (s < 2 ? 2 : 1), "op");
		if (op < nl) {
			live[who[op]] = 0;
			rseq_mempool_percpu_free(it[who[op]], c.stride);
			sx_cover("free");
		} else {
			char *p = op == nl ? rseq_mempool_percpu_malloc(pool) : rseq_mempool_percpu_zmalloc(pool);
			sx_assert(p != NULL, "allocation from an unlimited pool succeeds");
			it[fr] = p; live[fr] = 1;
			check_new(p, fr);
			sx_cover("alloc");
		}
	}
	sx_cover("end");
}
