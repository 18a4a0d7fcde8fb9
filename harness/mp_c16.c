/* C16: misuse of a robust pool is always detected (the process aborts) */
#include "mp.h"
static struct cfg c;
static char *p[300];
static struct rseq_mempool *pool;
static int n;

static void fill(int cnt) { for (n = 0; n < cnt; n++) { p[n] = rseq_mempool_percpu_malloc(pool); sx_assert(p[n] != NULL, "allocation succeeds"); } }
static int pick(void)
{
	int ix[] = { 0, 1, 63, 64, 65, (int) (c.stride / c.len) - 1, n - 1 };
	int k = ix[sx_choice(7, "item")];
	return k < n ? k : n - 1;
}
static void reuse_or_destroy(void)
{
	int how = c.len == 2048 ? 3 * sx_choice(2, "how") : sx_choice(4, "how"); char init[8] = "abcdefg";
	sx_expect_abort(1);
	for (int i = 0; i < n; i++)
		switch (how) {
		case 0: rseq_mempool_percpu_malloc(pool); break;
		case 1: rseq_mempool_percpu_zmalloc(pool); break;
		case 2: rseq_mempool_percpu_malloc_init(pool, init, 8); break;
		default: rseq_mempool_destroy(pool); return;
		}
}
void h_main(void)
{
	int sc = sx_param("scenario");
	any_cfg(&c, 1); c.robust = 1; c.cpus = 2; c.item_len = sx_param("len");
	c.poison_set = sx_choice(2, "poison_set");
	if (c.poison_set) c.poison = sx_u64("poison");
	pool = mk_pool(&c);
	int per = c.stride / c.len;
	switch (sc) {
	case 0: {	/* double free */
		fill(sx_choice(2, "two_ranges") ? per + 2 : per);
		int k = pick(), between = sx_choice(3, "between");
		free_item(&c, p[k]);
		if (between == 1 && n > 1) free_item(&c, p[(k + 1) % n]);
		if (between == 2) { int j = (k + 1) % n; free_item(&c, p[j]); char *q = rseq_mempool_percpu_malloc(pool); sx_assume(q != p[k]); }
		sx_cover("double free");
		sx_expect_abort(1);
		free_item(&c, p[k]);
		sx_fail("double free was not detected");
	}
	case 1: {	/* leak */
		fill(sx_choice(2, "two_ranges") ? per + 2 : per);
		int k = pick();
		for (int i = 0; i < n; i++) if (i != k) free_item(&c, p[i]);
		sx_cover("leak");
		sx_expect_abort(1);
		rseq_mempool_destroy(pool);
		sx_fail("leaked item was not detected by destroy");
	}
	case 2: {	/* a freed item is modified on some CPU or in its initial values */
		int lite = c.len > 16, big = c.len == 2048, cnt = big ? 3 : lite ? 1 : 1 + sx_choice(2, "count");
		fill(cnt);
		/* pages that the CPUs made private before: none, the last, all */
		int d = lite && !big ? 0 : sx_choice(3, "dirty");
		for (int i = 0; i < n; i++) { for (int cpu = 0; cpu < 2; cpu++) if (d == 2 || (d && cpu)) at(&c, p[i], cpu)[0] = 7; if (big) break; }
		for (int i = 0; i < n; i++) free_item(&c, p[i]);
		int where = sx_choice(c.policy == INIT ? 3 : 2, "where");
		int which = sx_choice(n, "which");
		static const int offs[] = { 0, 2047 };
		size_t off = big ? offs[sx_choice(2, "offset")] : sx_u64("off"); sx_assume(off < c.len);
		char v = sx_u8("value"); sx_assume(v != 0);
		char *q = where < 2 ? at(&c, p[which], where) : sx_init_ptr(at(&c, p[which], 0));
		sx_assert(q != NULL, "initial values are mapped");
		q[off] ^= v;
		sx_cover("corrupted");
		/* freed items are reused before new memory */
		reuse_or_destroy();
		sx_fail("modification of a freed item was not detected");
	}
	case 3: {	/* free list cut, made cyclic or made to leave the pool */
		fill(per);
		for (int i = 0; i < n; i++) free_item(&c, p[i]);
		/* the links live behind the per-CPU memory */
		uintptr_t base = (uintptr_t) p[0] & ~(c.stride - 1);
		uintptr_t lo = base + c.cpus * c.stride, init = (uintptr_t) sx_init_ptr((void *) base);
		uint64_t *links[8]; int nl = 0;
		for (uintptr_t a = lo; nl < 8 && a < lo + 4 * c.stride && sx_mapped(a, 8); a += c.len) {
			if (init && a >= init && a < init + c.stride) continue;
			if (*(uint64_t *) a) links[nl++] = (uint64_t *) a;
		}
		if (nl < 2) sx_end();
		int k = sx_choice(2, "link") ? nl - 1 : 0;
		uint64_t v;
		switch (sx_choice(3, "how")) {
		case 0: v = 0; break;
		case 1: v = (uint64_t) links[k]; break;
		default: v = sx_u64("value"); sx_assume(v && (v < base - 16 * 4096 || v >= base + 16 * c.stride)); break;
		}
		*links[k] = v;
		sx_cover("free list corrupted");
		sx_expect_abort(1);
		rseq_mempool_destroy(pool);
		sx_fail("corrupted free list was not detected by destroy");
	}
	case 4: {	/* a live item that was linked into the free list behind the allocator's back */
		int m = c.len == 32 ? 66 : 4; fill(per < m ? per : m); if (n < 3) sx_end();
		free_item(&c, p[0]); free_item(&c, p[1]);
		uintptr_t base = (uintptr_t) p[0] & ~(c.stride - 1);
		uintptr_t lo = base + c.cpus * c.stride, init = (uintptr_t) sx_init_ptr((void *) base), node1 = 0;
		for (uintptr_t a = lo; !node1 && a < lo + 4 * c.stride && sx_mapped(a, 8); a += c.len) {
			if (init && a >= init && a < init + c.stride) continue;
			if (*(uint64_t *) a) node1 = a;
		}
		if (!node1) sx_end();
		int k = sx_choice(2, "live") ? n - 1 : n > 50 && sx_choice(2, "upper half") ? 47 : 2;
		uintptr_t node0 = *(uint64_t *) node1, live = node1 + (p[k] - p[1]);	/* p[0] is the last of the list */
		for (int i = 2; i < n; i++) if (i != k) free_item(&c, p[i]);
		if (*(uint64_t *) node0) sx_end();
		*(uint64_t *) node0 = live;
		sx_cover("live item in the free list");
		sx_expect_abort(1);
		rseq_mempool_destroy(pool);
		sx_fail("a live item was not detected by destroy");
	}
	}
}
