/* C21: destruction releases everything or reports failure */
#include "mp.h"
static struct cfg c;
void h_main(void)
{
	int sc = sx_param("scenario");
	if (sc == 0) {
		sx_assert(rseq_mempool_destroy(NULL) == 0, "destroying a NULL pool returns 0");
		any_cfg(&c, 2); c.item_len = sx_choice(2, "size") ? 4096 : 2048;
		if (sx_choice(2, "bigstride")) c.stride = 16384;
		struct rseq_mempool *p;
		if (sx_choice(2, "named")) p = mk_pool(&c);
		else { struct rseq_mempool_attr *a = mk_attr(&c); p = rseq_mempool_create(NULL, c.item_len, a); sx_assert(p != NULL, "creation succeeds"); rseq_mempool_attr_destroy(a); c.len = round_len(c.item_len); }
		int n = sx_choice(3, "fill") * (c.stride / c.len) + sx_choice(2, "one_more");
		char *it[64];
		for (int i = 0; i < n; i++) { it[i] = rseq_mempool_percpu_malloc(p); sx_assert(it[i] != NULL, "allocation succeeds"); at(&c, it[i], c.cpus - 1)[0] = 1; }
		if (c.robust || sx_choice(2, "free")) for (int i = 0; i < n; i++) free_item(&c, it[i]);
		sx_munmap_faults(1);
		int f = sx_fault_fired(), maps = sx_map_live(), r = rseq_mempool_destroy(p);
		sx_munmap_faults(0);
		if (sx_fault_fired() > f) { sx_assert(r == -1, "destroy reports that unmapping failed"); sx_cover("munmap failed");
			/* of a robust pool, only as long as no range is gone */
			if (c.robust && sx_map_live() < maps) return;
			r = rseq_mempool_destroy(p); sx_cover("destroyed again"); }
		sx_assert(r == 0, "destroy succeeds");
		sx_assert(sx_map_live() == 0, "no mapping remains");
		sx_assert(sx_heap_live() == 0, "no heap block remains");
		sx_assert(sx_fd_live() == 0, "no descriptor remains");
		sx_cover("destroyed");
		return;
	}
	/* sets */
	struct rseq_mempool_set *s = rseq_mempool_set_create();
	sx_assert(s != NULL, "set creation succeeds");
	static const size_t sz[] = { 8, 1024, 4096 };
	int any = 0;
	for (int i = 0; i < 3; i++) {
		if (!sx_choice(2, "present")) continue;
		any = 1;
		any_cfg(&c, 1); c.cpus = 2; c.item_len = sz[i];
		struct rseq_mempool *p = mk_pool(&c);
		sx_assert(!rseq_mempool_set_add_pool(s, p), "adding a pool succeeds");
		if (!c.robust && sx_choice(2, "live")) { sx_assert(rseq_mempool_percpu_malloc(p) != NULL, "allocation"); }
	}
	sx_munmap_faults(1);
	int f = sx_fault_fired(), r = rseq_mempool_set_destroy(s);
	sx_munmap_faults(0);
	if (sx_fault_fired() > f) { sx_assert(r == -1, "set destroy reports that unmapping failed"); sx_cover("set munmap failed"); return; }
	sx_assert(r == 0, "set destroy succeeds");
	sx_assert(sx_map_live() == 0, "no mapping remains");
	sx_assert(sx_heap_live() == 0, "no heap block remains");
	sx_assert(sx_fd_live() == 0, "no descriptor remains");
	if (any) sx_cover("destroyed");
}
