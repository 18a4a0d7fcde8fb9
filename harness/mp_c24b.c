/* C24: pool sets: adding pools while another thread allocates or adds */
#include "mp.h"
static struct cfg c[2];
static struct rseq_mempool_set *set; static struct rseq_mempool *pools[2];
static int rc[2], err[2]; static char *got[2]; static int what[2];
static void add(void *x) { int i = *(int *) x; errno = 0; rc[i] = rseq_mempool_set_add_pool(set, pools[i]); err[i] = errno; if (what[i]) got[i] = rseq_mempool_set_percpu_malloc(set, 64); }
static void use(void *x)
{
	int i = *(int *) x;
	errno = 0;
	got[i] = what[i] == 0 ? rseq_mempool_set_percpu_malloc(set, 64) : what[i] == 1 ? rseq_mempool_set_percpu_zmalloc(set, 2048) : rseq_mempool_set_percpu_malloc_init(set, &c[0], 16);
	if (!got[i]) sx_assert(errno == ENOMEM, "no pool yet: ENOMEM");
	else { at(&c[0], got[i], 0)[3] = 1; if (what[i] == 0) free_item(&c[0], got[i]); }
}
void h_main(void)
{
	static int id[2] = { 0, 1 };
	set = rseq_mempool_set_create();
	int same = sx_choice(2, "same"), mode = sx_choice(3, "mode");
	any_cfg(&c[0], 1); c[0].cpus = 2; c[0].item_len = 2048; c[0].ranges = 1; c[0].robust = 0; c[1] = c[0]; if (!same) c[1].item_len = 4096;
	for (int i = 0; i < 2; i++) { pools[i] = mk_pool(&c[i]); what[i] = sx_choice(mode == 2 || (mode == 1 && i == 1) ? 3 : 2, "what"); }
	if (mode == 2) { sx_assert(!rseq_mempool_set_add_pool(set, pools[0]), "add"); if (!same) sx_assert(!rseq_mempool_set_add_pool(set, pools[1]), "add"); }
	sx_spawn(mode == 2 ? use : add, &id[0]);
	sx_spawn(mode == 0 ? add : use, &id[1]);
	sx_join_all();
	sx_races(0);
	if (mode == 0) {
		if (same) {
			sx_assert((rc[0] == 0) != (rc[1] == 0), "of two pools of one size class exactly one is added");
			int l = rc[0] ? 0 : 1;
			sx_assert(rc[l] == -1 && err[l] == EBUSY, "the other is refused with EBUSY");
			sx_assert(!rseq_mempool_destroy(pools[l]), "and still owned by the caller");
		} else sx_assert(rc[0] == 0 && rc[1] == 0, "both pools are added");
		sx_cover("add add");
	} else if (mode == 1) {
		sx_assert(rc[0] == 0, "the pool is added");
		sx_assert(!rseq_mempool_destroy(pools[1]), "destroy");
		sx_cover("add use");
	} else {
		if (same) sx_assert(!rseq_mempool_destroy(pools[1]), "destroy");
		if (got[0] && got[1] && what[0] && what[1]) sx_assert(got[0] != got[1], "no item is handed out twice");
		sx_cover("use use");
	}
	sx_assert(!rseq_mempool_set_destroy(set), "set destroy succeeds");
	sx_assert(sx_map_live() == 0 && sx_heap_live() == 0, "completely");
}
