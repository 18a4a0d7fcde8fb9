/* C24: threads that work on pools of their own share nothing */
#include "mp.h"
int rseq_get_max_nr_cpus(void) { return 2; }
static int what[2]; static struct cfg c[2]; static int moved[2];
int env_numa_node_of_cpu(int cpu) { return cpu; }
long env_move_pages(int pid, unsigned long n, void **pages, const int *nodes, int *status, int f)
{
	int i = f - 5;
	for (unsigned long k = 0; k < n; k++) {
		sx_assert(pages[k] == (char *) 0x200000000000UL + 0x1000000 * i + 4096 * moved[i] && nodes[k] == 7 + i, "each thread's own pages are moved");
		status[k] = 0; moved[i]++;
	}
	return 0;
}
static int cb(void *priv, void *addr, size_t len, int cpu) { struct cfg *k = priv; (void) len; ((char *) addr)[8] = 1 + cpu; k->ranges++; return 0; }
static void thread(void *x)
{
	int i = *(int *) x; struct cfg *k = &c[i];
	if (what[i] == 3) {
		sx_assert(!rseq_mempool_range_init_numa((char *) 0x200000000000UL + 0x1000000 * i, 3 * 4096, 7 + i, 5 + i) && moved[i] == 3, "each thread's own pages are moved");
		return;
	}
	struct rseq_mempool_attr *a = rseq_mempool_attr_create();
	sx_assert(a && !rseq_mempool_attr_set_percpu(a, 4096, what[i] == 2 ? 0 : 2) && !rseq_mempool_attr_set_populate_policy(a, k->policy), "attributes");
	if (k->robust) rseq_mempool_attr_set_robust(a);
	if (what[i] == 1) rseq_mempool_attr_set_init(a, cb, k);
	struct rseq_mempool *p = rseq_mempool_create(i ? "one" : "zero", 4096, a);
	sx_assert(p != NULL, "creation succeeds");
	rseq_mempool_attr_destroy(a);
	struct rseq_mempool_set *s = rseq_mempool_set_create();
	sx_assert(s && !rseq_mempool_set_add_pool(s, p), "a set of its own");
	long v = 3 + i;
	char *m = rseq_mempool_percpu_malloc(p), *n = rseq_mempool_set_percpu_malloc_init(s, &v, sizeof v);
	sx_assert(m && n && m != n, "allocation succeeds");
	if (what[i] == 1) sx_assert(m[8] == 1 && at(k, m, 1)[8] == 2 && k->ranges == 4, "the thread's own callback filled the items");
	sx_assert(*(long *) n == v && *(long *) at(k, n, 1) == v, "initialised with the thread's own content");
	free_item(k, m); m = rseq_mempool_set_percpu_zmalloc(s, 8); sx_assert(m != NULL, "a freed item is allocated again"); free_item(k, m); free_item(k, n);
	sx_assert(!rseq_mempool_set_destroy(s), "destroy succeeds");
}
void h_main(void)
{
	static int id[2] = { 0, 1 };
	for (int i = 0; i < 2; i++) { what[i] = sx_choice(4, "what"); c[i].policy = INIT; c[i].robust = 0; c[i].stride = 4096; c[i].cpus = 2; c[i].ranges = 0; if (what[i] == 0) { c[i].policy = sx_choice(2, "zero") ? ZERO : INIT; c[i].robust = sx_choice(2, "robust"); } }
	sx_preempt_bound(1);
	sx_spawn(thread, &id[0]); sx_spawn(thread, &id[1]); sx_join_all();
	sx_races(0);
	sx_assert(sx_map_live() == 0 && sx_heap_live() == 0 && sx_fd_live() == 0, "nothing remains");
	sx_cover("own pools");
}
