/* C22: pools across fork */
#include "mp.h"
static struct cfg c;
static struct rseq_mempool *pool; static char *a, *b; static uint64_t va, vb; static int op;

static int child_zero(void *x)
{
	(void) x;
	if (*(uint64_t *) at(&c, a, 0) != va || *(uint64_t *) at(&c, b, c.cpus - 1) != vb) return 2;	/* a child sees the content at fork */
	char *q;
	switch (op) {
	case 0: *(uint64_t *) at(&c, a, 0) = ~va; *(uint64_t *) at(&c, b, c.cpus - 1) = ~vb; break;
	case 1: q = rseq_mempool_percpu_zmalloc(pool); if (!q) return 3; at(&c, q, 0)[3] = 1; free_item(&c, q); break;
	case 2: free_item(&c, a); q = rseq_mempool_percpu_malloc(pool); if (!q) return 4; *(uint64_t *) at(&c, q, 0) = 99; break;
	case 3: if (c.robust) { free_item(&c, a); free_item(&c, b); } return rseq_mempool_destroy(pool) || sx_map_live() ? 5 : 0;
	default: free_item(&c, a); free_item(&c, b); return rseq_mempool_destroy(pool) || sx_map_live() ? 6 : 0;
	}
	return 0;
}
static int child_destroy(void *x) { (void) x; return rseq_mempool_destroy(pool) ? 7 : sx_map_live() ? 8 : 0; }
static int child_access(void *x) { int cpu = *(int *) x; volatile char *q = at(&c, a, cpu); if (op & 1) *q = 1; else (void) *q; return 0; }
static int child_init_access(void *x) { volatile char *q = x; if (va & 1) *q = 1; else (void) *q; return 0; }

void h_main(void)
{
	any_cfg(&c, 1); c.cpus = 2; c.item_len = 2048; c.poison_set = sx_choice(2, "poison_set"); c.poison = 0x99;
	pool = mk_pool(&c);
	a = rseq_mempool_percpu_malloc(pool); b = rseq_mempool_percpu_zmalloc(pool);
	int grow = sx_choice(2, "grow"); char *e = NULL;
	if (grow) e = rseq_mempool_percpu_malloc(pool);
	va = sx_u64("va"); vb = sx_u64("vb");
	int write = sx_choice(2, "write");
	if (write || c.policy == ZERO) { *(uint64_t *) at(&c, a, 0) = va; *(uint64_t *) at(&c, b, c.cpus - 1) = vb; }
	else { va = *(uint64_t *) at(&c, a, 0); vb = *(uint64_t *) at(&c, b, c.cpus - 1); }
	int live = 1;
	if (grow && sx_choice(2, "freed")) { free_item(&c, e); grow = 0; }
	op = sx_choice(5, "op");
	if (c.policy == ZERO) {
		if (c.robust && grow && op >= 3) { free_item(&c, e); grow = 0; }
		int st = sx_fork(child_zero, NULL);
		sx_assert(st != 134, "using and destroying a copy-on-write-zero pool in the child does not abort");
		sx_assert(st == 0, "a child uses and destroys a copy-on-write-zero pool independently");
		sx_cover("zero child");
	} else if (op == 4) {
		if (sx_choice(2, "nothing_live")) { free_item(&c, a); free_item(&c, b); live = 0; if (grow) { free_item(&c, e); grow = 0; } }
		int st = sx_fork(child_destroy, NULL);
		sx_assert(st != 134, "destroying an initial-value pool in the child does not abort");
		sx_assert(st != 8, "destroying an initial-value pool in the child unmaps what the child has of it");
		sx_assert(st == 0, "destroying an initial-value pool in the child succeeds");
		sx_cover("init child destroy");
	} else {
		int cpu = op >> 1, st;
		void *init = sx_init_ptr(a);
		if (op == 3 && init) { st = sx_fork(child_init_access, init); sx_cover("init values in the child"); }
		else st = sx_fork(child_access, &cpu);
		sx_assert(st == 139, "the memory of an initial-value pool is not accessible in the child");
		sx_cover("init child access");
	}
	/* the parent goes on undisturbed */
	if (live) sx_assert(*(uint64_t *) at(&c, a, 0) == va && *(uint64_t *) at(&c, b, c.cpus - 1) == vb, "the parent's items are unaffected by the child");
	char *q = rseq_mempool_percpu_zmalloc(pool);
	sx_assert(q != NULL && (!live || (q != a && q != b)), "the parent can allocate");
	for (int i = 0; i < c.cpus; i++) sx_assert(at(&c, q, i)[0] == 0, "with the right content");
	free_item(&c, q);
	if (live) { free_item(&c, a); free_item(&c, b); }
	if (grow) free_item(&c, e);
	sx_assert(!rseq_mempool_destroy(pool), "and destroy the pool");
	sx_assert(sx_map_live() == 0, "completely");
	sx_cover("end");
}
