/* C24: two threads on one pool: no race, no item twice, no lost free, no deadlock */
#include "mp.h"
static struct cfg c;
static struct rseq_mempool *pool;
static struct th { char *own, *got[2]; int op[2], n; } t[3];

static void run(void *x)
{
	struct th *h = x; uint64_t in = 0xabcdef;
	for (int k = 0; k < h->n; k++) {
		char *p;
		switch (h->op[k]) {
		case 0: h->got[k] = p = rseq_mempool_percpu_malloc(pool); break;
		case 1: h->got[k] = p = rseq_mempool_percpu_zmalloc(pool); if (p) sx_assert(*(uint64_t *) at(&c, p, 1) == 0, "zeroed"); break;
		case 2: h->got[k] = p = rseq_mempool_percpu_malloc_init(pool, &in, 8); if (p) sx_assert(*(uint64_t *) at(&c, p, 1) == in, "initialised"); break;
		default: p = NULL; if (h->own) { char *q = h->own; h->own = NULL; free_item(&c, q); } else if (k && h->got[0]) { char *q = h->got[0]; h->got[0] = NULL; free_item(&c, q); } break;
		}
		/* owners use their items: a second owner would race */
		if (p) { *(volatile uint64_t *) at(&c, p, 0) = 1; *(uint64_t *) (at(&c, p, 1) + 8) = 2; }
		else if (h->op[k] < 3) sx_assert(errno == ENOMEM, "errno belongs to the thread");
	}
}
void h_main(void)
{
	int nt = sx_param("threads"), nops = sx_param("ops");
	any_cfg(&c, 1); c.cpus = 2; c.item_len = sx_param("len"); c.ranges = sx_param("lite") ? 1 : sx_choice(2, "limit") + 1;
	c.poison_set = c.robust; c.poison = 0x5050505050505050UL;
	pool = mk_pool(&c);
	int cap = c.ranges * (c.stride / c.len), live = 0;
	for (int i = 0; i < nt; i++) {
		if ((sx_param("lite") ? i == 1 : sx_choice(2, "owns")) && live < cap) { t[i].own = rseq_mempool_percpu_malloc(pool); sx_assert(t[i].own != NULL, "allocation"); live++; }
		t[i].n = nops;
		for (int k = 0; k < nops; k++) t[i].op[k] = i == 0 ? sx_choice(4, "op") : sx_choice(2, "op2") * 3;
	}
	sx_preempt_bound(sx_param("preempt") ? sx_param("preempt") : 100);
	for (int i = 0; i < nt; i++) sx_spawn(run, &t[i]);
	sx_join_all();
	sx_races(0);
	char *l[16]; int n = 0;
	for (int i = 0; i < nt; i++) { if (t[i].own) l[n++] = t[i].own; for (int k = 0; k < nops; k++) if (t[i].got[k]) l[n++] = t[i].got[k]; }
	for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) {
		uintptr_t a = (uintptr_t) l[i], b = (uintptr_t) l[j];
		sx_assert(a + c.len <= b || b + c.len <= a, "no item is handed out twice");
	}
	/* no free is lost: the rest of the capacity is available */
	char *q[16]; int m = 0;
	while (m < 16 && (q[m] = rseq_mempool_percpu_malloc(pool))) {
		for (int i = 0; i < n; i++) sx_assert(q[m] != l[i], "no item is handed out twice");
		m++;
	}
	sx_assert(n + m == cap, "no free is lost and none is invented");
	for (int i = 0; i < n; i++) free_item(&c, l[i]);
	for (int i = 0; i < m; i++) free_item(&c, q[i]);
	sx_assert(!rseq_mempool_destroy(pool), "destroy succeeds");
	sx_cover("end");
}
