/* C20: any resource failure is reported and leaks nothing */
#include "mp.h"
static struct cfg c;
static int calls, fail_at = -1;
static int cb(void *priv, void *addr, size_t len, int cpu) { (void) priv; (void) len; (void) cpu; *(char *) addr = 1; return calls++ == fail_at ? -1 : 0; }
static void use(struct rseq_mempool *p, int n)
{
	for (int i = 0; i < n; i++) {
		char *q = rseq_mempool_percpu_zmalloc(p);
		sx_assert(q != NULL, "the pool is usable");
		for (int k = 0; k < c.cpus; k++) { sx_assert(at(&c, q, k)[0] == 0, "content is right"); at(&c, q, k)[1] = 1; }
		free_item(&c, q);
	}
}
void h_main(void)
{
	int sc = sx_param("scenario"), budget = sx_param("budget");
	any_cfg(&c, 1); c.cpus = 2; c.item_len = 2048;
	int cbk = sc >= 2 ? sx_choice(2, "callback") : 0;
	if (sx_choice(2, "descriptor 0")) sx_fd_first(0);
	if (sc == 0) {
		sx_faults(1); errno = 0;
		struct rseq_mempool_attr *a = rseq_mempool_attr_create();
		if (!a) { sx_assert(errno == ENOMEM && sx_fault_fired(), "attribute creation fails only without memory, with ENOMEM"); sx_cover("attr failed"); }
		rseq_mempool_attr_destroy(a);
		sx_assert(sx_heap_live() == 0, "nothing leaks");
		sx_faults(1); errno = 0; int f = sx_fault_fired();
		struct rseq_mempool_set *s = rseq_mempool_set_create();
		if (!s) { sx_assert(errno == ENOMEM && sx_fault_fired() > f, "set creation fails only without memory, with ENOMEM"); sx_assert(sx_heap_live() == 0, "nothing leaks"); sx_cover("set failed"); }
		else { sx_faults(0); sx_assert(!rseq_mempool_set_destroy(s) && sx_heap_live() == 0, "set destroyed"); }
		return;
	}
	struct rseq_mempool *old = NULL; char *it = NULL;
	struct cfg oc = c;
	if (sc == 1 && sx_choice(2, "old")) { old = mk_pool(&oc); it = rseq_mempool_percpu_zmalloc(old); at(&oc, it, 1)[5] = 42; }
	struct rseq_mempool_attr *a = mk_attr(&c);
	c.len = round_len(c.item_len);
	if (cbk) { rseq_mempool_attr_set_init(a, cb, NULL); c.policy = sx_choice(2, "cbpolicy") ? INIT : ZERO; rseq_mempool_attr_set_populate_policy(a, c.policy); }
	int h = sx_heap_live(), fd = sx_fd_live(); uint64_t ml = sx_map_live();
	struct rseq_mempool *p;
	if (sc == 1 || sc == 2) {
		if (cbk) fail_at = sx_choice(c.cpus + 1, "fail_at") - 1;
		sx_faults(budget); errno = 0;
		p = rseq_mempool_create(sx_choice(2, "named") ? "pool" : NULL, c.item_len, a);
		sx_faults(0);
		if (!p) {
			sx_assert(sx_fault_fired() || fail_at >= 0, "creation fails only when a step failed");
			sx_assert(errno != 0, "errno is set");
			sx_assert(sx_heap_live() == h && sx_fd_live() == fd && sx_map_live() == ml, "failed creation releases everything it acquired");
			sx_cover("create failed");
			if (old) { for (int i = 0; i < 6; i++) sx_assert(at(&oc, it, 1)[i] == (i == 5 ? 42 : 0), "older pools are unaffected"); sx_assert(rseq_mempool_percpu_malloc(old) != NULL, "and usable"); }
			/* and works when tried again */
			fail_at = -1;
			p = rseq_mempool_create("again", c.item_len, a);
			sx_assert(p != NULL, "creation succeeds afterwards");
		} else sx_assert(fail_at < 0, "a failing callback makes creation fail");
		sx_assert(sx_fd_live() == fd, "no descriptor stays open");
		use(p, 2);
	} else {
		/* growth */
		p = rseq_mempool_create("pool", c.item_len, a);
		sx_assert(p != NULL, "creation succeeds");
		char *x = rseq_mempool_percpu_malloc(p), *y = rseq_mempool_percpu_zmalloc(p);
		sx_assert(x && y, "allocation succeeds");
		uint64_t v = sx_u64("content");
		*(uint64_t *) at(&c, x, 0) = v; *(uint64_t *) at(&c, y, 1) = v;
		if (cbk) { calls = 0; fail_at = sx_choice(c.cpus + 1, "fail_at") - 1; }
		h = sx_heap_live(); fd = sx_fd_live(); ml = sx_map_live();
		sx_faults(budget); errno = 0;
		int z = sx_choice(2, "zeroed");
		char *q = z ? rseq_mempool_percpu_zmalloc(p) : rseq_mempool_percpu_malloc(p);
		sx_faults(0);
		if (!q) {
			sx_assert(sx_fault_fired() || fail_at >= 0, "growth fails only when a step failed");
			sx_assert(errno == ENOMEM, "errno is ENOMEM");
			sx_assert(sx_heap_live() == h && sx_fd_live() == fd && sx_map_live() == ml, "failed growth releases everything it acquired");
			sx_cover("growth failed");
			fail_at = -1;
			q = rseq_mempool_percpu_zmalloc(p);
			sx_assert(q != NULL, "the pool grows afterwards");
		} else sx_assert(fail_at < 0, "a failing callback makes growth fail");
		sx_assert(sx_fd_live() == fd, "no descriptor stays open");
		sx_assert(*(uint64_t *) at(&c, x, 0) == v && *(uint64_t *) at(&c, y, 1) == v, "live items are unaffected");
		for (int i = 0; i < c.cpus; i++) { sx_assert(sx_mapped((uint64_t) at(&c, q, i), c.len), "new item is mapped"); at(&c, q, i)[0] = 1; at(&c, q, i)[c.len - 1] = 1; }
		free_item(&c, x); free_item(&c, y); free_item(&c, q);
		use(p, 4);
	}
	sx_assert(rseq_mempool_destroy(p) == 0, "destroy succeeds");
	if (!old) sx_assert(sx_map_live() == 0 && sx_fd_live() == 0, "destroy releases everything");
	sx_cover("end");
}
