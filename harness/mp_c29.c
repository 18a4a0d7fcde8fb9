/* C29: attributes */
#include "mp.h"
static int detected;
int rseq_get_max_nr_cpus(void) { return detected; }
static int cbcalls, cbpriv; static void *cbp;
static int cb(void *priv, void *addr, size_t len, int cpu) { (void) addr; (void) len; (void) cpu; cbcalls++; cbp = priv; return 0; }
static struct { int type, cpus, robust, policy, poison_set, init; uint64_t poison; size_t stride; unsigned long ranges; } m;

static void setter(struct rseq_mempool_attr *a, int k)
{
	int r;
	errno = 0;
	switch (k) {
	case 0: m.type = 0; m.stride = sx_choice(2, "s1") ? 8192 : 4096; m.cpus = sx_choice(3, "cpus"); r = rseq_mempool_attr_set_percpu(a, m.stride, m.cpus); break;
	case 1: m.type = 1; m.stride = sx_choice(2, "s2") ? 8192 : 4096; m.cpus = 1; r = rseq_mempool_attr_set_global(a, m.stride); break;
	case 2: m.robust = 1; r = rseq_mempool_attr_set_robust(a); break;
	case 3: m.policy = sx_choice(2, "pol") ? INIT : ZERO; r = rseq_mempool_attr_set_populate_policy(a, m.policy); break;
	case 4: m.poison_set = 1; m.poison = sx_u64("poison"); r = rseq_mempool_attr_set_poison(a, m.poison); break;
	case 5: m.init = 1; m.policy = INIT; r = rseq_mempool_attr_set_init(a, cb, &cbpriv); break;
	default: m.ranges = sx_choice(3, "ranges"); r = rseq_mempool_attr_set_max_nr_ranges(a, m.ranges); break;
	}
	sx_assert(r == 0, "a setter returns 0");
}
static void null_setters(void)
{
#define N(e) errno = 0; sx_assert((e) == -1 && errno == EINVAL, "a setter on a NULL attribute fails with EINVAL")
	N(rseq_mempool_attr_set_percpu(NULL, 4096, 1)); N(rseq_mempool_attr_set_global(NULL, 4096)); N(rseq_mempool_attr_set_robust(NULL));
	N(rseq_mempool_attr_set_populate_policy(NULL, ZERO)); N(rseq_mempool_attr_set_poison(NULL, 1)); N(rseq_mempool_attr_set_init(NULL, cb, NULL));
	N(rseq_mempool_attr_set_max_nr_ranges(NULL, 1)); N(rseq_mempool_get_max_nr_cpus(NULL));
}
void h_main(void)
{
	int n = sx_param("n");
	null_setters();
	detected = sx_choice(2, "detected") * 3;
	struct rseq_mempool_attr *a = NULL; struct rseq_mempool *p;
	m.stride = 65536; m.policy = INIT;
	if (!sx_param("noattr")) {
		a = rseq_mempool_attr_create(); sx_assert(a != NULL, "attribute creation succeeds");
		for (int i = 0; i < n; i++) setter(a, sx_choice(7, "setter"));
	}
	size_t item = m.stride == 65536 ? 32768 : 2048;
	int cpus = m.type ? 1 : m.cpus ? m.cpus : detected, policy = m.type ? ZERO : m.policy;
	errno = 0;
	p = rseq_mempool_create("pool", item, a);
	if (!cpus) { sx_assert(p == NULL && errno == EINVAL, "creation fails when the CPU count is unknown"); sx_cover("unknown cpus"); return; }
	sx_assert(p != NULL, "creation succeeds");
	sx_assert(m.init ? cbcalls == cpus && cbp == &cbpriv : cbcalls == 0, "the callback is the one that was set");
	if (a && sx_choice(2, "mangle")) {
		/* the pool keeps its own attributes */
		rseq_mempool_attr_set_percpu(a, 65536, 7); rseq_mempool_attr_set_robust(a); rseq_mempool_attr_set_poison(a, 0x4242);
		rseq_mempool_attr_set_populate_policy(a, policy == INIT ? ZERO : INIT); rseq_mempool_attr_set_max_nr_ranges(a, 1); rseq_mempool_attr_set_init(a, cb, NULL);
	}
	rseq_mempool_attr_destroy(a);
	errno = 0;
	int r = rseq_mempool_get_max_nr_cpus(p);
	if (m.type) sx_assert(r == -1 && errno == EINVAL, "no CPU count for global pools"); else sx_assert(r == cpus, "the configured or detected CPU count");
	struct cfg c = { .stride = m.stride, .cpus = cpus, .len = item };
	/* capacity and stride */
	char *it[8]; int per = m.stride / item, cap = m.ranges ? m.ranges * per : 3 * per, k; if (cap > 8) cap = 8;
	for (k = 0; k < cap; k++) {
		it[k] = rseq_mempool_percpu_malloc(p);
		sx_assert(it[k] != NULL, "the range limit is the one that was set");
		sx_assert(sx_mapped((uint64_t) at(&c, it[k], cpus - 1), item), "all CPUs' memory is mapped");
		if (k) sx_assert((((uintptr_t) it[k] ^ (uintptr_t) it[0]) & ~(m.stride - 1)) == 0 || k % per == 0 || k > per, "the stride is the one that was set");
		if (k == per) sx_assert(((uintptr_t) it[k] ^ (uintptr_t) it[0]) & ~(m.stride - 1), "the stride is the one that was set");
	}
	if (m.ranges && cap == (int) m.ranges * per) sx_assert(rseq_mempool_percpu_malloc(p) == NULL, "the range limit is the one that was set");
	sx_assert(cbcalls == (m.init ? cpus * ((cap + per - 1) / per) : 0), "the callback is the one that was set");
	/* populate policy */
	sx_assert((sx_init_ptr(it[0]) != NULL) == (policy == INIT), "the populate policy is the one that was set");
	/* poison */
	char *last = at(&c, it[1], cpus - 1);
	last[item - 8] = 0x66; last[8] = 0x66;
	uint64_t before = *(uint64_t *) (last + 8);
	free_item(&c, it[1]);
	uint64_t got = *(uint64_t *) (last + 8);
	if (m.poison_set) sx_assert(got == m.poison, "the poison value is the one that was set");
	else if (!m.robust) sx_assert(got == before, "no poison without setting one");
	/* robust or not */
	if (m.robust) { sx_cover("robust"); sx_expect_abort(1); free_item(&c, it[1]); sx_fail("a robust pool detects a double free"); }
	sx_assert(rseq_mempool_destroy(p) == 0, "only robust pools care about live items at destruction");
	sx_cover("end");
}
