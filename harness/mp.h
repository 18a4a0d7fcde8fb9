/* Common parts of the memory-pool harnesses. */
#include "sx.h"
#include <rseq/mempool.h>
#include <errno.h>
#include <string.h>

#define ZERO RSEQ_MEMPOOL_POPULATE_COW_ZERO
#define INIT RSEQ_MEMPOOL_POPULATE_COW_INIT

struct cfg {
	int policy, robust, cpus, poison_set;
	uintptr_t poison;
	size_t item_len, stride;
	unsigned long ranges;
	size_t len;		/* item length rounded up as documented */
};

static size_t round_len(size_t n)
{
	size_t l = sizeof(void *);
	while (l < n) l <<= 1;
	return l;
}

static inline void free_item(const struct cfg *c, void *p) { librseq_mempool_percpu_free(p, c->stride); }

static struct rseq_mempool_attr *mk_attr(const struct cfg *c)
{
	struct rseq_mempool_attr *a = rseq_mempool_attr_create();
	sx_assert(a != NULL, "attribute creation succeeds");
	sx_assert(!rseq_mempool_attr_set_percpu(a, c->stride, c->cpus), "set_percpu succeeds");
	sx_assert(!rseq_mempool_attr_set_populate_policy(a, c->policy), "set_populate_policy succeeds");
	if (c->robust) sx_assert(!rseq_mempool_attr_set_robust(a), "set_robust succeeds");
	if (c->poison_set) sx_assert(!rseq_mempool_attr_set_poison(a, c->poison), "set_poison succeeds");
	if (c->ranges) sx_assert(!rseq_mempool_attr_set_max_nr_ranges(a, c->ranges), "set_max_nr_ranges succeeds");
	return a;
}

static struct rseq_mempool *mk_pool(struct cfg *c)
{
	struct rseq_mempool_attr *a = mk_attr(c);
	struct rseq_mempool *p = rseq_mempool_create("pool", c->item_len, a);
	sx_assert(p != NULL, "creation of a valid pool succeeds");
	rseq_mempool_attr_destroy(a);
	c->len = round_len(c->item_len);
	return p;
}

static inline char *at(const struct cfg *c, void *p, int cpu) { return (char *) rseq_percpu_ptr(p, cpu, c->stride); }

/* choose a configuration; robust, policy, poison and the number of CPUs vary */
static void any_cfg(struct cfg *c, int max_cpus)
{
	c->policy = sx_choice(2, "policy") ? INIT : ZERO;
	c->robust = sx_choice(2, "robust");
	c->cpus = 1 + sx_choice(max_cpus, "cpus");
	c->poison_set = 0; c->poison = 0; c->ranges = 0;
	c->stride = 4096;
}
