/* C33: per-CPU addressing, the default stride and the wrappers for global pools and sets */
#include "mp.h"
int rseq_get_max_nr_cpus(void) { return 2; }
struct odd { char x[12]; };
static int same_type(void)
{
	struct odd *p = 0; int *q = 0;
	return __builtin_types_compatible_p(__typeof__(rseq_percpu_ptr(p, 1)), struct odd *) && __builtin_types_compatible_p(__typeof__(rseq_percpu_ptr(q, 1, 4096)), int *);
}
static void arith(void)
{
	uintptr_t a = sx_u64("pointer"); size_t s = sx_u64("stride"), s2 = sx_u64("more"); uint32_t u = sx_u32("cpu"), d = sx_u32("cpu'");
	struct odd *p = (struct odd *) a; int cpu = (int) u;
	sx_assume(cpu >= 0); sx_assume((int) d >= 0);
	sx_assert(same_type(), "the pointer keeps its type");
	sx_assert((uintptr_t) rseq_percpu_ptr(p, cpu, s) == a + (uintptr_t) u * s, "the item of a CPU is cpu strides further");
	sx_assert((uintptr_t) rseq_percpu_ptr(p, u, s) == a + (uintptr_t) u * s, "the item of a CPU is cpu strides further");
	sx_assert((uintptr_t) rseq_percpu_ptr(p, (long) cpu, (unsigned) s) == a + (uintptr_t) u * (uint32_t) s, "the item of a CPU is cpu strides further");
	sx_assert((uintptr_t) rseq_percpu_ptr(p, cpu) == a + (uintptr_t) u * 65536, "a stride that is left out is the default");
	sx_assert((uintptr_t) rseq_percpu_ptr(p, cpu, RSEQ_MEMPOOL_STRIDE) == a + (uintptr_t) u * 65536, "the default stride is 64 kB");
	/* arguments are expressions, evaluated once */
	sx_assert((uintptr_t) rseq_percpu_ptr(p + 1, cpu, s) == a + 12 + (uintptr_t) u * s, "the pointer may be an expression");
	sx_assert((uintptr_t) (rseq_percpu_ptr(p, cpu, s) + 1) == a + 12 + (uintptr_t) u * s, "the result can be indexed");
	sx_assert((uintptr_t) rseq_percpu_ptr(p, u & d, s) == a + (uintptr_t) (u & d) * s, "the CPU number may be an expression");
	sx_assert((uintptr_t) rseq_percpu_ptr(p, cpu, s + s2) == a + (uintptr_t) u * (s + s2), "the stride may be an expression");
	sx_assert((uintptr_t) rseq_percpu_ptr(p, cpu, s2 > 9 ? s : s2) == a + (uintptr_t) u * (s2 > 9 ? s : s2), "the stride may be an expression");
	struct odd *w = p; int k = cpu; size_t z = s;
	sx_assert((uintptr_t) rseq_percpu_ptr(w++, k--, z--) == a + (uintptr_t) u * s && w == p + 1 && k == cpu - 1 && z == s - 1, "arguments are evaluated once");
	sx_cover("arithmetic");
}
static struct rseq_mempool *pool; static struct rseq_mempool_set *set;
static unsigned char init[64]; static size_t ilen;
static unsigned char *get(int kind)
{
	unsigned char *p; size_t n = ilen;
	switch (kind) {
	case 0: p = rseq_mempool_malloc(pool); break;
	case 1: p = rseq_mempool_zmalloc(pool); break;
	case 2: p = rseq_mempool_malloc_init(pool, init, n); break;
	case 3: p = rseq_mempool_set_malloc(set, n); break;
	case 4: p = rseq_mempool_set_zmalloc(set, n); break;
	default: p = rseq_mempool_set_malloc_init(set, init, n); break;
	}
	sx_assert(p != NULL, "allocation succeeds");
	sx_assert(sx_mapped((uint64_t) p, 64), "the item can be used directly");
	for (unsigned i = 0; i < n; i++) {
		if (kind == 1 || kind == 4) sx_assert(!p[i], "zeroed memory");
		if (kind == 2 || kind == 5) sx_assert(p[i] == init[i], "initialised memory");
	}
	if (kind == 1) for (unsigned i = n; i < 64; i++) sx_assert(!p[i], "zeroed memory");
	return p;
}
static void pools(void)
{
	/* no attributes, stride 0 (both mean the default) or another stride; both pool types */
	int how = sx_choice(5, "how"), custom = how >= 3, global = how == 2 || how == 4, sets = sx_choice(2, "set"), robust = how && sx_choice(2, "robust");
	size_t stride = custom ? 16384 : 65536;
	struct rseq_mempool_attr *a = NULL;
	if (how) {
		a = rseq_mempool_attr_create();
		sx_assert(a && !(global ? rseq_mempool_attr_set_global(a, custom ? stride : 0) : rseq_mempool_attr_set_percpu(a, custom ? stride : 0, 0)), "attributes");
		if (robust) rseq_mempool_attr_set_robust(a);
	}
	pool = rseq_mempool_create("x", 64, a);
	rseq_mempool_attr_destroy(a);
	sx_assert(pool != NULL, "creation succeeds");
	sx_bytes(init, 64, "init"); ilen = sx_choice(2, "length") ? 64 : 33;
	if (sets) { set = rseq_mempool_set_create(); sx_assert(set && !rseq_mempool_set_add_pool(set, pool), "a set"); }
	if (!global && !sets) {
		/* a CPU's memory is a stride away */
		unsigned char *p = rseq_mempool_percpu_zmalloc(pool), *q = rseq_mempool_percpu_zmalloc(pool);
		sx_assert(p && q, "allocation succeeds");
		unsigned char *c1 = custom ? rseq_percpu_ptr(p, 1, stride) : rseq_percpu_ptr(p, 1), *d1 = custom ? rseq_percpu_ptr(q, 1, stride) : rseq_percpu_ptr(q, 1);
		sx_assert(sx_mapped((uint64_t) c1, 64), "the second CPU's memory");
		for (unsigned i = 0; i < 64; i++) { sx_assert(!c1[i] && !d1[i], "zeroed memory on the second CPU"); c1[i] = 1; d1[i] = 2; }
		for (unsigned i = 0; i < 64; i++) sx_assert(!p[i] && !q[i] && c1[i] == 1, "CPUs and items are separate");
		if (custom) { rseq_mempool_percpu_free(p, stride); rseq_mempool_percpu_free(q, stride); } else { rseq_mempool_percpu_free(p); rseq_mempool_percpu_free(q); }
		sx_cover("per-cpu");
	} else {
		int k = sx_choice(3, "kind") + 3 * sets, n = sx_choice(3, "other") + 3 * sets;
		unsigned char *p = get(k), *q;
		for (unsigned i = 0; i < 64; i++) p[i] = i ^ 0x41;
		q = get(n);
		sx_assert(q >= p + 64 || p >= q + 64, "items are separate");
		for (unsigned i = 0; i < 64; i++) q[i] = 0x5a;
		for (unsigned i = 0; i < 64; i++) sx_assert(p[i] == (i ^ 0x41), "items are separate");
		if (custom) rseq_mempool_free(p, stride); else rseq_mempool_free(p);
		/* the freed item is the pool's again, and the other one still the caller's */
		unsigned char *r = get(n);
		sx_assert(r == p, "the freed item is allocated again");
		for (unsigned i = 0; i < 64; i++) sx_assert(q[i] == 0x5a, "items are separate");
		struct odd *o = (struct odd *) (r - 12);
		if (custom) { rseq_mempool_free(o + 1, stride); rseq_mempool_free(q, stride + 0); } else { rseq_mempool_free(o + 1); rseq_mempool_free(q); }
		sx_cover("global");
	}
	/* everything was freed: a robust pool is destroyed without complaint */
	sx_assert(!(sets ? rseq_mempool_set_destroy(set) : rseq_mempool_destroy(pool)), "destroy succeeds");
	if (robust) sx_cover("robust"); if (sets) sx_cover("set");
}
void h_main(void) { if (sx_param("arith")) arith(); else pools(); }
