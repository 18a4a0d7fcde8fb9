/* C26: the initialisation callback */
#include "mp.h"
static struct cfg c;
static int priv, ncalls, fail_at = -1; static struct { char *addr; size_t len; int cpu; } call[16];
static uint64_t pat[4];
static int cb(void *p, void *addr, size_t len, int cpu)
{
	sx_assert(p == &priv, "the callback gets the given private pointer");
	sx_assert(ncalls < 16, "callback is not called too often");
	call[ncalls].addr = addr; call[ncalls].len = len; call[ncalls].cpu = cpu;
	sx_assert(len == c.stride, "and the length of a CPU's memory");
	sx_assert(sx_mapped((uint64_t) addr, len), "which is mapped");
	*(uint64_t *) addr = pat[cpu < 0 ? 0 : cpu]; *(uint64_t *) ((char *) addr + len - 8) = pat[cpu < 0 ? 0 : cpu] + 1;
	return ncalls++ == fail_at ? sx_choice(2, "rc") * 2 - 1 : 0;
}
void h_main(void)
{
	int global = sx_choice(2, "global");
	any_cfg(&c, 1); c.cpus = global ? 1 : 3; c.item_len = sx_choice(2, "whole") ? 4096 : 2048;
	for (int i = 0; i < 3; i++) pat[i] = sx_u64("pattern");
	struct rseq_mempool_attr *a = rseq_mempool_attr_create();
	if (global) rseq_mempool_attr_set_global(a, c.stride); else rseq_mempool_attr_set_percpu(a, c.stride, c.cpus);
	sx_assert(!rseq_mempool_attr_set_init(a, cb, &priv), "set_init succeeds");
	if (c.robust) rseq_mempool_attr_set_robust(a);
	if (c.policy == ZERO) rseq_mempool_attr_set_populate_policy(a, ZERO);
	c.len = round_len(c.item_len);
	fail_at = sx_choice(c.cpus * 2 + 1, "fail_at") - 1;
	struct rseq_mempool *p = rseq_mempool_create("pool", c.item_len, a);
	if (fail_at >= 0 && fail_at < c.cpus) { sx_assert(p == NULL, "a failing callback makes creation fail"); sx_cover("create failed"); return; }
	sx_assert(p != NULL, "creation succeeds");
	sx_assert(ncalls == c.cpus, "one call per CPU at creation");
	int per = c.stride / c.len, want = c.cpus;
	for (int n = 0; n < per + 1; n++) {
		char *x = rseq_mempool_percpu_malloc(p);
		if (n == per) {
			want += c.cpus;
			if (fail_at >= 0) { sx_assert(x == NULL, "a failing callback makes growth fail"); sx_cover("growth failed"); return; }
		}
		sx_assert(x != NULL, "allocation succeeds");
		sx_assert(ncalls == want, "called once per CPU for each range, before any item of it is handed out");
		uintptr_t base = (uintptr_t) x & ~(c.stride - 1); int seen = 0;
		for (int k = want - c.cpus; k < want; k++) {
			int cpu = call[k].cpu;
			if (global) { sx_assert(cpu == -1 && call[k].addr == (char *) base, "global pools get CPU -1 and their memory"); continue; }
			sx_assert(cpu >= 0 && cpu < c.cpus && !(seen & 1 << cpu), "exactly once for each CPU");
			seen |= 1 << cpu;
			sx_assert(call[k].addr == (char *) base + cpu * c.stride, "with the start of that CPU's memory");
		}
		for (int i = 0; i < c.cpus; i++) {
			uint64_t *q = (uint64_t *) at(&c, x, i);
			if (!((uintptr_t) x & (c.stride - 1))) sx_assert(*q == pat[i], "what the callback wrote is the initial content");
			if ((((uintptr_t) x & (c.stride - 1)) + c.len) == c.stride) sx_assert(*(uint64_t *) ((char *) q + c.len - 8) == pat[i] + 1, "what the callback wrote is the initial content");
		}
	}
	sx_cover("end");
}
