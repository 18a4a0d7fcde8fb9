/* C15: every CPU's copy of every live item keeps its content whatever happens to others */
#include "mp.h"
#define N 6
static struct cfg c;
static char *it[N]; static int live[N];
static uint64_t sh[N][3][3];	/* expected first, middle and last word of each copy */

/* words of the requested length: a short item has one of that many bytes */
static char *word(int k, int cpu, int w) { return at(&c, it[k], cpu) + (c.item_len < 8 || w == 0 ? 0 : w == 1 ? (c.item_len / 2) & ~7UL : c.item_len - 8); }
static uint64_t get(int k, int cpu, int w) { char *p = word(k, cpu, w); return c.item_len == 1 ? *(uint8_t *) p : c.item_len < 8 ? *(uint32_t *) p : *(uint64_t *) p; }
static uint64_t put(int k, int cpu, int w, uint64_t v)
{
	char *p = word(k, cpu, w);
	if (c.item_len == 1) return *(uint8_t *) p = v; else if (c.item_len < 8) return *(uint32_t *) p = v; else return *(uint64_t *) p = v;
}
static void check(void)
{
	for (int k = 0; k < N; k++)
		if (live[k])
			for (int i = 0; i < c.cpus; i++)
				for (int w = 0; w < 3; w++)
					sx_assert(get(k, i, w) == sh[k][i][w], "content of a live item is unchanged");
}
static void snap(int k) { for (int i = 0; i < c.cpus; i++) for (int w = 0; w < 3; w++) sh[k][i][w] = get(k, i, w); }

void h_main(void)
{
	int steps = sx_param("steps");
	any_cfg(&c, 1); c.cpus = sx_param("cpus"); c.item_len = sx_param("len");
	if (!c.robust) c.poison_set = sx_choice(2, "poison_set");
	c.poison = 0x1122334455667788UL;
	struct rseq_mempool *pool = mk_pool(&c);
	uint64_t first[2]; first[0] = sx_u64("first"); first[1] = sx_u64("first");
	size_t il = c.item_len < 16 ? c.item_len : 16;
	it[0] = rseq_mempool_percpu_malloc_init(pool, first, il);
	it[1] = rseq_mempool_percpu_malloc_init(pool, first, il);
	sx_assert(it[0] && it[1], "allocation succeeds");
	snap(0); snap(1); live[0] = live[1] = 1;
	/* symbolic content written through one or all CPUs' copies */
	int cpu = c.cpus == 1 ? 0 : sx_choice(c.cpus + 1, "cpu");
	int w = c.item_len < 16 ? 0 : sx_choice(2, "which") * 2;
	for (int k = 0; k < 2; k++)
		for (int i = 0; i < c.cpus; i++) {
			if (cpu < c.cpus && i != cpu) continue;
			uint64_t v = sx_u64("content");
			v = put(k, i, w, v);
			for (int x = 0; x < 3; x++) if (word(k, i, x) == word(k, i, w)) sh[k][i][x] = v;
			check();
		}
	for (int s = 0; s < steps; s++) {
		int nl = 0, fr = -1, who[N];
		for (int k = 0; k < N; k++) { if (live[k]) who[nl++] = k; else if (fr < 0) fr = k; }
		int op = sx_choice(nl + 3, "op");
		if (op < nl) { live[who[op]] = 0; free_item(&c, it[who[op]]); }
		else {
			uint64_t in[2]; in[0] = 0x0123456789abcdefUL; in[1] = in[0];
			char *p = op == nl ? rseq_mempool_percpu_malloc(pool) : op == nl + 1 ? rseq_mempool_percpu_zmalloc(pool)
				: rseq_mempool_percpu_malloc_init(pool, in, il);
			sx_assert(p != NULL, "allocation from an unlimited pool succeeds");
			check();
			it[fr] = p; live[fr] = 1; snap(fr);
			/* its owner uses it */
			int w = s ? 1 : sx_choice(2, "use");
			if (w) { uint64_t v = 0xfeedfacecafebeefUL + s; v = put(fr, c.cpus - 1, 0, v); v = put(fr, c.cpus - 1, 2, v);
				for (int x = 0; x < 3; x++) if (word(fr, c.cpus - 1, x) == word(fr, c.cpus - 1, 0) || word(fr, c.cpus - 1, x) == word(fr, c.cpus - 1, 2)) sh[fr][c.cpus - 1][x] = v; }
		}
		check();
	}
	sx_cover("end");
}
