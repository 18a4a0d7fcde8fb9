/* C01-C07: the per-CPU update helpers, executed instruction by instruction.
 * The words they work on live in S. Every interruption ends one epoch and starts another with
 * arbitrary new contents; the oracle is the documented pseudo-code applied to an epoch's start. */
#ifndef RSEQ_GET_ABI_OVERRIDE
#include <rseq/rseq.h>
#endif
#include "sx.h"
#ifdef SX_MINI
void *memcpy(void *, const void *, size_t); int memcmp(const void *, const void *, size_t);
#else
#include <string.h>
#endif

#ifndef RS_OFFSET_EXTERN
ptrdiff_t rseq_offset; unsigned int rseq_size = 32, rseq_flags;
#endif
#define CAP 9
struct st {
	intptr_t g0, v, g1, v2, g2, load, g3, node[2], g4, tgt[2], g5;
	unsigned char dst[CAP + 1], src[CAP + 1];
	int32_t cpu, cid;
};
static struct st S;
static struct rseq_abi area __attribute__((aligned(32)));
enum { CBNE, CBEQ, ADD, ALLAS, CBNE2, STST, MEMCPY, NR };
static int op, mo, mode, cpu, len;
static intptr_t expect, expect2, newv, newv2, voffp, count, inc;
static struct st es[4], ee[4], obs; static int ne, observed;

static void set_ids(void)
{
	area.cpu_id_start = sx_u32("cpu_id_start"); area.cpu_id = S.cpu; area.mm_cid = S.cid; area.node_id = sx_u32("node_id");
}
/* arbitrary contents; where a helper follows a pointer, the pointer is a valid one or stops it */
static void fill(void)
{
	S.g0 = S.g1 = S.g2 = S.g3 = S.g4 = S.g5 = 0x5a5a;
	S.v2 = sx_u64("v2"); S.load = sx_u64("load");
	S.node[0] = sx_u64("node"); S.node[1] = sx_u64("node"); S.tgt[0] = sx_u64("tgt"); S.tgt[1] = sx_u64("tgt");
	S.v = sx_u64("v");
	if (op == CBEQ) {
		if (sx_choice(2, "empty")) S.v = expect;
		else S.v = (intptr_t) &S.node[sx_choice(2, "head")] - voffp;
	}
	if (op == ALLAS) { int t = sx_choice(2, "target"); S.v = (intptr_t) &S.node[sx_choice(2, "head")] - voffp; S.node[0] = (intptr_t) &S.tgt[t]; S.node[1] = (intptr_t) &S.tgt[!t]; }
	if (op == MEMCPY) { sx_bytes(S.dst, CAP, "dst"); sx_bytes(S.src, CAP, "src"); }
	S.cpu = sx_u32("cpu_id"); S.cid = sx_u32("mm_cid");
}
static int tk(const struct st *in) { return in->node[in->v + voffp != (intptr_t) &S.node[0]] != (intptr_t) &S.tgt[0]; }
/* documented effect on *o; 0 done, 1 stopped by a comparison */
static int spec(const struct st *in, struct st *o)
{
	*o = *in;
	switch (op) {
	case CBNE: if (in->v != expect) return 1; o->v = newv; return 0;
	case CBEQ: {
		if (in->v == expect) return 1;
		o->load = in->v;
		o->v = in->v + voffp == (intptr_t) &S.node[0] ? in->node[0] : in->node[1]; return 0; }
	case ADD: o->v = (intptr_t) ((uintptr_t) in->v + (uintptr_t) count); return 0;
	case ALLAS: { int k = tk(in); o->tgt[k] = (intptr_t) ((uintptr_t) in->tgt[k] + (uintptr_t) inc); return 0; }
	case CBNE2: if (in->v != expect) return 1; if (in->v2 != expect2) return 1; o->v = newv; return 0;
	case STST: if (in->v != expect) return 1; o->v2 = newv2; o->v = newv; return 0;
	default: if (in->v != expect) return 1; memcpy(o->dst, in->src, len); o->v = newv; return 0;
	}
}
/* memcmp of everything but the ids */
static int differ(const struct st *a, const struct st *b)
{
	int d = a->g0 != b->g0 || a->v != b->v || a->g1 != b->g1 || a->v2 != b->v2 || a->g2 != b->g2 || a->load != b->load || a->g3 != b->g3 ||
		a->g4 != b->g4 || a->g5 != b->g5;
	d |= a->node[0] != b->node[0]; d |= a->node[1] != b->node[1]; d |= a->tgt[0] != b->tgt[0]; d |= a->tgt[1] != b->tgt[1];
	if (op == MEMCPY) for (int i = 0; i <= CAP; i++) d |= a->dst[i] != b->dst[i] || a->src[i] != b->src[i];
	return d;
}
void h_on_interrupt(void) { ee[ne++] = S; fill(); set_ids(); es[ne] = S; }
void h_on_observe(void) { obs = S; observed = 1; }

static int call(void)
{
	switch (op) {
	case CBNE: return rseq_load_cbne_store__ptr(mo, mode, &S.v, expect, newv, cpu);
	case CBEQ: return rseq_load_cbeq_store_add_load_store__ptr(mo, mode, &S.v, expect, voffp, &S.load, cpu);
	case ADD: return rseq_load_add_store__ptr(mo, mode, &S.v, count, cpu);
#ifdef rseq_arch_has_load_add_load_load_add_store
	case ALLAS: return rseq_load_add_load_load_add_store__ptr(mo, mode, &S.v, voffp, inc, cpu);
#endif
	case CBNE2: return rseq_load_cbne_load_cbne_store__ptr(mo, mode, &S.v, expect, &S.v2, expect2, newv, cpu);
	case STST: return rseq_load_cbne_store_store__ptr(mo, mode, &S.v, expect, &S.v2, newv2, newv, cpu);
	default: return rseq_load_cbne_memcpy_store__ptr(mo, mode, &S.v, expect, S.dst, S.src, len, newv, cpu);
	}
}
/* an argument: anything, or (C06) equal to a pointer or another argument, or a small constant */
static intptr_t arg(const char *name, int shape, intptr_t a, intptr_t b)
{
	switch (shape) {
	case 1: return a;
	case 2: return b;
	case 3: return 8;
	default: return sx_u64(name);
	}
}
void h_main(void)
{
	int r, i, k, anyok = 0, match, same = sx_param("share");
	op = sx_param("op") ? sx_param("op") - 1 : sx_choice(NR, "op");
#ifndef rseq_arch_has_load_add_load_load_add_store
	if (op == ALLAS) sx_end();
#endif
	mo = sx_param("undoc") ? sx_choice(7, "mo") : 3 * sx_choice(2, "mo");
	mode = sx_param("undoc") ? sx_choice(4, "mode") : sx_choice(2, "mode");
	int doc = (mode == 0 || mode == 1) && (mo == RSEQ_MO_RELAXED || (mo == RSEQ_MO_RELEASE && (op == STST || op == MEMCPY)));
	if (!doc && !sx_param("undoc")) sx_end();
	int sh = same ? sx_choice(4, "shape") : 0, sh2 = same ? sx_choice(4, "shape2") : 0;
	expect = arg("expect", sh, (intptr_t) &S.v, (intptr_t) &S.v2);
	expect2 = arg("expect2", sh2, expect, (intptr_t) &S.v2);
	newv = arg("newv", sh2, expect, (intptr_t) &S.v);
	newv2 = arg("newv2", sh, newv, (intptr_t) &S.v2);
	voffp = arg("voffp", sh2, expect, 8); count = arg("count", sh2, (intptr_t) &S.v, 1); inc = arg("inc", sh, voffp, 1);
	if (op == MEMCPY) {
		len = sx_choice((sx_param("len") ? sx_param("len") : 3) + 1, "len");
		/* C06: the stored and the compared word may equal what the copy works on */
		if (same && sh2 == 2) { int k = sx_choice(4, "shape3"); newv = k == 0 ? (intptr_t) &S.v : k == 1 ? len : k == 2 ? (intptr_t) S.dst : (intptr_t) S.src; }
		if (same && sh == 2) { int k = sx_choice(4, "shape4"); expect = k == 0 ? (intptr_t) &S.v2 : k == 1 ? len : k == 2 ? (intptr_t) S.dst : (intptr_t) S.src; }
	}
	cpu = sx_u32("cpu");
	rseq_offset = (uintptr_t) &area - (uintptr_t) sx_thread_pointer();
	fill(); set_ids();
	sx_rseq_area(&area); sx_shared(&S, (uintptr_t) S.src + sizeof S.src - (uintptr_t) &S);
	sx_commit(op == ALLAS ? (void *) &S.tgt[tk(&S)] : (void *) &S.v); sx_release(mo == RSEQ_MO_RELEASE);
	es[0] = S;
	sx_interrupts(sx_param("irq")); sx_observers(sx_param("obs"));
	sx_step(1);
	r = call();
	sx_step(0);
	sx_interrupts(0); sx_observers(0);
	ee[ne] = S;
	struct st fin = S;
	sx_shared(&S, 0); sx_rseq_area(0);
	if (!doc) {
		sx_assert(r == -1, "an undocumented memory order or mode returns -1");
		sx_assert(!differ(&es[0], &ee[0]), "an undocumented memory order or mode changes nothing"); sx_cover("?undoc:undocumented"); return;
	}
	sx_assert(area.cpu_id == (uint32_t) es[ne].cpu && area.mm_cid == (uint32_t) es[ne].cid, "the ids in the rseq area are not written by the helper");
	match = 0;
	for (i = 0; i <= ne; i++) match |= (mode == RSEQ_PERCPU_CPU_ID ? es[i].cpu : es[i].cid) == cpu;
	struct st o;
	if (r == 0) {
		for (i = 0; i <= ne; i++) {
			int good = (mode == RSEQ_PERCPU_CPU_ID ? es[i].cpu : es[i].cid) == cpu;
			good &= spec(&es[i], &o) == 0; good &= !differ(&o, &ee[i]);
			for (k = 0; k <= ne; k++) if (k != i) good &= !differ(&es[k], &ee[k]);
			anyok |= good;
		}
		sx_assert(match, "success only on the requested CPU or id");
		sx_assert(anyok, "success means the documented effect took place, once, between two interruptions"); sx_cover("success");
		if (ne) sx_cover("?irq:success although interrupted");
	} else if (r == 1) {
		for (i = 0; i <= ne; i++) anyok |= (mode == RSEQ_PERCPU_CPU_ID ? es[i].cpu : es[i].cid) == cpu && spec(&es[i], &o) == 1;
		for (k = 0; k <= ne; k++) sx_assert(!differ(&es[k], &ee[k]), "nothing is changed when a comparison stops the helper");
		sx_assert(op != ADD && op != ALLAS, "a helper without comparison does not return 1");
		sx_assert(anyok, "1 is returned only when the comparison says so"); sx_cover("comparison");
	} else {
		sx_assert(r < 0, "result is 0, 1 or negative");
		for (k = 0; k <= ne; k++) sx_assert(es[k].v == ee[k].v && es[k].tgt[0] == ee[k].tgt[0] && es[k].tgt[1] == ee[k].tgt[1], "an aborted helper never does its final store");
		sx_assert(!differ(&es[ne], &ee[ne]), "nothing is written after the interruption, or for the wrong CPU");
		if (!ne) sx_assert(!match, "an undisturbed helper on the requested CPU does not abort");
		else sx_cover("?irq:aborted");
		if (!match) sx_cover("wrong cpu");
	}
	if (observed) {
		intptr_t a = op == ALLAS ? obs.tgt[tk(&es[0])] : obs.v, b = op == ALLAS ? es[0].tgt[tk(&es[0])] : es[0].v,
			c = op == ALLAS ? fin.tgt[tk(&es[0])] : fin.v;
		sx_assert(a == b || a == c, "the committed word only ever holds its old or its new value");
		if (a != b) { sx_assert(!differ(&obs, &fin), "whoever sees the committed word sees everything the helper stored"); sx_cover("?obs:observed after commit"); }
		sx_cover("?obs:observed");
	}
}
