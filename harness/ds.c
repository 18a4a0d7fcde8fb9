/* C32: per-CPU data structures as the library's users build them (counters, lists, arrays, copied
 * records, locks), used by one thread that is interrupted anywhere while others use the same
 * structures on any CPU, and that may resume on another CPU. */
#include <rseq/rseq.h>
#include "sx.h"
#ifdef SX_MINI
void *memcpy(void *, const void *, size_t);
#endif

ptrdiff_t rseq_offset; unsigned int rseq_size = 32, rseq_flags;
#define CPUS 2
#define CAP 4
struct node { intptr_t data; struct node *next; };
struct rec { unsigned char b[3]; };
static struct {
	intptr_t lock; intptr_t count, rr; intptr_t *where, **base;
	struct node *head;
	intptr_t n; struct node *item[CAP];
	intptr_t nrec; struct rec rec[CAP];
} D[CPUS];
static struct node N[7];
static struct rseq_abi area[2] __attribute__((aligned(32)));
static struct rec R[2];		/* what threads 0 and 1 store */
static int mode, what, budget, held[2] = { -1, -1 }, got_rec[2], pushed[2];
static struct node *got[2];
static intptr_t add[2];
enum { COUNT, LIST, ARRAY, RECORD, LOCK, NR };
#define MO (sx_param("release") && (what == ARRAY || what == RECORD) ? RSEQ_MO_RELEASE : RSEQ_MO_RELAXED)

static void on_cpu(int t, int cpu)
{
	area[t].cpu_id_start = area[t].cpu_id = mode == RSEQ_PERCPU_CPU_ID ? cpu : 7; area[t].mm_cid = mode == RSEQ_PERCPU_CPU_ID ? 9 : cpu;
}
static int where(int t)
{
	(void) t;
	return mode == RSEQ_PERCPU_CPU_ID ? (int) rseq_cpu_start() : (int) rseq_current_mm_cid();
}
/* each of these is what doc and tests do: try until it worked, on the CPU where we are */
static int done(int tries) { sx_assert(tries <= 2 * sx_param("irq") + 1, "an attempt fails only because of an interruption"); return 0; }
static void do_count(int t, int kind)
{
	int n = 0;
	for (;;) {
		int cpu = where(t);
#ifdef rseq_arch_has_load_add_load_load_add_store
		if (kind) { if (!rseq_load_add_load_load_add_store__ptr(RSEQ_MO_RELAXED, mode, (intptr_t *) &D[cpu].base, 0, add[t], cpu)) break; } else
#endif
		if (!rseq_load_add_store__ptr(RSEQ_MO_RELAXED, mode, &D[cpu].count, add[t], cpu)) break;
		done(++n);
	}
	(void) kind;
}
static void do_push(int t)
{
	int n = 0; struct node *e = &N[5 + t];
	for (;;) {
		int cpu = where(t); intptr_t h = (intptr_t) RSEQ_READ_ONCE(D[cpu].head);
		e->next = (struct node *) h;
		if (!rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, mode, (intptr_t *) &D[cpu].head, h, (intptr_t) e, cpu)) break;
		done(++n);
	}
	pushed[t] = 1;
}
static void do_pop(int t)
{
	int n = 0;
	for (;;) {
		int cpu = where(t), r; intptr_t e = 0;
		r = rseq_load_cbeq_store_add_load_store__ptr(RSEQ_MO_RELAXED, mode, (intptr_t *) &D[cpu].head, 0, offsetof(struct node, next), &e, cpu);
		if (!r) { got[t] = (struct node *) e; break; }
		if (r > 0) break;	/* empty */
		done(++n);
	}
}
static void do_apush(int t)
{
	int n = 0;
	for (;;) {
		int cpu = where(t); intptr_t o = RSEQ_READ_ONCE(D[cpu].n);
		if (o == CAP) break;
		if (!rseq_load_cbne_store_store__ptr(MO, mode, &D[cpu].n, o, (intptr_t *) &D[cpu].item[o], (intptr_t) &N[5 + t], o + 1, cpu)) { pushed[t] = 1; break; }
		done(++n);
	}
}
static void do_apop(int t)
{
	int n = 0;
	for (;;) {
		int cpu = where(t); intptr_t o = RSEQ_READ_ONCE(D[cpu].n);
		if (!o) break;
		intptr_t e = (intptr_t) RSEQ_READ_ONCE(D[cpu].item[o - 1]);
		if (!rseq_load_cbne_load_cbne_store__ptr(RSEQ_MO_RELAXED, mode, &D[cpu].n, o, (intptr_t *) &D[cpu].item[o - 1], e, o - 1, cpu)) { got[t] = (struct node *) e; break; }
		done(++n);
	}
}
static void do_rpush(int t)
{
	int n = 0;
	for (;;) {
		int cpu = where(t); intptr_t o = RSEQ_READ_ONCE(D[cpu].nrec);
		if (o == CAP) break;
		if (!rseq_load_cbne_memcpy_store__ptr(MO, mode, &D[cpu].nrec, o, &D[cpu].rec[o], &R[t], sizeof R[t], o + 1, cpu)) { pushed[t] = 1; break; }
		done(++n);
	}
}
static struct rec rgot[2];
static void do_rpop(int t)
{
	int n = 0;
	for (;;) {
		int cpu = where(t); intptr_t o = RSEQ_READ_ONCE(D[cpu].nrec);
		if (!o) break;
		if (!rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELAXED, mode, &D[cpu].nrec, o, &rgot[t], &D[cpu].rec[o - 1], sizeof rgot[t], o - 1, cpu)) { got_rec[t] = 1; break; }
		done(++n);
	}
}
static void do_lock(int t)
{
	int n = 0;
	for (;;) {
		int cpu = where(t), r;
		r = rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, mode, &D[cpu].lock, 0, 1, cpu);
		if (!r) { rseq_smp_acquire__after_ctrl_dep(); held[t] = cpu; break; }
		if (r > 0) break;	/* taken: this user gives up */
		done(++n);
	}
}
static int kind[2];
static void operation(int t)
{
	switch (what) {
	case COUNT: do_count(t, kind[t]); break;
	case LIST: if (kind[t]) do_pop(t); else do_push(t); break;
	case ARRAY: if (kind[t]) do_apop(t); else do_apush(t); break;
	case RECORD: if (kind[t]) do_rpop(t); else do_rpush(t); break;
	default: do_lock(t); break;
	}
}
static int cpu0, ran, obudget;
static void other(int cpu)
{
	ptrdiff_t off = rseq_offset;
	ran = 1;
	on_cpu(1, cpu);
	sx_rseq_area(&area[1]); rseq_offset = (uintptr_t) &area[1] - (uintptr_t) sx_thread_pointer();
	operation(1);
	rseq_offset = off; sx_rseq_area(&area[0]);
	sx_cover("other thread ran meanwhile");
}
/* this thread is interrupted; others may run on any CPU, and it may resume on another one */
void h_on_interrupt(void)
{
	sx_interrupts(0); sx_observers(0); budget--;
	if (!ran && !sx_param("conc") && sx_choice(2, "other thread runs")) other(sx_choice(CPUS, "its cpu"));
	cpu0 = sx_choice(CPUS, "resume on cpu"); on_cpu(0, cpu0);
	sx_interrupts(budget); sx_observers(obudget);
}
/* a thread on another CPU looks at what is published */
static void look(void)
{
	for (int c = 0; c < CPUS; c++) {
		struct node *e = D[c].head; int k, i, known;
		if (what == LIST) { for (k = 0; e && k < 8; k++, e = e->next) ; sx_assert(!e, "a reader sees a whole list at any time"); }
		if (what == ARRAY) for (k = 0; k < CAP; k++) if (k < D[c].n) {
			for (known = i = 0; i < 7; i++) known |= D[c].item[k] == &N[i];
			sx_assert(known, "a reader sees a published element at any time");
		}
		if (what == RECORD) for (k = 0; k < CAP; k++) if (k < D[c].nrec)
			sx_assert(D[c].rec[k].b[0] == D[c].rec[k].b[1] && D[c].rec[k].b[1] == D[c].rec[k].b[2] && D[c].rec[k].b[0] < 7 && (D[c].rec[k].b[0] || (!c && !k)), "a reader sees a whole published record at any time");
	}
	sx_cover("?conc:reader");
}
/* a thread on another CPU runs while this one goes on */
void h_on_observe(void)
{
	sx_interrupts(0); sx_observers(0); obudget--;
	if (sx_choice(2, "look")) look();
	else if (!ran) other(!cpu0);
	sx_interrupts(budget); sx_observers(obudget);
}
void h_main(void)
{
	int c, i, k;
	mode = sx_param("conc") ? RSEQ_PERCPU_CPU_ID : sx_choice(2, "mode"); what = sx_choice(NR, "structure"); kind[0] = sx_choice(2, "kind"); kind[1] = sx_choice(2, "kind");
	if (sx_param("release") && what != ARRAY && what != RECORD) sx_end();
	if (what == LOCK && (kind[0] || kind[1])) sx_end();
	add[0] = sx_u64("add"); add[1] = sx_u64("add");
	intptr_t sum = 0, isum = 0; int init = sx_param("conc") ? 1 : sx_choice(3, "filled");
	for (c = 0; c < CPUS; c++) {
		D[c].count = sx_u64("count"); sum += D[c].count;
		D[c].rr = sx_u64("count"); isum += D[c].rr; D[c].where = &D[c].rr; D[c].base = &D[c].where;
		for (i = 0; i < init; i++) {
			struct node *e = &N[2 * c + i];
			e->next = D[c].head; D[c].head = e;
			D[c].item[D[c].n++] = e;
			D[c].rec[D[c].nrec].b[0] = D[c].rec[D[c].nrec].b[1] = D[c].rec[D[c].nrec].b[2] = 2 * c + i; D[c].nrec++;
		}
	}
	for (i = 0; i < 2; i++) R[i].b[0] = R[i].b[1] = R[i].b[2] = 5 + i;
	cpu0 = sx_choice(CPUS, "cpu"); on_cpu(0, cpu0); on_cpu(1, 0);
	rseq_offset = (uintptr_t) &area[0] - (uintptr_t) sx_thread_pointer();
	sx_rseq_area(&area[0]);
	budget = sx_param("irq"); sx_interrupts(budget); obudget = sx_param("conc"); sx_observers(obudget);
	sx_step(1);
	operation(0);
	sx_step(0);
	sx_interrupts(0); sx_rseq_area(0);
	int seen[7] = { 0 };
	switch (what) {
	case COUNT: {
		intptr_t a = 0, b = 0;
		for (c = 0; c < CPUS; c++) { a += D[c].count; b += D[c].rr; sx_assert(D[c].where == &D[c].rr && D[c].base == &D[c].where, "a pointer that is only read stays"); }
		for (i = 0; i < 1 + ran; i++) if (kind[i]) isum += add[i]; else sum += add[i];
#ifndef rseq_arch_has_load_add_load_load_add_store
		a += b; sum += isum; b = isum = 0;
#endif
		sx_assert(a == sum && b == isum, "no increment of a per-CPU counter is lost or done twice"); sx_cover("?all:counter"); break; }
	case LIST:
		for (c = 0; c < CPUS; c++) {
			struct node *e = D[c].head;
			for (k = 0; e && k < 8; k++, e = e->next) { for (i = 0; i < 7; i++) if (e == &N[i]) seen[i]++; }
			sx_assert(!e, "a per-CPU list stays finite");
		}
		for (i = 0; i < 2; i++) for (k = 0; k < 7; k++) if (got[i] == &N[k]) seen[k]++;
		goto all;
	case ARRAY:
		for (c = 0; c < CPUS; c++) {
			sx_assert(D[c].n >= 0 && D[c].n <= CAP, "a per-CPU array stays in bounds");
			for (k = 0; k < CAP; k++) for (i = 0; i < 7; i++) if (k < D[c].n && D[c].item[k] == &N[i]) seen[i]++;
		}
		for (i = 0; i < 2; i++) for (k = 0; k < 7; k++) if (got[i] == &N[k]) seen[k]++;
	all:
		for (i = 0; i < 7; i++) {
			int want = i < 5 ? i < 4 && (i & 1) + 1 <= init : pushed[i - 5];
			sx_assert(seen[i] == want, "every element of the per-CPU lists is in one of them or was taken once");
		}
		sx_cover("elements"); break;
	case RECORD:
		for (c = 0; c < CPUS; c++) {
			sx_assert(D[c].nrec >= 0 && D[c].nrec <= CAP, "a per-CPU record array stays in bounds");
			for (k = 0; k < CAP; k++) if (k < D[c].nrec) {
				sx_assert(D[c].rec[k].b[0] == D[c].rec[k].b[1] && D[c].rec[k].b[1] == D[c].rec[k].b[2] && D[c].rec[k].b[0] < 7, "a published record is whole");
				seen[D[c].rec[k].b[0]]++;
			}
		}
		for (i = 0; i < 2; i++) if (got_rec[i]) { sx_assert(rgot[i].b[0] == rgot[i].b[1] && rgot[i].b[1] == rgot[i].b[2] && rgot[i].b[0] < 7, "a record that was taken is whole"); seen[rgot[i].b[0]]++; }
		for (i = 0; i < 7; i++) {
			int want = i < 4 ? (i & 1) + 1 <= init : i < 5 ? 0 : pushed[i - 5];
			sx_assert(seen[i] == want, "every record is in one of the per-CPU arrays or was taken once");
		}
		sx_cover("records"); break;
	default:
		for (c = 0; c < CPUS; c++) {
			int h = (held[0] == c) + (held[1] == c);
			sx_assert(h <= 1, "a per-CPU lock has at most one holder"); sx_assert(D[c].lock == h, "a per-CPU lock is taken exactly when somebody holds it");
		}
		if (!ran) sx_assert(held[0] >= 0, "a free lock is taken");
		sx_cover("?all:lock");
	}
}
