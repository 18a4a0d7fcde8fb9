/* C31: what the memory barriers and the acquire and release accessors order.
 * The accesses of two threads are recorded as they are executed; sx_order_solve() then assumes only
 * what compiler and processor keep in order, and the values seen are those of any such execution. */
#include <rseq/rseq.h>
#include "sx.h"
ptrdiff_t rseq_offset; unsigned int rseq_size = 32, rseq_flags;
static long data, x, y;
static uint8_t f8; static uint16_t f16; static uint32_t f32; static unsigned long fl;
static int32_t s32; static void *fp; static volatile unsigned long vl;

/* message passing: whoever sees the flag sees the data */
#define PASS(flag, T, send, recv) do { \
	typedef T T_; T_ v = (T_) sx_u64("flag value"), got = 0; long d = (long) sx_u64("data"), r = 0; \
	sx_assume(v != 0); sx_assume(d != 0); \
	sx_order_word(&data, sizeof data); sx_order_word((void *) &flag, sizeof flag); \
	sx_order_thread(1); data = d; send; \
	sx_order_thread(2); recv; r = data; \
	sx_order_solve(); \
	sx_assert(got == 0 || got == v, "the flag is read as it was stored"); \
	if (got) { sx_assert(r == d, "whoever sees the flag sees what was stored before it"); sx_cover("passed"); } \
	else sx_cover("not yet"); \
} while (0)
#define RA(flag, T) PASS(flag, T, rseq_smp_store_release(&flag, v), got = rseq_smp_load_acquire(&flag))
/* the reader stores afterwards: the writer must not have read that */
#define LATER(send, recv) do { \
	unsigned long got; long r; \
	sx_order_word(&data, sizeof data); sx_order_word(&fl, sizeof fl); \
	sx_order_thread(1); r = data; send; \
	sx_order_thread(2); recv; data = 1; \
	sx_order_solve(); \
	if (got) { sx_assert(r == 0, "a load before a release is not affected by what follows the acquire"); sx_cover("later"); } \
} while (0)

void h_main(void)
{
	switch (sx_choice(16, "litmus")) {
	case 0: RA(f8, uint8_t); break;
	case 1: RA(f16, uint16_t); break;
	case 2: RA(f32, uint32_t); break;
	case 3: RA(fl, unsigned long); break;
	case 4: RA(s32, int32_t); break;
	case 5: RA(fp, void *); break;
	case 6: RA(vl, unsigned long); break;
	case 7: PASS(fl, unsigned long, rseq_smp_wmb(); RSEQ_WRITE_ONCE(fl, v), got = RSEQ_READ_ONCE(fl); rseq_smp_rmb()); break;
	case 8: PASS(fl, unsigned long, rseq_smp_mb(); RSEQ_WRITE_ONCE(fl, v), got = RSEQ_READ_ONCE(fl); rseq_smp_mb()); break;
	case 9: PASS(fl, unsigned long, rseq_smp_store_release(&fl, v), got = RSEQ_READ_ONCE(fl); if (got) rseq_smp_acquire__after_ctrl_dep()); break;
	case 10: LATER(rseq_smp_store_release(&fl, 1), got = rseq_smp_load_acquire(&fl)); break;
	case 11: LATER(rseq_smp_mb(); RSEQ_WRITE_ONCE(fl, 1), got = RSEQ_READ_ONCE(fl); rseq_smp_mb()); break;
	case 12: {	/* store buffering */
		long a, b;
		sx_order_word(&x, sizeof x); sx_order_word(&y, sizeof y);
		sx_order_thread(1); x = 1; rseq_smp_mb(); a = y;
		sx_order_thread(2); y = 1; rseq_smp_mb(); b = x;
		sx_order_solve();
		sx_assert(a || b, "of two threads that store, pass a full barrier and load, one sees the other's store"); sx_cover("store buffering"); break; }
	case 13: {	/* the model itself: without barriers the loads may come first, on every machine */
		long a, b;
		sx_order_word(&x, sizeof x); sx_order_word(&y, sizeof y);
		sx_order_thread(1); x = 1; a = y;
		sx_order_thread(2); y = 1; b = x;
		sx_order_solve();
		if (!a && !b) sx_cover("unordered without barrier"); break; }
	case 14: {	/* a compiler barrier orders what the compiler sees */
		long a, b;
		sx_order_word(&x, sizeof x); sx_order_word(&y, sizeof y);
		sx_order_thread(1); x = 1; rseq_barrier(); y = 1; rseq_smp_mb();
		sx_order_thread(2); a = y; rseq_smp_mb(); b = x;
		sx_order_solve();
		if (a && !b) sx_cover("?weak:store order needs a processor barrier");
		if (!sx_param("weak") && a) { sx_assert(b, "a compiler barrier orders the stores of a processor that keeps store order"); sx_cover("?tso:store order kept"); }
		break; }
	default: {	/* the full barrier of one thread orders its loads before its stores */
		long a, b;
		sx_order_word(&x, sizeof x); sx_order_word(&y, sizeof y);
		sx_order_thread(1); a = x; rseq_smp_mb(); y = 1;
		sx_order_thread(2); b = y; rseq_smp_mb(); x = 1;
		sx_order_solve();
		sx_assert(!(a && b), "a load before a full barrier is not affected by what follows from the store after it"); sx_cover("load buffering"); break; }
	}
}
