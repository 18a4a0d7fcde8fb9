From 0c3e53a8375287fa673a3f2b657674b1e59d3d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:42 +0000
Subject: [PATCH 01/17] fix: mempool set: honor the content given to
 rseq_mempool_set_percpu_malloc_init

rseq_mempool_set_percpu_malloc_init() requested a zeroed allocation, so
the given initial content was ignored.
---
 src/rseq-mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 061d38f..67cb683 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -1290,7 +1290,7 @@ void __rseq_percpu *rseq_mempool_set_percpu_zmalloc(struct rseq_mempool_set *poo
 void __rseq_percpu *rseq_mempool_set_percpu_malloc_init(struct rseq_mempool_set *pool_set,
 		void *init_ptr, size_t len)
 {
-	return __rseq_mempool_set_malloc(pool_set, init_ptr, len, true);
+	return __rseq_mempool_set_malloc(pool_set, init_ptr, len, false);
 }
 
 struct rseq_mempool_attr *rseq_mempool_attr_create(void)
-- 
2.43.0


From 6676ced26735867d0a967ae17044534347dde6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:42 +0000
Subject: [PATCH 02/17] fix: mempool: reject item lengths above the largest
 power of two

An item length above 2^63 (2^31 on 32-bit) has no power of two item
length representable in a size_t. The shift by the word size created a
pool with 1-byte items instead of failing.
---
 src/rseq-mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 67cb683..8c542a4 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -937,7 +937,7 @@ struct rseq_mempool *rseq_mempool_create(const char *pool_name,
 
 	/* Align item_len on next power of two. */
 	order = rseq_get_count_order_ulong(item_len);
-	if (order < 0) {
+	if (order < 0 || order >= RSEQ_BITS_PER_LONG) {
 		errno = EINVAL;
 		return NULL;
 	}
-- 
2.43.0


From 13880589bb788fec6d7d4b25a1486d47e9364010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:42 +0000
Subject: [PATCH 03/17] fix: mempool: return -1 from rseq_mempool_destroy when
 unmapping fails

The pool was not destroyed but 0 was returned.
---
 src/rseq-mempool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 8c542a4..6700d63 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -913,6 +913,7 @@ int rseq_mempool_destroy(struct rseq_mempool *pool)
 		if (rseq_mempool_range_destroy(pool, range, mapping_accessible)) {
 			/* Keep list coherent in case of partial failure. */
 			list_add(&range->node, &pool->range_list);
+			ret = -1;
 			goto end;
 		}
 	}
-- 
2.43.0


From 7dbc27f15d1c8c2160a2843d3a2a5431fad54fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:42 +0000
Subject: [PATCH 04/17] fix: mempool: fail with ENOMEM when the range length
 overflows

The multiplication of the stride by the number of CPUs and the sum with
the header and alignment lengths could overflow, which either tripped an
assertion or mapped less memory than the pool needs.
---
 src/rseq-mempool.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 6700d63..d38877d 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -745,6 +745,7 @@ struct rseq_mempool_range *rseq_mempool_range_create(struct rseq_mempool *pool)
 	void *base;
 	size_t range_len;	/* Range len excludes header. */
 	size_t header_len;
+	size_t nr_strides;
 	int memfd = -1;
 
 	if (pool->attr.max_nr_ranges &&
@@ -755,11 +756,17 @@ struct rseq_mempool_range *rseq_mempool_range_create(struct rseq_mempool *pool)
 	page_size = rseq_get_page_len();
 
 	header_len = POOL_HEADER_NR_PAGES * page_size;
-	range_len = pool->attr.stride * pool->attr.max_nr_cpus;
+	nr_strides = pool->attr.max_nr_cpus;
 	if (pool->attr.populate_policy == RSEQ_MEMPOOL_POPULATE_COW_INIT)
-		range_len += pool->attr.stride;	/* init values */
+		nr_strides++;	/* init values */
 	if (pool->attr.robust_set)
-		range_len += pool->attr.stride;	/* dedicated free list */
+		nr_strides++;	/* dedicated free list */
+	/* The mapping length includes header and alignment. */
+	if (nr_strides > (SIZE_MAX - header_len - pool->attr.stride) / pool->attr.stride) {
+		errno = ENOMEM;
+		return NULL;
+	}
+	range_len = pool->attr.stride * nr_strides;
 	base = aligned_mmap_anonymous(page_size, range_len,
 			pool->attr.stride, &header, header_len);
 	if (!base)
-- 
2.43.0


From 4bc06acff4c7939ced24187a170745620d5349ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:42 +0000
Subject: [PATCH 05/17] fix: mempool: allow destroy of robust COW_INIT pool
 with live items in child

After fork, the child process cannot access nor free the items of a
COW_INIT pool, but destroying the robust pool there aborted on the leak
check.
---
 src/rseq-mempool.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index d38877d..0b77630 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -574,7 +574,8 @@ void check_pool_poison(const struct rseq_mempool *pool, bool mapping_accessible)
 
 /* Always inline for __builtin_return_address(0). */
 static inline __attribute__((always_inline))
-void destroy_alloc_bitmap(struct rseq_mempool *pool, struct rseq_mempool_range *range)
+void destroy_alloc_bitmap(struct rseq_mempool *pool, struct rseq_mempool_range *range,
+		bool mapping_accessible)
 {
 	unsigned long *bitmap = range->alloc_bitmap;
 	size_t count, total_leaks = 0;
@@ -582,6 +583,13 @@ void destroy_alloc_bitmap(struct rseq_mempool *pool, struct rseq_mempool_range *
 	if (!bitmap)
 		return;
 
+	/*
+	 * The items belong to the parent process when the mappings are
+	 * not accessible.
+	 */
+	if (!mapping_accessible)
+		goto end;
+
 	count = ((pool->attr.stride >> pool->item_order) + BIT_PER_ULONG - 1) / BIT_PER_ULONG;
 
 	/* Assert that all items in the pool were freed. */
@@ -592,7 +600,7 @@ void destroy_alloc_bitmap(struct rseq_mempool *pool, struct rseq_mempool_range *
 			__func__, get_pool_name(pool), pool, total_leaks, (void *) __builtin_return_address(0));
 		abort();
 	}
-
+end:
 	free(bitmap);
 	range->alloc_bitmap = NULL;
 }
@@ -603,7 +611,7 @@ int rseq_mempool_range_destroy(struct rseq_mempool *pool,
 		struct rseq_mempool_range *range,
 		bool mapping_accessible)
 {
-	destroy_alloc_bitmap(pool, range);
+	destroy_alloc_bitmap(pool, range, mapping_accessible);
 	if (!mapping_accessible) {
 		/*
 		 * Only the header pages are populated in the child
-- 
2.43.0


From 99392dc6e270dc15fb1df78c580d580a092c863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:42 +0000
Subject: [PATCH 06/17] fix: rseq: register every thread with the same area
 length

The length was derived from rseq_size, which is 0 for the first thread
to register. On kernels with a feature size above 32 bytes, the first
thread registered only 32 bytes, and its unregistration used a different
length, which the kernel rejects.
---
 src/rseq.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/rseq.c b/src/rseq.c
index 7bfaea7..2760877 100644
--- a/src/rseq.c
+++ b/src/rseq.c
@@ -114,17 +114,6 @@ bool rseq_available(unsigned int query)
 	return false;
 }
 
-/* The rseq areas need to be at least 32 bytes. */
-static
-unsigned int get_rseq_min_alloc_size(void)
-{
-	unsigned int alloc_size = rseq_size;
-
-	if (alloc_size < ORIG_RSEQ_ALLOC_SIZE)
-		alloc_size = ORIG_RSEQ_ALLOC_SIZE;
-	return alloc_size;
-}
-
 /*
  * Return the feature size supported by the kernel.
  *
@@ -151,6 +140,21 @@ unsigned int get_rseq_kernel_feature_size(void)
 		return ORIG_RSEQ_FEATURE_SIZE;
 }
 
+/*
+ * The rseq areas need to be at least 32 bytes, and large enough for the
+ * kernel feature set. All registrations and unregistrations need to use
+ * the same length.
+ */
+static
+unsigned int get_rseq_min_alloc_size(void)
+{
+	unsigned int alloc_size = get_rseq_kernel_feature_size();
+
+	if (alloc_size < ORIG_RSEQ_ALLOC_SIZE)
+		alloc_size = ORIG_RSEQ_ALLOC_SIZE;
+	return alloc_size;
+}
+
 int rseq_register_current_thread(void)
 {
 	int rc;
-- 
2.43.0


From 015b2168d312ad7df4f42a2ae50d9c97c08eff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:21 +0000
Subject: [PATCH 07/17] fix: x86-64: do not modify input operands in
 rseq_load_cbne_memcpy_store__ptr

The registers holding src, dst and len were incremented and decremented
in place. The compiler is free to assign the same register to inputs
which have the same value, or to address v through one of them, in which
case the copy and the final store used wrong addresses. Use an index
register instead.
---
 include/rseq/arch/x86/bits.h | 57 ++++++++----------------------------
 1 file changed, 12 insertions(+), 45 deletions(-)

diff --git a/include/rseq/arch/x86/bits.h b/include/rseq/arch/x86/bits.h
index 22ab80b..1923048 100644
--- a/include/rseq/arch/x86/bits.h
+++ b/include/rseq/arch/x86/bits.h
@@ -418,8 +418,6 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 				 void *dst, void *src, size_t len,
 				 intptr_t newv, int cpu)
 {
-	uint64_t rseq_scratch[3];
-
 	RSEQ_INJECT_C(9)
 
 	__asm__ __volatile__ goto (
@@ -429,63 +427,35 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
 #endif
-		"movq %[src], %[rseq_scratch0]\n\t"
-		"movq %[dst], %[rseq_scratch1]\n\t"
-		"movq %[len], %[rseq_scratch2]\n\t"
 		/* Start rseq by storing table entry pointer into rseq_cs. */
 		RSEQ_ASM_STORE_RSEQ_CS(1, 3b, RSEQ_ASM_TP_SEGMENT:RSEQ_ASM_CS_OFFSET(%[rseq_offset]))
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, RSEQ_ASM_TP_SEGMENT:RSEQ_TEMPLATE_INDEX_CPU_ID_OFFSET(%[rseq_offset]), 4f)
 		RSEQ_INJECT_ASM(3)
 		"cmpq %[v], %[expect]\n\t"
-		"jne 5f\n\t"
+		"jne %l[ne]\n\t"
 		RSEQ_INJECT_ASM(4)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_CBNE_CPU_ID(cpu_id, RSEQ_ASM_TP_SEGMENT:RSEQ_TEMPLATE_INDEX_CPU_ID_OFFSET(%[rseq_offset]), 6f)
+		RSEQ_ASM_CBNE_CPU_ID(cpu_id, RSEQ_ASM_TP_SEGMENT:RSEQ_TEMPLATE_INDEX_CPU_ID_OFFSET(%[rseq_offset]), %l[error1])
 		"cmpq %[v], %[expect]\n\t"
-		"jne 7f\n\t"
+		"jne %l[error2]\n\t"
 #endif
 		/* try memcpy */
 		"test %[len], %[len]\n\t" \
 		"je 333f\n\t" \
+		"xorl %%ecx, %%ecx\n\t" \
 		"222:\n\t" \
-		"movb (%[src]), %%al\n\t" \
-		"movb %%al, (%[dst])\n\t" \
-		"inc %[src]\n\t" \
-		"inc %[dst]\n\t" \
-		"dec %[len]\n\t" \
-		"jnz 222b\n\t" \
+		"movb (%[src],%%rcx), %%al\n\t" \
+		"movb %%al, (%[dst],%%rcx)\n\t" \
+		"inc %%rcx\n\t" \
+		"cmpq %[len], %%rcx\n\t" \
+		"jne 222b\n\t" \
 		"333:\n\t" \
 		RSEQ_INJECT_ASM(5)
 		/* final store */
 		"movq %[newv], %[v]\n\t"
 		"2:\n\t"
 		RSEQ_INJECT_ASM(6)
-		/* teardown */
-		"movq %[rseq_scratch2], %[len]\n\t"
-		"movq %[rseq_scratch1], %[dst]\n\t"
-		"movq %[rseq_scratch0], %[src]\n\t"
-		RSEQ_ASM_DEFINE_ABORT(4,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			abort)
-		RSEQ_ASM_DEFINE_TEARDOWN(5,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			ne)
-#ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_TEARDOWN(6,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			error1)
-		RSEQ_ASM_DEFINE_TEARDOWN(7,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			error2)
-#endif
+		RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 		: /* gcc asm goto does not allow outputs */
 		: [cpu_id]		"r" (cpu),
 		  [rseq_offset]		"r" ((long long int) rseq_offset),
@@ -496,11 +466,8 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		  /* try memcpy input */
 		  [dst]			"r" (dst),
 		  [src]			"r" (src),
-		  [len]			"r" (len),
-		  [rseq_scratch0]	"m" (rseq_scratch[0]),
-		  [rseq_scratch1]	"m" (rseq_scratch[1]),
-		  [rseq_scratch2]	"m" (rseq_scratch[2])
-		: "memory", "cc", "rax"
+		  [len]			"r" (len)
+		: "memory", "cc", "rax", "rcx"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
-- 
2.43.0


From aa27d8b183bb1b44b85337c94deda2e51f758ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:21 +0000
Subject: [PATCH 08/17] fix: x86-32: use the 32-bit stack pointer in
 rseq_smp_mb

The rsp register does not exist on x86-32, so using rseq_smp_mb() failed
to assemble.
---
 include/rseq/arch/x86.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/rseq/arch/x86.h b/include/rseq/arch/x86.h
index a6a4068..22424c6 100644
--- a/include/rseq/arch/x86.h
+++ b/include/rseq/arch/x86.h
@@ -46,8 +46,13 @@
  */
 
 /* CPU memory barrier. */
-#define rseq_smp_mb()	\
+#ifdef RSEQ_ARCH_AMD64
+# define rseq_smp_mb()	\
 	__asm__ __volatile__ ("lock; addl $0,-128(%%rsp)" ::: "memory", "cc")
+#else
+# define rseq_smp_mb()	\
+	__asm__ __volatile__ ("lock; addl $0,-128(%%esp)" ::: "memory", "cc")
+#endif
 /* CPU read memory barrier */
 #define rseq_smp_rmb()	rseq_barrier()
 /* CPU write memory barrier */
-- 
2.43.0


From 49aff1f194c3f522080aa720293d63718081a3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:16 +0000
Subject: [PATCH 09/17] fix: rseq: reserve the full thread area in TLS

The alignment of the thread-local rseq area does not extend its size, which
is that of struct rseq_abi (32 bytes). Registering an area with the length
of a larger kernel feature set makes the kernel write over other
thread-local variables.
---
 src/rseq.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/rseq.c b/src/rseq.c
index 2760877..fdc5be7 100644
--- a/src/rseq.c
+++ b/src/rseq.c
@@ -65,14 +65,21 @@ static int rseq_ownership;
 #define ORIG_RSEQ_ALLOC_SIZE		32
 
 /*
- * The alignment on RSEQ_THREAD_AREA_ALLOC_SIZE guarantees that the
- * rseq_abi structure allocated size is at least
- * RSEQ_THREAD_AREA_ALLOC_SIZE bytes to hold extra space for yet unknown
- * kernel rseq extensions.
+ * Use a union to guarantee that the allocated size of the rseq area is
+ * at least RSEQ_THREAD_AREA_ALLOC_SIZE bytes to hold extra space for
+ * yet unknown kernel rseq extensions. The alignment of a variable does
+ * not extend its size.
  */
+union rseq_thread_area {
+	struct rseq_abi abi;
+	char alloc[RSEQ_THREAD_AREA_ALLOC_SIZE];
+};
+
 static
-__thread struct rseq_abi __rseq_abi __attribute__((tls_model("initial-exec"), aligned(RSEQ_THREAD_AREA_ALLOC_SIZE))) = {
-	.cpu_id = RSEQ_ABI_CPU_ID_UNINITIALIZED,
+__thread union rseq_thread_area __rseq_area __attribute__((tls_model("initial-exec"), aligned(RSEQ_THREAD_AREA_ALLOC_SIZE))) = {
+	.abi = {
+		.cpu_id = RSEQ_ABI_CPU_ID_UNINITIALIZED,
+	},
 };
 
 static int sys_rseq(struct rseq_abi *rseq_abi, uint32_t rseq_len,
@@ -165,7 +172,7 @@ int rseq_register_current_thread(void)
 		/* Treat libc's ownership as a successful registration. */
 		return 0;
 	}
-	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);
+	rc = sys_rseq(&__rseq_area.abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);
 	if (rc) {
 		/*
 		 * After at least one thread has registered successfully
@@ -199,7 +206,7 @@ int rseq_unregister_current_thread(void)
 		/* Treat libc's ownership as a successful unregistration. */
 		return 0;
 	}
-	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), RSEQ_ABI_FLAG_UNREGISTER, RSEQ_SIG);
+	rc = sys_rseq(&__rseq_area.abi, get_rseq_min_alloc_size(), RSEQ_ABI_FLAG_UNREGISTER, RSEQ_SIG);
 	if (rc)
 		return -1;
 	return 0;
@@ -283,7 +290,7 @@ void rseq_init(void)
 	rseq_ownership = 1;
 
 	/* Calculate the offset of the rseq area from the thread pointer. */
-	rseq_offset = (uintptr_t)&__rseq_abi - (uintptr_t)rseq_thread_pointer();
+	rseq_offset = (uintptr_t)&__rseq_area.abi - (uintptr_t)rseq_thread_pointer();
 
 	/* rseq flags are deprecated, always set to 0. */
 	rseq_flags = 0;
-- 
2.43.0


From ee134b2b50e57a6817888337ba646c7702ac165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:58 +0000
Subject: [PATCH 10/17] fix: ppc: declare that the critical sections modify cr7

The comparisons of the critical section helpers write the cr7 condition
field, but the "cc" clobber only stands for cr0. The compiler could keep
a condition in cr7 across the inline assembly and branch on a value
overwritten by it.
---
 include/rseq/arch/ppc/bits.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/rseq/arch/ppc/bits.h b/include/rseq/arch/ppc/bits.h
index 35ad5db..a09849e 100644
--- a/include/rseq/arch/ppc/bits.h
+++ b/include/rseq/arch/ppc/bits.h
@@ -55,7 +55,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_store__ptr)(intptr_t *v, intptr_t ex
 		  [expect]		"r" (expect),
 		  [newv]		"r" (newv)
 		  RSEQ_INJECT_INPUT
-		: "memory", "cc", "r17"
+		: "memory", "cc", "cr7", "r17"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
@@ -128,7 +128,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		  [voffp]		"b" (voffp),
 		  [load]		"m" (*load)
 		  RSEQ_INJECT_INPUT
-		: "memory", "cc", "r17"
+		: "memory", "cc", "cr7", "r17"
 		  RSEQ_INJECT_CLOBBER
 		: abort, eq
 #ifdef RSEQ_COMPARE_TWICE
@@ -189,7 +189,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		  [v]			"m" (*v),
 		  [count]		"r" (count)
 		  RSEQ_INJECT_INPUT
-		: "memory", "cc", "r17"
+		: "memory", "cc", "cr7", "r17"
 		  RSEQ_INJECT_CLOBBER
 		: abort
 #ifdef RSEQ_COMPARE_TWICE
@@ -259,7 +259,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_load_cbne_store__ptr)(intptr_t *v, i
 		  [expect]		"r" (expect),
 		  [newv]		"r" (newv)
 		  RSEQ_INJECT_INPUT
-		: "memory", "cc", "r17"
+		: "memory", "cc", "cr7", "r17"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
@@ -345,7 +345,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_store_store__ptr)(intptr_t *v, intpt
 		  [expect]		"r" (expect),
 		  [newv]		"r" (newv)
 		  RSEQ_INJECT_INPUT
-		: "memory", "cc", "r17"
+		: "memory", "cc", "cr7", "r17"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
@@ -428,7 +428,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		  [src]			"r" (src),
 		  [len]			"r" (len)
 		  RSEQ_INJECT_INPUT
-		: "memory", "cc", "r17", "r18", "r19", "r20", "r21"
+		: "memory", "cc", "cr7", "r17", "r18", "r19", "r20", "r21"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
-- 
2.43.0


From 32216cd14a9901059173f14e28fded5ddcbfc5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:58 +0000
Subject: [PATCH 11/17] fix: mips, loongarch: add a register operand with a
 register instruction

The voffp and count operands are either an immediate or a register, but
the instruction used to add them only takes an immediate: a caller which
does not pass a compile-time constant does not assemble. Always pass the
operand in a register and use the register form of the addition.
---
 include/rseq/arch/loongarch.h      | 1 +
 include/rseq/arch/loongarch/bits.h | 8 ++++----
 include/rseq/arch/mips.h           | 2 ++
 include/rseq/arch/mips/bits.h      | 8 ++++----
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/rseq/arch/loongarch.h b/include/rseq/arch/loongarch.h
index 884973f..afbfdc0 100644
--- a/include/rseq/arch/loongarch.h
+++ b/include/rseq/arch/loongarch.h
@@ -68,6 +68,7 @@ do {									\
 #define RSEQ_ASM_LONG_L		"ld.d"
 #define RSEQ_ASM_LONG_S		"st.d"
 #define RSEQ_ASM_LONG_ADDI	"addi.d"
+#define RSEQ_ASM_LONG_ADD	"add.d"
 
 /*
  * Helper macros to define a variable of pointer type stored in a 64-bit
diff --git a/include/rseq/arch/loongarch/bits.h b/include/rseq/arch/loongarch/bits.h
index 950ce92..163df00 100644
--- a/include/rseq/arch/loongarch/bits.h
+++ b/include/rseq/arch/loongarch/bits.h
@@ -112,7 +112,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		"beq $r4, %[expectnot], %l[error2]\n\t"
 #endif
 		RSEQ_ASM_LONG_S " $r4, %[load]\n\t"
-		RSEQ_ASM_LONG_ADDI " $r4, $r4, %[voffp]\n\t"
+		RSEQ_ASM_LONG_ADD " $r4, $r4, %[voffp]\n\t"
 		RSEQ_ASM_LONG_L " $r4, $r4, 0\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $r4, %[v]\n\t"
@@ -128,7 +128,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		  /* final store input */
 		  [v]			"m" (*v),
 		  [expectnot]		"r" (expectnot),
-		  [voffp]		"Ir" (voffp),
+		  [voffp]		"r" (voffp),
 		  [load]		"m" (*load)
 		  RSEQ_INJECT_INPUT
 		: "$r4", "memory"
@@ -175,7 +175,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, %l[error1])
 #endif
 		RSEQ_ASM_LONG_L " $r4, %[v]\n\t"
-		RSEQ_ASM_LONG_ADDI " $r4, $r4, %[count]\n\t"
+		RSEQ_ASM_LONG_ADD " $r4, $r4, %[count]\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $r4, %[v]\n\t"
 		"2:\n\t"
@@ -188,7 +188,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  [v]			"m" (*v),
-		  [count]		"Ir" (count)
+		  [count]		"r" (count)
 		  RSEQ_INJECT_INPUT
 		: "$r4", "memory"
 		  RSEQ_INJECT_CLOBBER
diff --git a/include/rseq/arch/mips.h b/include/rseq/arch/mips.h
index a811a07..cd12ee4 100644
--- a/include/rseq/arch/mips.h
+++ b/include/rseq/arch/mips.h
@@ -95,12 +95,14 @@ do {									\
 # define RSEQ_ASM_LONG_L		"ld"
 # define RSEQ_ASM_LONG_S		"sd"
 # define RSEQ_ASM_LONG_ADDI		"daddiu"
+# define RSEQ_ASM_LONG_ADD		"daddu"
 #else
 # define RSEQ_ASM_LONG			".word"
 # define RSEQ_ASM_LONG_LA		"la"
 # define RSEQ_ASM_LONG_L		"lw"
 # define RSEQ_ASM_LONG_S		"sw"
 # define RSEQ_ASM_LONG_ADDI		"addiu"
+# define RSEQ_ASM_LONG_ADD		"addu"
 #endif
 
 /*
diff --git a/include/rseq/arch/mips/bits.h b/include/rseq/arch/mips/bits.h
index b72353f..fe9f3ae 100644
--- a/include/rseq/arch/mips/bits.h
+++ b/include/rseq/arch/mips/bits.h
@@ -103,7 +103,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		"beq $4, %[expectnot], %l[error2]\n\t"
 #endif
 		RSEQ_ASM_LONG_S " $4, %[load]\n\t"
-		RSEQ_ASM_LONG_ADDI " $4, %[voffp]\n\t"
+		RSEQ_ASM_LONG_ADD " $4, $4, %[voffp]\n\t"
 		RSEQ_ASM_LONG_L " $4, 0($4)\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $4, %[v]\n\t"
@@ -119,7 +119,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		  /* final store input */
 		  [v]			"m" (*v),
 		  [expectnot]		"r" (expectnot),
-		  [voffp]		"Ir" (voffp),
+		  [voffp]		"r" (voffp),
 		  [load]		"m" (*load)
 		  RSEQ_INJECT_INPUT
 		: "$4", "memory"
@@ -161,7 +161,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, %l[error1])
 #endif
 		RSEQ_ASM_LONG_L " $4, %[v]\n\t"
-		RSEQ_ASM_LONG_ADDI " $4, %[count]\n\t"
+		RSEQ_ASM_LONG_ADD " $4, $4, %[count]\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $4, %[v]\n\t"
 		"2:\n\t"
@@ -174,7 +174,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  [v]			"m" (*v),
-		  [count]		"Ir" (count)
+		  [count]		"r" (count)
 		  RSEQ_INJECT_INPUT
 		: "$4", "memory"
 		  RSEQ_INJECT_CLOBBER
-- 
2.43.0


From d0dfd9fa07e0e856016400b4b8e4da19654fb257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:31 +0000
Subject: [PATCH 12/17] fix: riscv, loongarch: sign-extend the expected cpu
 number

The expected cpu number is compared over the full register width with
the sign-extended current cpu number, but the upper half of a register
which holds an int operand is unspecified: the comparison could fail for
equal numbers, in which case the helper aborts forever.
---
 include/rseq/arch/loongarch/bits.h | 12 ++++++------
 include/rseq/arch/riscv/bits.h     | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/rseq/arch/loongarch/bits.h b/include/rseq/arch/loongarch/bits.h
index 163df00..8168f84 100644
--- a/include/rseq/arch/loongarch/bits.h
+++ b/include/rseq/arch/loongarch/bits.h
@@ -53,7 +53,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_store__ptr)(intptr_t *v, intptr_t ex
 		RSEQ_ASM_DEFINE_ABORT(4, "", abort, 3, 1b, 2b, 4f)
 		"5:\n\t"
 		: /* gcc asm goto does not allow outputs */
-		: [cpu_id]		"r" (cpu),
+		: [cpu_id]		"r" ((long) cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  [v]			"m" (*v),
@@ -122,7 +122,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		RSEQ_ASM_DEFINE_ABORT(4, "", abort, 3, 1b, 2b, 4f)
 		"5:\n\t"
 		: /* gcc asm goto does not allow outputs */
-		: [cpu_id]		"r" (cpu),
+		: [cpu_id]		"r" ((long) cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  /* final store input */
@@ -184,7 +184,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		RSEQ_ASM_DEFINE_ABORT(4, "", abort, 3, 1b, 2b, 4f)
 		"5:\n\t"
 		: /* gcc asm goto does not allow outputs */
-		: [cpu_id]		"r" (cpu),
+		: [cpu_id]		"r" ((long) cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  [v]			"m" (*v),
@@ -250,7 +250,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_load_cbne_store__ptr)(intptr_t *v, i
 		RSEQ_ASM_DEFINE_ABORT(4, "", abort, 3, 1b, 2b, 4f)
 		"5:\n\t"
 		: /* gcc asm goto does not allow outputs */
-		: [cpu_id]		"r" (cpu),
+		: [cpu_id]		"r" ((long) cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  /* cmp2 input */
@@ -336,7 +336,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_store_store__ptr)(intptr_t *v, intpt
 		RSEQ_ASM_DEFINE_ABORT(4, "", abort, 3, 1b, 2b, 4f)
 		"5:\n\t"
 		: /* gcc asm goto does not allow outputs */
-		: [cpu_id]		"r" (cpu),
+		: [cpu_id]		"r" ((long) cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  /* try store input */
@@ -455,7 +455,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 #endif
 		"8:\n\t"
 		: /* gcc asm goto does not allow outputs */
-		: [cpu_id]		"r" (cpu),
+		: [cpu_id]		"r" ((long) cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  /* final store input */
diff --git a/include/rseq/arch/riscv/bits.h b/include/rseq/arch/riscv/bits.h
index 799e5b9..8d4846c 100644
--- a/include/rseq/arch/riscv/bits.h
+++ b/include/rseq/arch/riscv/bits.h
@@ -36,7 +36,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_store__ptr)(intptr_t *v, intptr_t ex
 				  RSEQ_INJECT_ASM(5)
 				  RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 				  : /* gcc asm goto does not allow outputs */
-				  : [cpu_id]		"r" (cpu),
+				  : [cpu_id]		"r" ((long) cpu),
 				    [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 				    [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 				    [v]			"m" (*v),
@@ -93,7 +93,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 				  RSEQ_INJECT_ASM(5)
 				  RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 				  : /* gcc asm goto does not allow outputs */
-				  : [cpu_id]		"r" (cpu),
+				  : [cpu_id]		"r" ((long) cpu),
 				    [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 				    [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 				    [v]			"m" (*v),
@@ -143,7 +143,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 				  RSEQ_INJECT_ASM(4)
 				  RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 				  : /* gcc asm goto does not allow outputs */
-				  : [cpu_id]		"r" (cpu),
+				  : [cpu_id]		"r" ((long) cpu),
 				    [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 				    [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 				    [v]			"m" (*v),
@@ -196,7 +196,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_load_cbne_store__ptr)(intptr_t *v, i
 				  RSEQ_INJECT_ASM(6)
 				  RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 				  : /* gcc asm goto does not allow outputs */
-				  : [cpu_id]		"r" (cpu),
+				  : [cpu_id]		"r" ((long) cpu),
 				    [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 				    [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 				    [v]			"m" (*v),
@@ -267,7 +267,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_store_store__ptr)(intptr_t *v, intpt
 				  RSEQ_INJECT_ASM(6)
 				  RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 				  : /* gcc asm goto does not allow outputs */
-				  : [cpu_id]			"r" (cpu),
+				  : [cpu_id]			"r" ((long) cpu),
 				    [current_cpu_id]		"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 				    [rseq_cs]			"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 				    [expect]			"r" (expect),
@@ -329,7 +329,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 				  RSEQ_INJECT_ASM(6)
 				  RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 				  : /* gcc asm goto does not allow outputs */
-				  : [cpu_id]			"r" (cpu),
+				  : [cpu_id]			"r" ((long) cpu),
 				    [current_cpu_id]		"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 				    [rseq_cs]			"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 				    [expect]			"r" (expect),
-- 
2.43.0


From 3e388923526383f36722b2f162ea684adb35bc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:31 +0000
Subject: [PATCH 13/17] fix: mips, loongarch, s390: keep the inputs of
 rseq_load_cbne_memcpy_store__ptr

The registers holding src, dst and len were incremented and decremented
in place, and restored only after the final store. The compiler is free
to assign the same register to inputs which have the same value, or to
address v through one of them, in which case the copy and the final
store used wrong values. Work on clobbered registers instead. This also
removes the teardown code, whose addresses were the real exits of the
critical section but differed from the declared exit points.
---
 include/rseq/arch/loongarch/bits.h | 68 ++++++++----------------------
 include/rseq/arch/mips/bits.h      | 68 ++++++++----------------------
 include/rseq/arch/s390/bits.h      | 55 +++++-------------------
 3 files changed, 45 insertions(+), 146 deletions(-)

diff --git a/include/rseq/arch/loongarch/bits.h b/include/rseq/arch/loongarch/bits.h
index 8168f84..1e96509 100644
--- a/include/rseq/arch/loongarch/bits.h
+++ b/include/rseq/arch/loongarch/bits.h
@@ -378,8 +378,6 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 				 void *dst, void *src, size_t len,
 				 intptr_t newv, int cpu)
 {
-	uintptr_t rseq_scratch[3];
-
 	RSEQ_INJECT_C(9)
 
 	__asm__ __volatile__ goto (
@@ -389,30 +387,30 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
 #endif
-		RSEQ_ASM_LONG_S " %[src], %[rseq_scratch0]\n\t"
-		RSEQ_ASM_LONG_S "  %[dst], %[rseq_scratch1]\n\t"
-		RSEQ_ASM_LONG_S " %[len], %[rseq_scratch2]\n\t"
 		/* Start rseq by storing table entry pointer into rseq_cs. */
 		RSEQ_ASM_STORE_RSEQ_CS(1, 3f, rseq_cs)
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, 4f)
 		RSEQ_INJECT_ASM(3)
 		RSEQ_ASM_LONG_L " $r4, %[v]\n\t"
-		"bne $r4, %[expect], 5f\n\t"
+		"bne $r4, %[expect], %l[ne]\n\t"
 		RSEQ_INJECT_ASM(4)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, 6f)
+		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, %l[error1])
 		RSEQ_ASM_LONG_L " $r4, %[v]\n\t"
-		"bne $r4, %[expect], 7f\n\t"
+		"bne $r4, %[expect], %l[error2]\n\t"
 #endif
 		/* try memcpy */
 		"beqz %[len], 333f\n\t" \
+		"move $r5, %[src]\n\t" \
+		"move $r6, %[dst]\n\t" \
+		"move $r7, %[len]\n\t" \
 		"222:\n\t" \
-		"ld.b  $r4, %[src], 0\n\t" \
-		"st.b  $r4, %[dst], 0\n\t" \
-		RSEQ_ASM_LONG_ADDI " %[src], %[src], 1\n\t" \
-		RSEQ_ASM_LONG_ADDI " %[dst], %[dst], 1\n\t" \
-		RSEQ_ASM_LONG_ADDI " %[len], %[len], -1\n\t" \
-		"bnez %[len], 222b\n\t" \
+		"ld.b  $r4, $r5, 0\n\t" \
+		"st.b  $r4, $r6, 0\n\t" \
+		RSEQ_ASM_LONG_ADDI " $r5, $r5, 1\n\t" \
+		RSEQ_ASM_LONG_ADDI " $r6, $r6, 1\n\t" \
+		RSEQ_ASM_LONG_ADDI " $r7, $r7, -1\n\t" \
+		"bnez $r7, 222b\n\t" \
 		"333:\n\t" \
 		RSEQ_INJECT_ASM(5)
 #ifdef RSEQ_TEMPLATE_MO_RELEASE
@@ -422,38 +420,9 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_LONG_S " %[newv], %[v]\n\t"
 		"2:\n\t"
 		RSEQ_INJECT_ASM(6)
-		/* teardown */
-		RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-		RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-		RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t"
-		"b 8f\n\t"
-		RSEQ_ASM_DEFINE_ABORT(4,
-				      /* teardown */
-				      RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-				      RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-				      RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-				      abort, 3, 1b, 2b, 4f)
-		RSEQ_ASM_DEFINE_TEARDOWN(5,
-					/* teardown */
-					RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-					RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-					RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-					ne)
-#ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_TEARDOWN(6,
-					/* teardown */
-					RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-					RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-					RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-					error1)
-		RSEQ_ASM_DEFINE_TEARDOWN(7,
-					/* teardown */
-					RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-					RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-					RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-					error2)
-#endif
-		"8:\n\t"
+		"b 5f\n\t"
+		RSEQ_ASM_DEFINE_ABORT(4, "", abort, 3, 1b, 2b, 4f)
+		"5:\n\t"
 		: /* gcc asm goto does not allow outputs */
 		: [cpu_id]		"r" ((long) cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
@@ -465,12 +434,9 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		  /* try memcpy input */
 		  [dst]			"r" (dst),
 		  [src]			"r" (src),
-		  [len]			"r" (len),
-		  [rseq_scratch0]	"m" (rseq_scratch[0]),
-		  [rseq_scratch1]	"m" (rseq_scratch[1]),
-		  [rseq_scratch2]	"m" (rseq_scratch[2])
+		  [len]			"r" (len)
 		  RSEQ_INJECT_INPUT
-		: "$r4", "memory"
+		: "$r4", "$r5", "$r6", "$r7", "memory"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
diff --git a/include/rseq/arch/mips/bits.h b/include/rseq/arch/mips/bits.h
index fe9f3ae..45e2e5c 100644
--- a/include/rseq/arch/mips/bits.h
+++ b/include/rseq/arch/mips/bits.h
@@ -350,8 +350,6 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 				 void *dst, void *src, size_t len,
 				 intptr_t newv, int cpu)
 {
-	uintptr_t rseq_scratch[3];
-
 	RSEQ_INJECT_C(9)
 
 	__asm__ __volatile__ goto (
@@ -361,30 +359,30 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
 #endif
-		RSEQ_ASM_LONG_S " %[src], %[rseq_scratch0]\n\t"
-		RSEQ_ASM_LONG_S "  %[dst], %[rseq_scratch1]\n\t"
-		RSEQ_ASM_LONG_S " %[len], %[rseq_scratch2]\n\t"
 		/* Start rseq by storing table entry pointer into rseq_cs. */
 		RSEQ_ASM_STORE_RSEQ_CS(1, 3f, rseq_cs)
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, 4f)
 		RSEQ_INJECT_ASM(3)
 		RSEQ_ASM_LONG_L " $4, %[v]\n\t"
-		"bne $4, %[expect], 5f\n\t"
+		"bne $4, %[expect], %l[ne]\n\t"
 		RSEQ_INJECT_ASM(4)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, 6f)
+		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, %l[error1])
 		RSEQ_ASM_LONG_L " $4, %[v]\n\t"
-		"bne $4, %[expect], 7f\n\t"
+		"bne $4, %[expect], %l[error2]\n\t"
 #endif
 		/* try memcpy */
 		"beqz %[len], 333f\n\t" \
+		"move $5, %[src]\n\t" \
+		"move $6, %[dst]\n\t" \
+		"move $7, %[len]\n\t" \
 		"222:\n\t" \
-		"lb   $4, 0(%[src])\n\t" \
-		"sb   $4, 0(%[dst])\n\t" \
-		RSEQ_ASM_LONG_ADDI " %[src], 1\n\t" \
-		RSEQ_ASM_LONG_ADDI " %[dst], 1\n\t" \
-		RSEQ_ASM_LONG_ADDI " %[len], -1\n\t" \
-		"bnez %[len], 222b\n\t" \
+		"lb   $4, 0($5)\n\t" \
+		"sb   $4, 0($6)\n\t" \
+		RSEQ_ASM_LONG_ADDI " $5, 1\n\t" \
+		RSEQ_ASM_LONG_ADDI " $6, 1\n\t" \
+		RSEQ_ASM_LONG_ADDI " $7, -1\n\t" \
+		"bnez $7, 222b\n\t" \
 		"333:\n\t" \
 		RSEQ_INJECT_ASM(5)
 #ifdef RSEQ_TEMPLATE_MO_RELEASE
@@ -394,38 +392,9 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_LONG_S " %[newv], %[v]\n\t"
 		"2:\n\t"
 		RSEQ_INJECT_ASM(6)
-		/* teardown */
-		RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-		RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-		RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t"
-		"b 8f\n\t"
-		RSEQ_ASM_DEFINE_ABORT(4,
-				      /* teardown */
-				      RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-				      RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-				      RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-				      abort, 3, 1b, 2b, 4f)
-		RSEQ_ASM_DEFINE_TEARDOWN(5,
-					/* teardown */
-					RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-					RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-					RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-					ne)
-#ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_TEARDOWN(6,
-					/* teardown */
-					RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-					RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-					RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-					error1)
-		RSEQ_ASM_DEFINE_TEARDOWN(7,
-					/* teardown */
-					RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-					RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-					RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-					error2)
-#endif
-		"8:\n\t"
+		"b 5f\n\t"
+		RSEQ_ASM_DEFINE_ABORT(4, "", abort, 3, 1b, 2b, 4f)
+		"5:\n\t"
 		: /* gcc asm goto does not allow outputs */
 		: [cpu_id]		"r" (cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
@@ -437,12 +406,9 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		  /* try memcpy input */
 		  [dst]			"r" (dst),
 		  [src]			"r" (src),
-		  [len]			"r" (len),
-		  [rseq_scratch0]	"m" (rseq_scratch[0]),
-		  [rseq_scratch1]	"m" (rseq_scratch[1]),
-		  [rseq_scratch2]	"m" (rseq_scratch[2])
+		  [len]			"r" (len)
 		  RSEQ_INJECT_INPUT
-		: "$4", "memory"
+		: "$4", "$5", "$6", "$7", "memory"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
diff --git a/include/rseq/arch/s390/bits.h b/include/rseq/arch/s390/bits.h
index ef2ff69..d052579 100644
--- a/include/rseq/arch/s390/bits.h
+++ b/include/rseq/arch/s390/bits.h
@@ -361,8 +361,6 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 				 void *dst, void *src, size_t len,
 				 intptr_t newv, int cpu)
 {
-	uint64_t rseq_scratch[3];
-
 	RSEQ_INJECT_C(9)
 
 	__asm__ __volatile__ goto (
@@ -372,30 +370,27 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
 #endif
-		RSEQ_ASM_LONG_S " %[src], %[rseq_scratch0]\n\t"
-		RSEQ_ASM_LONG_S " %[dst], %[rseq_scratch1]\n\t"
-		RSEQ_ASM_LONG_S " %[len], %[rseq_scratch2]\n\t"
 		/* Start rseq by storing table entry pointer into rseq_cs. */
 		RSEQ_ASM_STORE_RSEQ_CS(1, 3b, rseq_cs)
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, 4f)
 		RSEQ_INJECT_ASM(3)
 		RSEQ_ASM_LONG_CMP " %[expect], %[v]\n\t"
-		"jnz 5f\n\t"
+		"jnz %l[ne]\n\t"
 		RSEQ_INJECT_ASM(4)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, 6f)
+		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, %l[error1])
 		RSEQ_ASM_LONG_CMP " %[expect], %[v]\n\t"
-		"jnz 7f\n\t"
+		"jnz %l[error2]\n\t"
 #endif
 		/* try memcpy */
 		RSEQ_ASM_LONG_LT_R " %[len], %[len]\n\t"
 		"jz 333f\n\t"
+		"la %%r1,0\n\t"
 		"222:\n\t"
-		"ic %%r0,0(%[src])\n\t"
-		"stc %%r0,0(%[dst])\n\t"
-		RSEQ_ASM_LONG_ADDI " %[src], 1\n\t"
-		RSEQ_ASM_LONG_ADDI " %[dst], 1\n\t"
-		RSEQ_ASM_LONG_ADDI " %[len], -1\n\t"
+		"ic %%r0,0(%%r1,%[src])\n\t"
+		"stc %%r0,0(%%r1,%[dst])\n\t"
+		RSEQ_ASM_LONG_ADDI " %%r1, 1\n\t"
+		RSEQ_ASM_LONG_CMP_R " %%r1, %[len]\n\t"
 		"jnz 222b\n\t"
 		"333:\n\t"
 		RSEQ_INJECT_ASM(5)
@@ -403,32 +398,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_LONG_S " %[newv], %[v]\n\t"
 		"2:\n\t"
 		RSEQ_INJECT_ASM(6)
-		/* teardown */
-		RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-		RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-		RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t"
-		RSEQ_ASM_DEFINE_ABORT(4,
-			RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-			RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-			RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-			abort)
-		RSEQ_ASM_DEFINE_TEARDOWN(5,
-			RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-			RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-			RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-			ne)
-#ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_TEARDOWN(6,
-			RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-			RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-			RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-			error1)
-		RSEQ_ASM_DEFINE_TEARDOWN(7,
-			RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-			RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-			RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t",
-			error2)
-#endif
+		RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 		: /* gcc asm goto does not allow outputs */
 		: [cpu_id]		"r" (cpu),
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
@@ -440,12 +410,9 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		  /* try memcpy input */
 		  [dst]			"r" (dst),
 		  [src]			"r" (src),
-		  [len]			"r" (len),
-		  [rseq_scratch0]	"m" (rseq_scratch[0]),
-		  [rseq_scratch1]	"m" (rseq_scratch[1]),
-		  [rseq_scratch2]	"m" (rseq_scratch[2])
+		  [len]			"r" (len)
 		  RSEQ_INJECT_INPUT
-		: "memory", "cc", "r0"
+		: "memory", "cc", "r0", "r1"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
-- 
2.43.0


From aeeea730305579f70068cb06ed5403dd59171fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:42 +0000
Subject: [PATCH 14/17] fix: mempool: parenthesize the pointer argument of
 rseq_mempool_free

---
 include/rseq/mempool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rseq/mempool.h b/include/rseq/mempool.h
index b28d18f..e013c12 100644
--- a/include/rseq/mempool.h
+++ b/include/rseq/mempool.h
@@ -257,7 +257,7 @@ void librseq_mempool_percpu_free(void __rseq_percpu *ptr, size_t stride);
  * This API is MT-safe.
  */
 #define rseq_mempool_free(_ptr, _stride...)		\
-	librseq_mempool_percpu_free((void __rseq_percpu *) _ptr, RSEQ_PARAM_SELECT_ARG1(_, ##_stride, RSEQ_MEMPOOL_STRIDE))
+	librseq_mempool_percpu_free((void __rseq_percpu *) (_ptr), RSEQ_PARAM_SELECT_ARG1(_, ##_stride, RSEQ_MEMPOOL_STRIDE))
 
 /*
  * rseq_percpu_ptr: Offset a per-cpu pointer for a given CPU.
-- 
2.43.0


From 44378e232458800a168cd80692a2ad4ced3774cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:04 +0000
Subject: [PATCH 15/17] fix: mempool: parenthesize the stride argument of
 rseq_percpu_ptr

---
 include/rseq/mempool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rseq/mempool.h b/include/rseq/mempool.h
index e013c12..67b12b3 100644
--- a/include/rseq/mempool.h
+++ b/include/rseq/mempool.h
@@ -285,7 +285,7 @@ void librseq_mempool_percpu_free(void __rseq_percpu *ptr, size_t stride);
 #define rseq_percpu_ptr(_ptr, _cpu, _stride...)		\
 	((__typeof__(*(_ptr)) *) ((uintptr_t) (_ptr) +	\
 		((unsigned int) (_cpu) *		\
-			(uintptr_t) RSEQ_PARAM_SELECT_ARG1(_, ##_stride, RSEQ_MEMPOOL_STRIDE))))
+			(uintptr_t) (RSEQ_PARAM_SELECT_ARG1(_, ##_stride, RSEQ_MEMPOOL_STRIDE)))))
 
 /*
  * rseq_mempool_set_create: Create a pool set.
-- 
2.43.0


From 44fb4e7e2fd20e2ae9a38bff9f5277a860b4f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:30 +0000
Subject: [PATCH 16/17] fix: loongarch: use the register name $r2 for the
 thread pointer

Compilers without the thread pointer builtin reject "$2": clang reports
an unknown register name.
---
 include/rseq/arch/loongarch/thread-pointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rseq/arch/loongarch/thread-pointer.h b/include/rseq/arch/loongarch/thread-pointer.h
index 9c3640b..35c5bf8 100644
--- a/include/rseq/arch/loongarch/thread-pointer.h
+++ b/include/rseq/arch/loongarch/thread-pointer.h
@@ -25,7 +25,7 @@ void *rseq_thread_pointer(void)
 static inline __attribute__((always_inline))
 void *rseq_thread_pointer(void)
 {
-	register void *__result asm ("$2");
+	register void *__result asm ("$r2");
 	asm ("" : "=r" (__result));
 	return __result;
 }
-- 
2.43.0


From 59c9cdf2b9a38d32bc871f78c5a84075a429c4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:49 +0000
Subject: [PATCH 17/17] fix: smp: access the cached number of CPUs atomically

---
 src/smp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/smp.c b/src/smp.c
index a162c2b..f3fe8cd 100644
--- a/src/smp.c
+++ b/src/smp.c
@@ -255,7 +255,7 @@ end:
 	if (ret < 1)
 		return;
 
-	possible_cpus_array_len_cache = ret;
+	__atomic_store_n(&possible_cpus_array_len_cache, ret, __ATOMIC_RELAXED);
 }
 
 /*
@@ -271,8 +271,8 @@ end:
  */
 int get_possible_cpus_array_len(void)
 {
-	if (rseq_unlikely(!possible_cpus_array_len_cache))
+	if (rseq_unlikely(!__atomic_load_n(&possible_cpus_array_len_cache, __ATOMIC_RELAXED)))
 		update_possible_cpus_array_len_cache();
 
-	return possible_cpus_array_len_cache;
+	return __atomic_load_n(&possible_cpus_array_len_cache, __ATOMIC_RELAXED);
 }
-- 
2.43.0

