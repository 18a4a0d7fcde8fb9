#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=observe or [], hook_needed=None)))

X86 = ["include/rseq/arch/x86.h", "include/rseq/arch/x86/bits.h", "include/rseq/rseq.h", "include/rseq/pseudocode.h"]
MP = ["src/rseq-mempool.c", "include/rseq/mempool.h", "src/rseq-utils.h", "src/list.h"]

p("C01", "Per-CPU update helpers compute exactly their documented pseudo-code",
  "For every argument and memory value, each x86-64 rseq_load_*_store__ptr helper that runs undisturbed on the requested CPU (or concurrency id) returns the result and leaves in memory exactly what include/rseq/pseudocode.h documents (0 with the stores done, 1 with no store to v when a comparison says so), for both index modes, and touches no other memory. A memory-order/mode combination that a helper does not document returns -1 and changes nothing.",
  ["inputs"], "all 64-bit values of *v, expect, newv, offsets, counts, list pointers, every copy length within the bound, every mo/mode enum value",
  "param_test and the stress tests use a handful of values and lengths and only look at aggregate counters",
  X86, [("inline-asm bodies", "include/rseq/arch/x86/bits.h"), ("dispatch on mo and mode", "include/rseq/rseq.h")],
  ["return value and memory after the call"])
p("C02", "Helpers are all-or-nothing under preemption, migration or signal delivery",
  "If the thread is preempted, migrated or signalled before any instruction of an x86-64 helper, then either the final store had already been done and the helper reports success with that effect, or it returns a negative value, the final store is never done, and nothing more is written after the interruption. No interruption point yields a committed update based on values read before the interruption.",
  ["schedules", "inputs"], "an interruption before every single instruction of every helper, with arbitrary changes made to the shared words and to the current CPU by whoever ran meanwhile",
  "the stress tests preempt at points chosen by the scheduler; a window of one instruction may never be hit",
  X86, [("critical-section descriptor: start, post-commit offset and abort address", "include/rseq/arch/x86.h"), ("single committing store as last instruction", "include/rseq/arch/x86/bits.h")],
  ["return value, memory writes after the interruption"])
p("C03", "A helper called for another CPU or an unregistered thread has no effect",
  "When the CPU number (or concurrency id) given to an x86-64 helper is not the one the thread currently runs with when the critical section checks it, including the negative values of an unregistered thread, the helper returns a negative value and modifies no memory other than the thread's own rseq area.",
  ["inputs", "schedules"], "all pairs of requested and actual CPU number or concurrency id, all helpers, both modes",
  "tests practically always pass the CPU they run on", X86,
  [("compare of cpu_id / mm_cid inside the critical section", "include/rseq/arch/x86.h")], ["return value and memory"])
p("C04", "The committing store publishes everything the helper wrote before it",
  "In every successful x86-64 helper call, the store to v is performed exactly once and after every other store of the call (second word, copied bytes), so another CPU that observes the new v observes the rest; in release variants no earlier access of the caller may be ordered after it.",
  ["schedules", "inputs"], "all helpers, modes, memory orders, values and copy lengths within the bound; every observation point between two instructions",
  "an observer on another CPU needs to hit a window of one store", X86,
  [("order of the stores in the critical section", "include/rseq/arch/x86/bits.h"), ("memory clobber", "include/rseq/arch/x86/bits.h")], ["sequence of stores"])
p("C05", "Critical-section metadata is well-formed for the kernel and for debuggers",
  "Every x86-64 helper publishes, while it runs, a 32-byte aligned version-0, flags-0 descriptor whose range covers the CPU check up to and including the committing store, whose abort address lies outside that range and is preceded by the registered signature; the descriptor is listed in the descriptor pointer section and every branch target or fall-through by which the section can be left other than by commit or abort is listed in the exit-point section.",
  ["programs", "inputs"], "every helper, mode and memory order and every way control can leave the section",
  "the kernel only looks at the descriptor when an interruption happens to fall into the section; exit points are only read by debuggers",
  X86, [("__RSEQ_ASM_DEFINE_TABLE / ABORT / EXIT_POINT / CS_OFFSETS macros", "include/rseq/arch/x86.h")], ["sections __rseq_cs, __rseq_cs_ptr_array, __rseq_exit_point_array, code bytes before the abort address"])
p("C06", "Helpers preserve the caller's state whatever registers the compiler assigns",
  "However the compiler allocates the operands of an x86-64 helper (including two equal inputs sharing one register, or a memory operand addressed through an input register), on every exit the helper has changed no register outside its declared outputs and clobbers, has not changed any input register, and its result is the same.",
  ["programs", "inputs"], "all helpers, all register-sharing assignments that the constraints allow, all exits",
  "tests are compiled once by one compiler with one register assignment", X86,
  [("operand constraints and clobber lists", "include/rseq/arch/x86/bits.h")], ["registers at every exit of the asm block"])
p("C07", "All supported architectures implement the same helper semantics",
  "On aarch64, arm, riscv64, powerpc64, s390x, mips, loongarch64 and i386, each helper obeys the same contract as on x86-64: documented result and memory effect for every value, nothing done for a wrong CPU or id, all-or-nothing when interrupted before any instruction, store to v last and, in release variants, ordered after all earlier accesses by a barrier or store-release. Its critical-section descriptor, signature and exit points are well-formed there too, and it changes no register or memory that its operands and clobbers do not declare, however registers are assigned.",
  ["inputs", "schedules", "configurations"], "every architecture port, helper, mode, memory order, value, interruption point",
  "the test suite only runs on the build machine's architecture",
  ["include/rseq/arch/aarch64/bits.h", "include/rseq/arch/aarch64.h", "include/rseq/arch/arm/bits.h", "include/rseq/arch/riscv/bits.h", "include/rseq/arch/ppc/bits.h", "include/rseq/arch/s390/bits.h", "include/rseq/arch/mips/bits.h", "include/rseq/arch/loongarch/bits.h"],
  [("per-architecture inline asm", "include/rseq/arch/*/bits.h")], ["return value, memory, interruption behaviour"])
p("C08", "CPU, node and concurrency-id accessors reflect the thread's rseq area",
  "For every content of the thread's rseq area and every active feature size: rseq_current_cpu() returns the registered CPU, or the kernel-queried CPU when the thread is unregistered; rseq_cpu_start(), rseq_current_cpu_raw(), rseq_current_node_id() and rseq_current_mm_cid() return the corresponding fields; the *_available() predicates are true exactly when the field lies inside the active feature size; rseq_fallback_current_node() returns the kernel's node or a negative value; rseq_prepare_unload()/rseq_clear_rseq_cs() clear only the critical-section pointer.",
  ["inputs", "configurations"], "all field values, all feature sizes, all getcpu outcomes", "tests see one kernel's values",
  ["include/rseq/rseq.h", "include/rseq/abi.h", "src/rseq.c"], [("inline accessors", "include/rseq/rseq.h"), ("fallbacks", "src/rseq.c")], ["return values"])
p("C09", "The active feature size and owner are right for every libc and kernel",
  "After initialisation, librseq defers to the C library exactly when that library exports all three rseq symbols and a non-zero size, and then publishes its offset and flags and a feature size equal to its size, except that sizes 20 and 32 become min(32, kernel feature size with 0 meaning 20). Otherwise librseq owns registration: the offset addresses its own area, flags and size are 0 until a first thread registers, and then the size is the kernel feature size with 0 meaning 20.",
  ["configurations", "inputs"], "all combinations of exported symbols, symbol values, auxiliary-vector feature sizes and alignments",
  "a test machine has one libc and one kernel", ["src/rseq.c"], [("rseq_init", "src/rseq.c"), ("get_rseq_kernel_feature_size", "src/rseq.c")], ["rseq_offset, rseq_size, rseq_flags, rseq_available()"])
p("C10", "Thread registration and unregistration follow the kernel protocol",
  "When librseq owns registration, every thread registers its own aligned area with the same length (at least 32 bytes, at least the kernel's feature size, inside the reserved area), flags 0 and the documented signature, and unregisters with the same area, length and signature and the unregister flag, so the kernel accepts it; the call returns 0 on success and -1 when the first registration fails, and no features are announced before a registration has succeeded; once announced, size, offset and flags never change, also when threads unregister. When the C library owns registration no system call is made and both calls return 0.",
  ["configurations", "histories", "fault_sequences"], "all sequences of register/unregister over several threads within the bound, all kernel feature sizes, all failures",
  "needs kernels with other feature sizes and failing system calls", ["src/rseq.c"], [("rseq_register_current_thread", "src/rseq.c"), ("rseq_unregister_current_thread", "src/rseq.c")], ["rseq(2) arguments, return value, rseq_size"])
p("C11", "Initialisation happens once and availability queries are truthful",
  "Under every interleaving of threads that register first, initialisation is performed exactly once and no thread uses the published offset, size or ownership before they are complete. rseq_available() answers true for the kernel exactly when the system call answers EINVAL and false when it answers ENOSYS, and true for libc exactly when the C library owns the registration; unknown queries answer false.",
  ["schedules", "configurations"], "all interleavings of two threads' first calls, all system-call answers", "initialisation runs in a constructor before any test thread exists",
  ["src/rseq.c"], [("init_done acquire/release and init_lock", "src/rseq.c"), ("rseq_available", "src/rseq.c")], ["dlsym calls, published variables, return values"])
p("C12", "The detected number of CPUs covers every possible CPU id",
  "For every content of the possible-CPU list below 4096 bytes, delivered in any pieces with any interruptions, rseq_get_max_nr_cpus() is the highest CPU id of that list plus one; when the list is unreadable or unparsable it is the larger of the configured-processor count and the highest cpuN directory plus one, and 0 only if everything failed. Once a positive value was returned it never changes, threads that ask at the same time all get this value without a data race, no file descriptor or directory stays open and no memory outside its buffers is touched.",
  ["inputs", "fault_sequences", "schedules"], "all list texts, read splits, EINTR and error points, directory contents, sysconf values within the bound; every schedule of two threads that ask first at the same time",
  "tests see one machine's sysfs", ["src/smp.c", "src/smp.h", "src/rseq.c"], [("get_max_cpuid_from_mask", "src/smp.c"), ("fallback chain", "src/smp.c")], ["rseq_get_max_nr_cpus()"])
p("C13", "Live items never overlap, are aligned and lie inside the pool's memory",
  "In every history of allocations and frees on a pool, each returned item is aligned on the item length rounded up to a power of two (at least a pointer), lies inside one stride-aligned range of memory that is mapped for every CPU of the pool, and is disjoint on every CPU from all other live items and from the allocator's own data.",
  ["histories", "inputs"], "all histories of allocate/free within the bound, all item lengths, pool kinds and attributes", "tests allocate in simple patterns and do not check overlap",
  MP, [("free list and next_unused cursor", "src/rseq-mempool.c")], ["returned pointers, memory contents"])
p("C14", "zmalloc and malloc_init content is right on every CPU, also for reused memory",
  "After a successful zeroed allocation the whole item reads zero on every CPU, and after a successful initialised allocation its first init_len bytes equal the given content on every CPU, whatever was written, freed or poisoned in that memory before and whenever other CPUs' neighbouring writes make their pages private, including in the middle of the allocation. init_len above the item length fails with EINVAL and allocates nothing.",
  ["histories", "schedules", "inputs"], "all prior contents, all init contents and lengths within the bound, all points at which a page becomes private", "tests initialise fresh memory single-threaded",
  MP, [("rseq_percpu_zero_item / rseq_percpu_init_item", "src/rseq-mempool.c")], ["item content through rseq_percpu_ptr()"])
p("C15", "Each CPU's copy and each item keeps its content until its owner changes it",
  "A write through rseq_percpu_ptr(item, cpu) is visible only there: no other CPU's copy and no other live item changes, and no allocation, initialisation, free or pool growth of other items ever changes the content of a live item on any CPU.",
  ["histories", "schedules", "inputs"], "all histories within the bound, all written values, all pool kinds", "tests do not compare unrelated items after each operation",
  MP, [("private per-CPU mappings of a shared initial-value range", "src/rseq-mempool.c"), ("free-list placement", "src/rseq-mempool.c")], ["item content"])
p("C16", "Robust pools detect every double free, leak, and corruption of freed memory",
  "In a robust pool, freeing an item that is not currently allocated, destroying the pool while an item is live, reusing or destroying after any byte of a freed item was modified on any CPU (or in its initial values), and destroying after a free-list link was changed so that the list is cut short, becomes cyclic or leaves the pool's memory, always abort the process.",
  ["histories", "inputs"], "every item position, every corrupted byte, value and CPU, every misuse history within the bound", "tests try one double free, one leak, one corruption",
  MP, [("allocation bitmap", "src/rseq-mempool.c"), ("poison checks", "src/rseq-mempool.c"), ("check_free_list", "src/rseq-mempool.c")], ["abort()"])
p("C17", "Robust pools never abort a correct program",
  "No history of valid creations, allocations, writes to live items, frees and a final destruction with nothing live aborts or fails validation, for any poison value, populate policy, item length, content and number of CPUs, including items beyond the first 64 of a range.",
  ["histories", "inputs"], "all valid histories within the bound, all contents and poison values", "tests use few histories and default poison",
  MP, [("allocation bitmap and poison checks", "src/rseq-mempool.c")], ["absence of abort()"])
p("C18", "A pool delivers exactly its capacity, grows up to its limit and reuses frees",
  "A pool limited to R ranges satisfies exactly R times stride/item_len live allocations and then fails with ENOMEM, without a limit it grows; freed items can be allocated again before new memory is used, and a failed allocation leaves the pool usable.",
  ["histories", "configurations"], "all limits, strides, item lengths and interleaved frees within the bound", "tests fill one configuration",
  MP, [("range creation and limit", "src/rseq-mempool.c")], ["return value and errno of malloc"])
p("C19", "Pool creation accepts exactly the valid configurations",
  "rseq_mempool_create() returns either NULL with errno EINVAL or ENOMEM or a pool whose items really have the requested length on the requested number of CPUs; it never aborts. It rejects with EINVAL item lengths above the stride, strides below the page size or not a power of two, negative CPU counts and unknown populate policies, and arithmetic on huge lengths, strides or CPU counts never produces a smaller pool.",
  ["inputs"], "all 64-bit item lengths and strides, all 32-bit CPU counts and policies", "boundary values around 2^63 and overflow products are not tested",
  MP, [("argument validation in rseq_mempool_create", "src/rseq-mempool.c"), ("range length computation", "src/rseq-mempool.c")], ["return value, errno, mapped memory"])
p("C20", "Resource failures are reported cleanly and leak nothing",
  "If any memory mapping, memory file, advice, heap or initialisation-callback step fails during pool, pool-set or attribute creation or pool growth, the call returns failure with errno set, every resource acquired by that call is released, and objects that existed before remain fully usable.",
  ["fault_sequences"], "failure of any one (thorough: two) resource acquisitions at any point of creation and growth, all pool kinds", "no test makes a system call fail",
  MP, [("error paths of range and pool creation", "src/rseq-mempool.c")], ["return value, errno, mappings, descriptors, heap blocks"])
p("C21", "Destruction releases everything and reports failure",
  "After rseq_mempool_destroy() or rseq_mempool_set_destroy() returned 0, no mapping, descriptor or heap block of the pool remains; if unmapping fails they return -1; a pool (not a set) can then be destroyed again to release what is left, if it is not robust or none of its ranges was released yet. Destroying a NULL pool returns 0.",
  ["histories", "fault_sequences"], "all pool kinds and histories within the bound, unmap failure at any range", "tests do not account resources or fail munmap",
  MP, [("rseq_mempool_destroy", "src/rseq-mempool.c")], ["return value, mappings, heap"])
p("C22", "Pools behave across fork as documented",
  "After fork, the parent's items are unaffected by anything the child does; a child can use and destroy copy-on-write-zero pools independently, and can destroy an initial-value pool (robust or not, with or without live items) without aborting, leaving none of its mappings in the child, while the memory of such a pool is not accessible in the child.",
  ["histories", "schedules"], "all pool kinds, live/freed states before the fork, child and parent actions within the bound", "only one fork scenario is tested",
  MP, [("MADV_DONTFORK, MADV_WIPEONFORK canary", "src/rseq-mempool.c"), ("pool_mappings_accessible", "src/rseq-mempool.c")], ["child exit status, parent content"])
p("C23", "Pool sets allocate from the smallest fitting pool with space",
  "For every length and every set of pools, an allocation from a pool set comes from the smallest pool whose items hold the length and which has space, falls back to larger ones when full, and otherwise fails with ENOMEM; zeroed and initialised variants give the content promised for single pools. Adding a second pool of the same size class fails with EBUSY and leaves ownership with the caller; destroying the set destroys its pools.",
  ["inputs", "histories"], "all 64-bit lengths, subsets of size classes and fill states within the bound", "tests use one fixed set",
  MP, [("__rseq_mempool_set_malloc", "src/rseq-mempool.c"), ("rseq_mempool_set_add_pool", "src/rseq-mempool.c")], ["returned item, errno"])
p("C24", "Pool and pool-set operations are safe under every thread interleaving",
  "For every interleaving of two threads allocating, initialising, freeing and adding pools on the same pool or pool set, or creating, using and destroying pools of their own, there is no data race on allocator state, no item is handed out twice, no free is lost, no deadlock or self-deadlock occurs and robust pools raise no false alarm.",
  ["schedules"], "all interleavings of two threads (two operations each within the bound)", "stress tests sample a few interleavings",
  MP, [("pool and set mutexes", "src/rseq-mempool.c")], ["returned items, abort, deadlock"])
p("C25", "Range mapping is exact for every address the kernel may choose",
  "Whatever page-aligned address the kernel returns, pool memory starts at a stride-aligned address with its header just below, exactly the surplus before and after is unmapped, and nothing outside the kernel's mapping is ever unmapped, remapped or advised.",
  ["inputs", "configurations"], "all address residues modulo the stride, several strides and CPU counts, all pool kinds", "one process sees few address residues",
  MP, [("aligned_mmap_anonymous", "src/rseq-mempool.c")], ["mmap/munmap/madvise arguments, resulting mappings"])
p("C26", "The initialisation callback is called exactly once per CPU and range",
  "For a pool with an initialisation callback, every range creation calls it with the given private pointer exactly once for each CPU (in a global pool once with CPU -1), with the start and length of that CPU's memory, before any item of the range is handed out; what it wrote is the initial content of the items, and its failure makes creation or growth fail.",
  ["histories", "fault_sequences", "configurations"], "all CPU counts, range numbers and callback results within the bound", "tests use a callback that always succeeds",
  MP, [("init_func loop in range creation", "src/rseq-mempool.c")], ["callback arguments"])
p("C27", "Freed items are poisoned on every CPU",
  "When a poison value is set, freeing an item leaves every machine word of the item equal to that value on every CPU, except the single first word where a non-robust pool keeps its free-list link.",
  ["inputs", "histories"], "all poison values, previous contents, items, CPUs, pool kinds within the bound", "tests look at one pattern",
  MP, [("rseq_percpu_poison_item", "src/rseq-mempool.c")], ["memory content after free"])
p("C28", "The NUMA helper asks to move every page of the range exactly once",
  "rseq_mempool_range_init_numa() passes each whole page of the range exactly once to move_pages with the node of the given CPU and the given flags and never overruns its batch; it returns -1 with EINVAL for zero flags, the error of the node lookup or move_pages otherwise, and 0 when pages could merely not be moved. A library built without NUMA support returns -1 with ENOSYS.",
  ["inputs", "fault_sequences"], "all range lengths within the bound (across several batches), all results of the node lookup and move_pages", "tests run on single-node machines",
  MP, [("rseq_mempool_range_init_numa", "src/rseq-mempool.c")], ["move_pages arguments, return value"])
p("C29", "Pool attributes mean what their setters say",
  "Every attribute setter fails with -1/EINVAL on a NULL attribute and otherwise returns 0 and changes only its own attribute (an initialisation callback also selects the initial-value policy, selecting per-CPU or global type replaces the previous type); a pool keeps the attributes it was created with after the attribute object is changed or destroyed, and rseq_mempool_get_max_nr_cpus() returns the configured or auto-detected CPU count, or -1/EINVAL for NULL and global pools.",
  ["inputs", "histories"], "all orders of setters and attribute values within the bound", "tests set attributes in one order",
  MP, [("rseq_mempool_attr_set_*", "src/rseq-mempool.c")], ["pool behaviour, return values"])
p("C30", "Allocation does not populate per-CPU pages needlessly",
  "Allocating (plain, zeroed, or initialised with content that the CPU's page already shows) writes no per-CPU page: in initial-value pools a CPU page becomes private only by the CPU's own writes or when it was private already, and in zero pools zeroed allocation leaves untouched CPUs on the zero page.",
  ["histories", "inputs"], "all histories within the bound, all contents, all sets of already private pages", "tests do not observe page population except in one case",
  MP, [("compare-before-write", "src/rseq-mempool.c")], ["pages that became private"])
p("C31", "Barriers and acquire/release accessors order memory on every architecture",
  "On every supported architecture, a thread that reads a flag stored by rseq_smp_store_release() (or stored after a write or full barrier) through rseq_smp_load_acquire() (or before a read or full barrier, or a control dependency followed by rseq_smp_acquire__after_ctrl_dep()) sees everything stored before it, and loads before the release are not affected by stores after the acquire. rseq_smp_mb() also orders stores before later loads: of two threads that store, pass it and load the other's word, at least one sees the other's store. The accessors read and write exactly the word given, for every scalar size up to a long and every value.",
  ["schedules", "inputs", "configurations"], "every architecture, accessor, word size, value and every reordering that compiler and processor may do between two threads with two accesses each",
  "a memory-ordering error shows only on other processors or compilers, in rare interleavings",
  ["include/rseq/arch/x86.h", "include/rseq/arch/aarch64.h", "include/rseq/arch/arm.h", "include/rseq/arch/riscv.h", "include/rseq/arch/ppc.h", "include/rseq/arch/s390.h", "include/rseq/arch/mips.h", "include/rseq/arch/loongarch.h", "include/rseq/compiler.h"],
  [("rseq_smp_mb and friends", "include/rseq/arch/*.h"), ("rseq_barrier", "include/rseq/compiler.h")], ["values read by two threads"])
p("C32", "Per-CPU structures built from the helpers lose, duplicate and tear nothing",
  "Per-CPU counters, lists, pointer arrays, arrays of copied records and try-locks, built from the x86-64 helpers in the documented way (read the current CPU or concurrency id, try, retry on a negative result), stay correct when a thread is preempted or migrated before any instruction while other threads operate on the same structures on any CPU, and when threads on other CPUs run concurrently. No increment is lost or doubled, every element is in exactly one place and taken at most once, a published element or record is never seen incomplete, a lock has at most one holder, and an attempt fails only because of an interruption or another thread's operation.",
  ["schedules", "inputs", "histories"], "every interruption point, every interleaved operation of another thread, every migration, all counter values, both index modes, both memory orders",
  "stress tests hit few of the interruption points and hardly ever a migration inside a chosen instruction window",
  ["include/rseq/arch/x86/bits.h", "include/rseq/arch/x86.h", "include/rseq/rseq.h", "include/rseq/pseudocode.h"],
  [("x86-64 helpers", "include/rseq/arch/x86/bits.h"), ("dispatch by memory order and index mode", "include/rseq/rseq.h")], ["contents of the per-CPU structures"])
p("C33", "Per-CPU addressing, the default stride and the global wrappers agree",
  "rseq_percpu_ptr(ptr, cpu[, stride]) yields, with the type of ptr, the address cpu times stride bytes further, for every pointer, CPU number and stride and for argument expressions of any form, each evaluated once; a stride that is left out there, in rseq_mempool_percpu_free() or in rseq_mempool_free() is the 64 kB stride of pools created without attributes or with stride 0. Items allocated through rseq_mempool_malloc(), _zmalloc(), _malloc_init() and their pool-set counterparts are directly usable memory with the content promised for the per-CPU functions and are given back by rseq_mempool_free().",
  ["inputs", "configurations"], "all pointers, CPU numbers and strides; all pool kinds, default and explicit strides, wrapper pairs within the bound", "tests use few CPUs and simple arguments; an overflow or precedence error needs large CPU numbers, strides or argument expressions",
  MP + ["include/rseq/compiler.h"], [("rseq_percpu_ptr, rseq_mempool_free, rseq_mempool_percpu_free", "include/rseq/mempool.h"), ("default stride", "src/rseq-mempool.c")], ["addresses, item content"])
p("C34", "The thread area is found and read as the kernel writes it, on every architecture",
  "On every supported architecture and byte order, rseq_get_abi() is the architecture's thread pointer plus rseq_offset, and the accessors read the kernel's fields where the kernel puts them (CPU to start with at byte 0, CPU at 4, 64-bit critical-section pointer at 8, node id at 20, concurrency id at 24), report the node id and concurrency id available exactly from feature sizes 24 and 28, and call the fallback exactly when the CPU number is negative. rseq_clear_rseq_cs() and rseq_prepare_unload() clear the critical-section pointer (on 32-bit machines its low-order half, wherever the byte order puts it) and change nothing else. Descriptors have the kernel's 32-byte layout.",
  ["inputs", "configurations"], "every content of the area, every feature size, every architecture and byte order", "tests run on one architecture and compare the library with itself",
  ["include/rseq/abi.h", "include/rseq/rseq.h", "include/rseq/thread-pointer.h", "include/rseq/arch/x86/thread-pointer.h", "include/rseq/arch/ppc/thread-pointer.h", "include/rseq/arch/riscv/thread-pointer.h", "include/rseq/arch/loongarch/thread-pointer.h", "include/rseq/arch/generic/thread-pointer.h"],
  [("struct rseq_abi, struct rseq_abi_cs", "include/rseq/abi.h"), ("rseq_thread_pointer", "include/rseq/arch/*/thread-pointer.h"), ("accessors", "include/rseq/rseq.h")], ["returned values, bytes of the area"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
