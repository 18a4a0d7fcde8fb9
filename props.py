"""Which harness instances decide which property, within which bounds."""
ENV = ["C library, virtual memory and heap behave as modelled in symx/models.py (POSIX/Linux semantics, page size 4096)",
       "clang 18 lowers the C sources to LLVM IR faithfully; z3 is sound"]
MP = dict(units=['mempool', 'rseq', 'smp'])
def I(src, **kw):
    d = dict(src=src); d.update(kw); return d
PROPS = {}; NA = {}
def P(id, bounds, instances, assumptions=(), **kw):
    PROPS[id] = dict(bounds=bounds, instances=instances, assumptions=ENV + list(assumptions), **kw)

P('C13', 'histories of 5 operations (thorough 7) on pools with items of 2048 and 4096 bytes (so ranges fill and the pool grows), 3 operations with every item length 0..4096, 1-2 CPUs, both policies, robust or not, poisoned or not; 64 to 131 small items beyond the first bitmap word; ten strides from 8 kB to 64 GB with items of the whole or half of it',
  [I('mp_c13.c', params=dict(steps=3, sizes=0), ignore_aborts=1), I('mp_c13.c', params=dict(steps=5, sizes=1), ignore_aborts=1),
   I('mp_c13.c', params=dict(steps=3, sizes=2), ignore_aborts=1), I('mp_c13b.c', ignore_aborts=1), I('mp_c13c.c', ignore_aborts=1),
   I('mp_c13.c', params=dict(steps=7, sizes=1), ignore_aborts=1, thorough=1)])

P('C14', 'items of 16 bytes (every byte of old and new content and every init_len 0..16 symbolic) and of 8192 bytes, 2-3 CPUs, fresh (also written by an initialisation callback) or reused memory, any set of writing CPUs, both policies, robust or not, poison 0 or symbolic; every point of the allocation at which a CPU page may become private',
  [I('mp_c14.c', params=dict(len=16, cpus=2, reuse=1), ignore_aborts=1), I('mp_c14.c', params=dict(len=24, cpus=3, cb=1), ignore_aborts=1), I('mp_c14.c', params=dict(len=8, cpus=2, race=1, reuse=1), ignore_aborts=1),
   I('mp_c14.c', params=dict(len=8192, cpus=2, reuse=1), ignore_aborts=1), I('mp_c14b.c', ignore_aborts=1),
   I('mp_c14.c', params=dict(len=16, cpus=3, race=1), ignore_aborts=1, thorough=1)])
P('C15', 'two live items with symbolic content on 2 CPUs, every history of 2 further operations (thorough 3) of 1-, 4-, 16- and 2048-byte items (the latter grow the pool)',
  [I('mp_c15.c', params=dict(steps=2, cpus=2, len=16), ignore_aborts=1), I('mp_c15.c', params=dict(steps=2, cpus=2, len=2048), ignore_aborts=1), I('mp_c15.c', params=dict(steps=2, cpus=1, len=4), ignore_aborts=1), I('mp_c15.c', params=dict(steps=2, cpus=1, len=1), ignore_aborts=1),
   I('mp_c15.c', params=dict(steps=3, cpus=2, len=2048), ignore_aborts=1, thorough=1)])
P('C16', 'robust pools of 2 CPUs, items of 32 bytes (128 per range) up to 4096 bytes (one per range), one or two ranges, both policies, default or symbolic poison; corruption at every byte offset with every value, on each CPU and in the initial values; free-list word cut, cyclic or any address outside the pool; live items linked into the free list',
  [I('mp_c16.c', params=dict(scenario=k, len=l)) for k, l in ((0, 32), (0, 2048), (1, 32), (1, 128), (1, 4096), (2, 16), (2, 128), (2, 2048), (3, 512), (4, 512), (4, 32))])
P('C17', 'robust pools, 1-2 CPUs, every history of 3 operations (thorough 5) with symbolic poison and content; 513 items of 8 bytes / 65 items of 64 bytes over two ranges',
  [I('mp_c17.c', params=dict(steps=3, len=16)), I('mp_c17.c', params=dict(steps=2, len=4096)), I('mp_c17.c', params=dict(steps=3, len=4096), thorough=1), I('mp_c17b.c', params=dict(len=64)), I('mp_c17b.c', params=dict(len=16)),
   I('mp_c17.c', params=dict(steps=4, len=2048), thorough=1)])
P('C18', 'items of 256, 1000, 2048 and 4096 bytes, limits of 1-3 ranges or none, 1-2 CPUs, all policies; capacity filled exactly, one or two items freed anywhere and reallocated; pool names of 0 to 400 characters',
  [I('mp_c18.c', ignore_aborts=1), I('mp_c18b.c', ignore_aborts=1)])
P('C19', 'every item length, stride and CPU count as 64/32-bit values (valid strides enumerated as all 52 powers of two), every policy value; initial-value pools with at most 3 CPUs or strides of at least 2^46; robust pools with at most 4096 items per range; model address space 2^47 bytes',
  [I('mp_c19.c', params=dict(mode=0)), I('mp_c19.c', params=dict(mode=1)), I('mp_c29.c', params=dict(noattr=1), units=['mempool'], nocover=1)])
P('C20', 'up to 2 failing resource steps (thorough 3) at every point of attribute, set and pool creation and of pool growth, or a failing callback; 2 CPUs, both policies, robust or not',
  [I('mp_c20.c', params=dict(scenario=0, budget=1)), I('mp_c20.c', params=dict(scenario=1, budget=2)), I('mp_c20.c', params=dict(scenario=2, budget=1)), I('mp_c20.c', params=dict(scenario=3, budget=2)),
   I('mp_c20.c', params=dict(scenario=1, budget=3), thorough=1), I('mp_c20.c', params=dict(scenario=3, budget=3), thorough=1)],
  ['a failing munmap while trimming a new mapping aborts by design and is not injected here'])
P('C21', 'pools with 1-3 ranges, 1-2 CPUs, live or freed items, both policies, robust or not; sets of up to 3 pools; at most one failing munmap at every point',
  [I('mp_c21.c', params=dict(scenario=0)), I('mp_c21.c', params=dict(scenario=1))])
P('C22', 'pools of 1-2 ranges and 2 CPUs with symbolic content; child reads, writes, allocates, frees, destroys with or without live items; both policies, robust or not, poisoned or not',
  [I('mp_c22.c')])
P('C23', 'sets of 1-3 pools in either order, each full or with one item left, every requested length 0..2^64-1, two consecutive allocations of each kind; every pair of item lengths up to 4096 for size-class collisions',
  [I('mp_c23.c', params=dict(sizes=1, steps=2), ignore_aborts=1), I('mp_c23.c', params=dict(sizes=2, steps=1), ignore_aborts=1), I('mp_c23.c', params=dict(sizes=0, steps=1), ignore_aborts=1), I('mp_c23b.c'),
   I('mp_c23.c', params=dict(sizes=2, steps=3), ignore_aborts=1, thorough=1)])
P('C25', 'strides 4096 and 16384 (thorough 65536), every page-address residue modulo twice the stride for each of two mappings; stride 2^34 with 24 residues; 1 and 3 CPUs, both policies, robust or not',
  [I('mp_c25.c', params=dict(stride=4096, any=1)), I('mp_c25.c', params=dict(stride=16384, any=1)), I('mp_c25.c', params=dict(order=34, any=1)), I('mp_c25.c', params=dict(stride=65536, any=1), thorough=1)])
P('C26', 'per-CPU (3 CPUs) and global pools, symbolic patterns, whole- and half-stride items, creation and growth, failure of every single call',
  [I('mp_c26.c')])
P('C27', 'items of 8, 32 and 8192 bytes on 3 CPUs, symbolic poison and content, any set of writing CPUs, both policies, robust or not',
  [I('mp_c27.c', params=dict(len=8)), I('mp_c27.c', params=dict(len=32)), I('mp_c27.c', params=dict(len=8192))])
P('C28', 'ranges of 0-3 and 4095-4097 pages (thorough also 8191-8193) plus any partial page, every flags/CPU/node value, failure or partial success of each of the first 3 batches; builds without NUMA support',
  [I('mp_c28.c'), I('mp_c28.c', params=dict(nonuma=1), flags=['-UHAVE_LIBNUMA'], nocover=1)])
P('C29', 'every sequence of 3 setter calls (thorough 4) with every argument class, NULL attributes, attributes changed after creation',
  [I('mp_c29.c', params=dict(n=2), units=['mempool']), I('mp_c29.c', params=dict(noattr=1), units=['mempool']), I('mp_c29.c', params=dict(n=3), units=['mempool'], thorough=1)])
P('C30', 'items of 16, 2048 and 8192 bytes, 2 CPUs, any one earlier writer, all allocation kinds with symbolic initial content, both policies, robust or not, fresh and reused items',
  [I('mp_c30.c', params=dict(len=l), ignore_aborts=1) for l in (16, 2048, 8192)])

P('C24', 'two threads with 2 operations each (thorough: also three threads with one) on pools of 2-4 items of 2048 or 4096 bytes with or without pre-owned items, robust or not, both policies; two threads adding to and allocating from a set; two threads that create, grow and destroy pools and sets of their own or place pages (one preemption); every schedule at lock granularity with happens-before race detection on every access (sound for lock-protected code: a schedule-dependent difference needs a race, which is reported)',
  [I('mp_c24.c', params=dict(threads=2, ops=1, len=4096)), I('mp_c24.c', params=dict(threads=2, ops=2, len=2048, lite=1, preempt=3)), I('mp_c24b.c'), I('mp_c24c.c', units=['mempool']), I('mp_c24.c', params=dict(threads=2, ops=2, len=2048), thorough=1),
   I('mp_c24.c', params=dict(threads=3, ops=1, len=2048), thorough=1)])

RS = dict(units=[], arch='x86_64'); TW = ['-DRSEQ_COMPARE_TWICE']
P('C01', 'all argument and memory values; copies of 0..3 bytes (thorough 0..9); both index modes, both memory orders, and 7x4 undocumented order/mode values',
  [I('rs.c', **RS), I('rs.c', params=dict(undoc=1, len=1), **RS), I('rs.c', params=dict(len=2), defs=TW, **RS), I('rs.c', params=dict(op=7, len=9), thorough=1, **RS)])
P('C02', 'one interruption (thorough two) before every executed instruction of every helper, arbitrary new contents and CPU afterwards; copies of 0..3 bytes',
  [I('rs.c', params=dict(irq=1), **RS), I('rs.c', params=dict(irq=1, len=1), defs=TW, **RS), I('rs.c', params=dict(irq=2, len=1), thorough=1, **RS)])
P('C03', 'every value of the CPU number, of the concurrency id, of the requested number and of the data; both index modes',
  [I('rs.c', **RS)])
P('C04', 'an observer that looks at all shared words once, before any instruction; copies of 0..3 bytes',
  [I('rs.c', params=dict(obs=1), **RS)])
P('C05', 'every path through every helper, with and without RSEQ_COMPARE_TWICE',
  [I('rs.c', asm_opts=dict(mode='meta'), **RS), I('rs.c', asm_opts=dict(mode='meta'), defs=TW, **RS)])
P('C06', 'every path through every helper; equal inputs in one register or in several, constants as immediates or in registers, memory operands relative to the stack pointer',
  [I('rs.c', params=dict(share=1), asm_opts=dict(mode='regs'), **RS)])
AB = dict(units=['rseq', 'smp'])
P('C08', 'every content of the rseq area, every active feature size, every answer of the kernel', [I('ab_c08.c', **AB)])
P('C09', 'every combination of exported C library symbols and their values, kernel feature sizes 0 and 20..1024, alignments up to 1024, kernel refusal, one thread', [I('ab_c09.c', **AB)])
P('C10', 'kernel feature sizes 0 and 20..1024, alignments up to 1024, three threads one after another, repeated registration, initial failure', [I('ab_c10.c', **AB)])
P('C11', 'two threads, or three with one preemption (thorough: three), that register first at the same time, every schedule at volatile, atomic and lock operations with happens-before race detection on every access; every query value, C library and kernel',
  [I('ab_c11.c', params=dict(query=1), **AB), I('ab_c11.c', params=dict(threads=2), **AB), I('ab_c11.c', params=dict(threads=3, preempt=1), **AB), I('ab_c11.c', params=dict(threads=3), thorough=1, **AB)])
P('C12', 'lists of up to 2 (thorough 3) ids or ranges with up to 3 digits; ids of 8-10 digits; lists of 4090-4095 bytes; short lists in every partition into reads with up to 2 interruptions; every single failure; arbitrary bytes up to 3 (thorough 4); directories of up to 2 entries with up to 3 digits; two threads (thorough three) at the same time, every schedule at atomic operations with race detection',
  [I('sm.c', params={'shape': k, 's%d' % k: 1}, units=['rseq', 'smp']) for k in range(1, 9)] +
  [I('sm_mt.c', params=dict(threads=2), units=['rseq', 'smp']), I('sm_mt.c', params=dict(threads=3), units=['rseq', 'smp'], thorough=1)])

TARGETS = [('i386', 'i386-linux-gnu'), ('aarch64', 'aarch64-linux-gnu'), ('arm', 'armv7-linux-gnueabihf'), ('riscv64', 'riscv64-linux-gnu'), ('ppc64', 'powerpc64le-linux-gnu'),
           ('ppc:be', 'powerpc-linux-gnu'), ('mips', 'mipsel-linux-gnu'), ('mips64', 'mips64el-linux-gnuabi64'), ('loongarch64', 'loongarch64-linux-gnu'), ('s390x', 's390x-linux-gnu')]
MORE = [('aarch64:be', 'aarch64_be-linux-gnu'), ('arm:be', 'armebv7-linux-gnueabihf'), ('ppc64:be', 'powerpc64-linux-gnu'), ('mips:be', 'mips-linux-gnu'), ('mips64:be', 'mips64-linux-gnuabi64'), ('riscv32', 'riscv32-linux-gnu')]
def X(a, t, **kw): return I('rs.c', units=[], arch=a, target=t, sysinc='mini', flags=['-DSX_MINI'], no_native=1, **kw)
ALL = TARGETS + MORE
P('C07', 'x86-32, aarch64, arm (A32), riscv64, powerpc 32/64, mips 32/64, loongarch64, s390x, the other byte order of each and riscv32 (thorough: those too with interruptions); every value; one interruption before every executed instruction; copies of 0..2 bytes; equal inputs in one register or several',
  [X(a, t, params=dict(irq=1, len=2)) for a, t in TARGETS] + [X(a, t, params=dict(share=1, len=2), asm_opts=dict(mode='regs')) for a, t in TARGETS] +
  [X(a, t, params=dict(len=2), asm_opts=dict(mode='meta')) for a, t in ALL] +
  [X(a, t, params=dict(irq=1, len=2), thorough=1) for a, t in MORE] + [X(a, t, params=dict(share=1, len=2), asm_opts=dict(mode='regs'), thorough=1) for a, t in MORE],
  ['no emulator or cross C library is installed: harness and headers are compiled with clang --target and small stand-in system headers, and a counterexample is confirmed by re-execution of the same instructions on concrete values in the instruction model (symx/asm), not on hardware',
   'or1k (no compiler target) and Thumb code are not covered'])

def MB(a, t):
    weak = a.split(':')[0] not in ('x86_64', 'i386', 's390x')
    return I('mb.c', units=[], arch=a, target=t, sysinc='mini' if t else None, flags=['-DSX_MINI'] if t else [], no_native=1, params=dict(weak=1) if weak else dict(tso=1))
P('C31', 'x86-64 (as C and as C++) and every target of C07 in both byte orders; two threads with two accesses each and every barrier, acquire and release accessor between them; flags of 1, 2, 4 and 8 bytes (up to a long), every value stored',
  [MB('x86_64', None), I('mb_cxx.cc', units=[], arch='x86_64', no_native=1, params=dict(tso=1))] + [MB(a, t) for a, t in ALL],
  ['processors reorder at most what their architecture manual allows: x86 and s390 only a store with a later load of another word, all others any two accesses to different words that no barrier, acquire or release orders; compilers may reorder accesses unless both are volatile or a memory clobber separates them'])
P('C32', 'x86-64; counters, indirect counters, lists, arrays of pointers, arrays of copied records and locks on 2 CPUs, with 0-2 elements each and any counts; one thread interrupted once (thorough twice) before any instruction of its operation, while another thread does a whole operation on either CPU or not, resuming on either CPU; one thread migrated before any instruction and, before any other instruction, a whole operation of a thread on the other CPU without interruption; both index modes, both memory orders',
  [I('ds.c', params=dict(irq=1, all=1), **RS), I('ds.c', params=dict(irq=1, release=1), **RS), I('ds.c', params=dict(irq=1, conc=1, all=1), **RS), I('ds.c', params=dict(irq=2, all=1), thorough=1, **RS)])
P('C33', 'every pointer, CPU number and stride value; pools and sets made without attributes, with stride 0 and with a stride of 16 kB, per-CPU (2 CPUs) and global, robust or not; 64-byte items with symbolic content, two allocations of any two kinds',
  [I('mp_c33.c', params=dict(arith=1), units=['mempool']), I('mp_c33.c', units=['mempool'])])
def AA(a, t, old=0): return I('ab_c34.c', units=[], arch=a, target=t, sysinc='mini' if t else None, flags=['-DSX_MINI'] + ['-DSX_OLD'] * old if t else [], **(dict(no_native=1) if t else {}))
P('C34', 'x86-64 and every target of C07 in both byte orders; with and without the compiler builtin for the thread pointer; every content of the area and every active feature size',
  [AA('x86_64', None)] + [AA(a, t) for a, t in ALL] + [AA(a, t, 1) for a, t in ALL + [('x86_64', 'x86_64-linux-gnu')] if a in ('x86_64', 'i386', 'riscv64', 'riscv32', 'loongarch64')],
  ['other targets than x86-64 are compiled with clang --target and stand-in system headers and executed symbolically only'])
