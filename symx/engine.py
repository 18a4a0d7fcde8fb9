"""Path-wise symbolic executor over LLVM IR.

One Engine.run_path(prefix) executes one path; symbolic branches beyond the
prefix ask the solver which sides are feasible, take one and queue the other.
All feasible paths within the harness bounds are executed; every assertion is a
solver query under the path condition."""
import z3, time
from . import ops, ir
from .ops import norm, bv, bo

PAGE = 4096

class PathEnd(Exception): pass            # normal end of path
class Infeasible(Exception): pass         # assumption false
class Inconclusive(Exception): pass       # engine limit: neither pass nor fail
class Violation(Exception):
    def __init__(s, msg, kind='assert'):
        super().__init__(msg); s.msg = msg; s.kind = kind
class Redirect:
    __slots__ = ('seg',)
    def __init__(s, seg): s.seg = seg

class Page:
    __slots__ = ('data', 'sym', 'mask', 'lo', 'hi', 'obj')
    def __init__(s, data=None, lo=0, hi=PAGE, obj=None):
        s.data = data if data is not None else bytearray(PAGE)
        s.sym = None; s.mask = None; s.lo = lo; s.hi = hi; s.obj = obj
    def copy(s):
        p = Page(bytearray(s.data), s.lo, s.hi, s.obj)
        p.sym = dict(s.sym) if s.sym else None
        p.mask = bytearray(s.mask) if s.mask is not None else None
        return p

class Obj:
    __slots__ = ('base', 'size', 'kind', 'alive', 'name')
    def __init__(s, base, size, kind, name=''):
        s.base = base; s.size = size; s.kind = kind; s.alive = True; s.name = name

class Frame:
    __slots__ = ('r', 'slot', 'next', 'fn', 'allocas', 'onret')
    def __init__(s, r, slot, nxt, fn):
        s.r = r; s.slot = slot; s.next = nxt; s.fn = fn; s.allocas = None; s.onret = None

class Thread:
    __slots__ = ('tid', 'frames', 'r', 'seg', 'state', 'want', 'vc', 'tls', 'joined', 'errno_addr', 'tp', 'pend', 'bar')
    def __init__(s, tid):
        s.tid = tid; s.frames = []; s.r = None; s.seg = None; s.state = 'run'; s.want = None
        s.vc = {tid: 1}; s.pend = {}; s.bar = {}; s.tls = {}; s.errno_addr = None; s.tp = None

class VMA:
    __slots__ = ('start', 'end', 'shared', 'file', 'off', 'dontfork', 'wipe', 'prot')
    def __init__(s, start, end, shared, file, off, prot=3):
        s.start = start; s.end = end; s.shared = shared; s.file = file; s.off = off
        s.dontfork = False; s.wipe = False; s.prot = prot
    def clone(s):
        v = VMA(s.start, s.end, s.shared, s.file, s.off, s.prot); v.dontfork = s.dontfork; v.wipe = s.wipe
        return v

class MemFile:
    __slots__ = ('pages', 'size', 'id')
    def __init__(s, id): s.pages = {}; s.size = 0; s.id = id

class Stats:
    def __init__(s):
        s.paths = 0; s.queries = 0; s.asserts = 0; s.assert_queries = 0; s.solver_s = 0.0; s.segs = 0
        s.funcs = set(); s.covers = {}; s.infeasible = 0; s.asm_instrs = 0; s.max_len = 0; s.forks = 0
        s.events = 0
    def merge(s, o):
        for k in ('paths','queries','asserts','assert_queries','solver_s','segs','infeasible','asm_instrs','forks','events'):
            setattr(s, k, getattr(s, k) + getattr(o, k))
        s.funcs |= o.funcs
        for k, v in o.covers.items(): s.covers[k] = s.covers.get(k, 0) + v

class Engine:
    SEG_LIMIT = 3_000_000
    ENUM_LIMIT = 600
    QUERY_TIMEOUT = 120_000

    def __init__(s, prog, models, opts=None):
        s.prog = prog; s.models = models; s.opts = opts or {}
        s.stats = Stats()
        s.cache = {}
        m = prog.m
        s.psize = m.psize; s.little = m.little; s.PB = m.psize * 8
        s.PM = (1 << s.PB) - 1

    # ------------------------------------------------------------ path control
    def run_path(s, prefix, entry, args=()):
        """returns (outcome, info, pending prefixes)"""
        s.prefix = prefix; s.dpos = 0; s.decisions = []; s.pending = []
        s.solver = z3.SimpleSolver(); s.solver.set('timeout', s.QUERY_TIMEOUT)
        s.model = None; s.npc = 0; s.known = {}
        s.inputs = []            # (kind, name, value) in order of consumption
        s.trace = []
        s.nfresh = 0; s.segcount = 0
        s.reset_memory()
        s.threads = []; s.resched = False; s.mt = False
        s.cur = t = Thread(0); s.threads.append(t); s.tidc = 1
        s.frames = t.frames
        s.env = {}
        s.models.reset(s)
        s.init_tls(t)
        out = ('end', None)
        try:
            try:
                s.r = None
                seg = s.start_call(entry, list(args))
                s.loop(seg)
            except PathEnd as e: out = ('end', str(e))
            except Infeasible: out = ('infeasible', None); s.stats.infeasible += 1
            except Violation as v:
                out = ('violation', s.report(v))
        finally:
            s.stats.paths += 1; s.stats.segs += s.segcount
            s.stats.max_len = max(s.stats.max_len, len(s.decisions))
        return out[0], out[1], s.pending

    def loop(s, seg):
        n = 0; lim = s.opts.get('seg_limit', s.SEG_LIMIT)
        try:
            while seg is not None:
                try: seg = seg(s, s.r)
                except Violation as v:
                    if v.kind != 'crash' or not s.env['fork']: raise
                    seg = s.models.child_exit(s, 139).seg(None, None)
                n += 1
                if s.resched:
                    s.resched = False; seg = s.schedule(seg)
                if n > lim:
                    raise Violation('no progress: the call did not finish within %d basic blocks' % lim, 'hang')
        finally:
            s.segcount += n

    def witness(s):
        """concrete inputs that follow the path just executed"""
        try: m = s.ensure_model()
        except (Infeasible, Inconclusive): return None
        out = []
        for kind, name, val, n in s.inputs:
            if val.__class__ is not int:
                x = m.eval(val, model_completion=True)
                val = (1 if z3.is_true(x) else 0) if z3.is_bool(x) else x.as_long()
            out.append((kind, name, val, n))
        return out

    def report(s, v):
        m = None
        if s.model is None or getattr(v, 'cond', None) is not None:
            pass
        mod = getattr(v, 'model', None)
        if mod is None:
            if s.check() != z3.sat: mod = None
            else: mod = s.solver.model()
        ins = []
        for kind, name, val, n in s.inputs:
            if val.__class__ is not int and mod is not None:
                x = mod.eval(bo(val) if z3.is_bool(val) else val, model_completion=True)
                val = (1 if z3.is_true(x) else 0) if z3.is_bool(x) else x.as_long()
            elif val.__class__ is not int: val = 0
            ins.append((kind, name, val, n))
        st = [f.fn.name for f in s.frames] if s.frames else []
        return dict(msg=v.msg, kind=v.kind, inputs=ins, stack=st, trace=s.trace[-200:],
                    decisions=[d[0] for d in s.decisions])

    # ------------------------------------------------------------ solver
    def check(s, extra=None):
        t = time.time()
        if extra is None: r = s.solver.check()
        else:
            s.solver.push(); s.solver.add(extra); r = s.solver.check()
        if r == z3.sat: s.model = s.solver.model()
        if extra is not None: s.solver.pop()
        s.stats.queries += 1; s.stats.solver_s += time.time() - t
        if r == z3.unknown: raise Inconclusive('solver returned unknown: ' + s.solver.reason_unknown())
        return r

    def ensure_model(s):
        if s.model is None:
            if s.check() != z3.sat: raise Infeasible()
        return s.model

    def add(s, c):
        s.solver.add(c); s.npc += 1
        if s.model is not None:
            if not z3.is_true(s.model.eval(c, model_completion=True)): s.model = None

    def branch(s, c):
        """decide a symbolic condition; forks when both sides are feasible"""
        if c.__class__ is int: return c
        c = bo(c)
        kv = s.known.get(c.get_id())
        if kv is not None: return kv[0]
        v = s.branch_(c)
        s.known[c.get_id()] = (v, c)
        return v

    def branch_(s, c):
        i = s.dpos
        if i < len(s.prefix):
            v, forced = s.prefix[i]; s.dpos = i + 1; s.decisions.append((v, forced))
            if not forced: s.add(c if v else z3.Not(c))
            return v
        m = s.ensure_model()
        v = 1 if z3.is_true(m.eval(c, model_completion=True)) else 0
        other = z3.Not(c) if v else c
        keep = s.model
        r = s.check(other)
        s.model = keep
        s.dpos += 1
        if r == z3.sat:
            s.pending.append(tuple(s.decisions) + ((1 - v, False),)); s.stats.forks += 1
            s.decisions.append((v, False)); s.add(c if v else z3.Not(c))
        else:
            s.decisions.append((v, True))
        return v

    def preset(s, kind, name):
        """re-execution of a counterexample: the recorded value of the next input"""
        k = len(s.inputs); p = s.opts['preset']
        if k >= len(p) or p[k][0] != kind or p[k][1] != name: raise Inconclusive('the re-execution asks for other inputs than the counterexample')
        return p[k][2]

    def choice(s, n, name='choice', kind='choice', weights=None):
        """an input ranging over 0..n-1, enumerated completely by forking"""
        if n <= 1: v = 0
        elif s.opts.get('preset') is not None: v = s.preset(kind, name)
        else:
            i = s.dpos
            if i < len(s.prefix):
                v, _ = s.prefix[i]; s.dpos = i + 1; s.decisions.append((v, True))
            else:
                v = 0; s.dpos += 1
                for k in range(n - 1, 0, -1):
                    s.pending.append(tuple(s.decisions) + ((k, True),))
                s.stats.forks += n - 1
                s.decisions.append((0, True))
        s.inputs.append((kind, name, v, n))
        return v

    def concretize(s, e, what='value', limit=None):
        """fork over all feasible values of e"""
        if e.__class__ is int: return e
        if z3.is_bool(e): return s.branch(e)
        kv = s.known.get(e.get_id())
        if kv is not None: return kv[0]
        v = s.concretize_(e, what, limit)
        s.known[e.get_id()] = (v, e)
        return v

    def concretize_(s, e, what, limit):
        excluded = 0
        limit = limit or s.ENUM_LIMIT
        n = e.size()
        while True:
            i = s.dpos
            if i < len(s.prefix):
                v, kind = s.prefix[i]; s.dpos = i + 1; s.decisions.append((v, kind))
                if kind == 'eq': s.add(e == v); return v
                if kind == 'only': return v
                s.add(e != v); excluded += 1       # 'ne'
                continue
            m = s.ensure_model()
            v = m.eval(e, model_completion=True).as_long()
            keep = s.model
            r = s.check(e != v); s.model = keep
            s.dpos += 1
            if r != z3.sat:
                s.decisions.append((v, 'only')); return v
            excluded += 1
            if excluded > limit:
                raise Inconclusive('more than %d values for a symbolic %s' % (limit, what))
            s.pending.append(tuple(s.decisions) + ((v, 'ne'),)); s.stats.forks += 1
            s.decisions.append((v, 'eq')); s.add(e == v)
            return v

    def assume(s, c):
        if c.__class__ is int:
            if not c: raise Infeasible()
            return
        s.add(bo(c))
        if s.dpos >= len(s.prefix) and s.model is None:
            s.ensure_model()

    def assert_(s, c, msg, kind='assert'):
        s.stats.asserts += 1
        if c.__class__ is int:
            if not c: raise Violation(msg, kind)
            return
        c = bo(c)
        if s.dpos < len(s.prefix):
            # already decided on the path that queued this prefix
            return
        s.stats.assert_queries += 1
        keep = s.model
        if s.check(z3.Not(c)) == z3.sat:
            v = Violation(msg, kind); v.model = s.model
            raise v
        s.model = keep

    def must(s, c):
        """is c implied by the path condition?"""
        if c.__class__ is int: return bool(c)
        keep = s.model
        r = s.check(z3.Not(bo(c))); s.model = keep
        return r == z3.unsat

    def feasible(s, c):
        if c.__class__ is int: return bool(c)
        keep = s.model
        r = s.check(bo(c)); s.model = keep
        return r == z3.sat

    def fresh(s, n, name='u'):
        s.nfresh += 1
        if n == 1: return z3.Bool(f'{name}!{s.nfresh}')
        return z3.BitVec(f'{name}!{s.nfresh}', n)

    def input(s, n, name, kind='u'):
        e = s.fresh(n, name) if s.opts.get('preset') is None else s.preset(kind + str(n), name)
        s.inputs.append((kind + str(n), name, e, n))
        return e

    # ------------------------------------------------------------ memory
    def reset_memory(s):
        s.pages = {}; s.wpages = {}; s.vmas = []
        s.files = {}; s.nextfd = 10
        if s.psize == 8:
            s.heap_next = 0x5555_5500_0000; s.stack_next = 0x7ffe_0000_0000; s.mmap_next = 0x7f10_0000_3000
        else:
            s.heap_next = 0x5000_0000; s.stack_next = 0xb000_0000; s.mmap_next = 0x7000_3000
        s.heap = {}
        s.zero_page = Page()
        s.cow_watch = {}
        for g, addr, size, const, init in s.prog.globals_layout:
            s.place(addr, size, init, not const, 'global', g)

    def place(s, addr, size, init, writable, kind, name='', uninit=False):
        o = Obj(addr, size, kind, name)
        lo = addr; end = addr + size
        vp = addr >> 12
        if size == 0:
            p = Page(lo=addr & 4095, hi=addr & 4095, obj=o); s.pages[vp] = p
            return o
        while True:
            base = vp << 12
            l = max(lo, base) - base; h = min(end, base + PAGE) - base
            if h <= l: break
            p = Page(lo=l, hi=h, obj=o)
            if init is not None:
                chunk = init[base + l - addr: base + h - addr]
                p.data[l:l + len(chunk)] = chunk
            if uninit: p.mask = bytearray(PAGE)
            s.pages[vp] = p
            if writable: s.wpages[vp] = p
            vp += 1
        return o

    def unplace(s, o):
        for vp in range(o.base >> 12, ((o.base + max(o.size, 1) - 1) >> 12) + 1):
            s.pages.pop(vp, None); s.wpages.pop(vp, None)
        o.alive = False

    def alloca(s, size, align):
        a = max(align, 16)
        if size.__class__ is not int: size = s.concretize(size, 'alloca size')
        addr = s.stack_next
        n = (size + PAGE - 1) // PAGE + 1
        if a > PAGE: addr = (addr + a - 1) // a * a
        s.stack_next = addr + (n + 1) * PAGE
        o = s.place(addr, size, None, True, 'stack', uninit=True)
        f = s.frames[-1]
        if f.allocas is None: f.allocas = [o]
        else: f.allocas.append(o)
        return addr

    def malloc(s, size, zero):
        if size.__class__ is not int: size = s.concretize(size, 'heap allocation size')
        addr = s.heap_next
        n = (size + PAGE - 1) // PAGE + 1
        s.heap_next += n * PAGE
        o = s.place(addr, size, None, True, 'heap', uninit=not zero)
        s.heap[addr] = o
        return addr

    def free(s, p):
        p = s.concretize(p, 'pointer')
        if p == 0: return
        o = s.heap.get(p)
        if o is None: raise Violation('free() of a pointer that is not a live heap block: 0x%x' % p, 'memory')
        del s.heap[p]; s.unplace(o)

    def find_vma(s, addr):
        for v in s.vmas:
            if v.start <= addr:
                e = v.end
                if e.__class__ is int:
                    if addr < e: return v
                else:
                    if s.must(z3.ULT(ops.BVV(addr, 64), e)): return v
                    if s.feasible(z3.ULT(ops.BVV(addr, 64), e)):
                        if s.branch(norm(z3.ULT(ops.BVV(addr, 64), e))): return v
        return None

    def rpage(s, vp):
        p = s.pages.get(vp)
        if p is not None: return p
        v = s.find_vma(vp << 12)
        if v is None: return None
        if v.file is None:
            p = s.zero_page
        else:
            p = s.file_page(v, vp)
            if v.shared: s.wpages[vp] = p
        s.pages[vp] = p
        return p

    def file_page(s, v, vp):
        fo = v.off + (vp << 12) - v.start
        if fo >= v.file.size: raise Violation('access beyond the end of the mapped file (SIGBUS)', 'crash')
        k = fo >> 12
        p = v.file.pages.get(k)
        if p is None: p = v.file.pages[k] = Page()
        return p

    def wpage(s, vp):
        p = s.wpages.get(vp)
        if p is not None: return p
        p = s.pages.get(vp)
        if p is not None and p.obj is not None: return None      # read-only object
        v = s.find_vma(vp << 12)
        if v is None: return None
        if v.file is None: p = Page()
        else:
            p = s.file_page(v, vp)
            if not v.shared: p = p.copy()
        s.pages[vp] = p; s.wpages[vp] = p
        return p

    def bad(s, addr, n, what):
        fn = s.frames[-1].fn.name if s.frames else '?'
        raise Violation('invalid %s of %d bytes at 0x%x in %s' % (what, n, addr, fn), 'crash')

    def load(s, addr, n):
        if addr.__class__ is int:
            off = addr & 4095
            p = s.pages.get(addr >> 12)
            if p is not None and p.lo <= off and off + n <= p.hi:
                if p.sym is None and p.mask is None:
                    return int.from_bytes(p.data[off:off + n], 'little' if s.little else 'big')
                return s.load_slow(addr, n)
            return s.load_slow(addr, n)
        return s.load_slow(s.concretize(addr, 'address'), n)

    def load_byte(s, addr):
        """int or (expr,k)"""
        vp = addr >> 12; off = addr & 4095
        p = s.pages.get(vp)
        if p is None: p = s.rpage(vp)
        if p is None or off < p.lo or off >= p.hi: s.bad(addr, 1, 'read')
        if p.mask is not None and not p.mask[off]:
            e = s.fresh(8, 'uninit')
            p.mask[off] = 1
            if p.sym is None: p.sym = {}
            p.sym[off] = (e, 0)
        if p.sym is not None:
            x = p.sym.get(off)
            if x is not None: return x
        return p.data[off]

    def load_slow(s, addr, n):
        bs = [s.load_byte(addr + i) for i in range(n)]
        if not s.little: bs.reverse()
        return s.join(bs)

    def join(s, bs):
        """bytes least significant first -> value"""
        if all(b.__class__ is int for b in bs): return int.from_bytes(bytes(bs), 'little')
        n = len(bs)
        b0 = bs[0]
        if b0.__class__ is not int:
            e, k0 = b0
            if k0 == 0 and e.size() == 8 * n and all(b.__class__ is not int and b[1] == i and b[0].eq(e) for i, b in enumerate(bs)):
                return e
        parts = []; i = 0
        while i < n:
            b = bs[i]
            if b.__class__ is int:
                j = i; v = 0
                while j < n and bs[j].__class__ is int:
                    v |= bs[j] << (8 * (j - i)); j += 1
                parts.append(ops.BVV(v, 8 * (j - i)))
            else:
                e, k = b; j = i + 1
                while j < n and bs[j].__class__ is not int and bs[j][1] == k + (j - i) and bs[j][0].eq(e): j += 1
                parts.append(z3.Extract(8 * (k + j - i) - 1, 8 * k, e))
            i = j
        if len(parts) == 1: return norm(parts[0])
        return norm(z3.Concat(*reversed(parts)))

    def store(s, addr, n, v):
        if addr.__class__ is not int: addr = s.concretize(addr, 'address')
        off = addr & 4095
        p = s.wpages.get(addr >> 12)
        if v.__class__ is int and p is not None and p.lo <= off and off + n <= p.hi and p.sym is None and p.mask is None and not s.cow_watch:
            p.data[off:off + n] = v.to_bytes(n, 'little' if s.little else 'big')
            return
        if v.__class__ is not int and z3.is_bool(v): v = bv(v, 8 * n)
        if s.cow_watch:
            # one store instruction is one step
            s.cow_before_store(addr >> 12); w = s.cow_watch; s.cow_watch = {}
            try: s.store(addr, n, v)
            finally: s.cow_watch = w
            return
        for i in range(n):
            k = i if s.little else n - 1 - i
            s.store_byte(addr + i, ((v >> (8 * k)) & 255) if v.__class__ is int else (v, k))

    def store_byte(s, addr, b):
        vp = addr >> 12; off = addr & 4095
        if s.cow_watch: s.cow_before_store(vp)
        p = s.wpages.get(vp)
        if p is None: p = s.wpage(vp)
        if p is None or off < p.lo or off >= p.hi: s.bad(addr, 1, 'write')
        if p.mask is not None: p.mask[off] = 1
        if b.__class__ is int:
            p.data[off] = b
            if p.sym is not None: p.sym.pop(off, None)
        else:
            e, k = b
            if z3.is_bv_value(e):
                p.data[off] = (e.as_long() >> (8 * k)) & 255
                if p.sym is not None: p.sym.pop(off, None)
                return
            if p.sym is None: p.sym = {}
            p.sym[off] = b

    # copy-on-write races: watched private pages may become private at any time; only the order
    # relative to stores into the page they still share is observable, so that is where to choose
    def cow_event(s, vp):
        """may the watched page become private now (written by another CPU's thread)?"""
        if vp in s.wpages: return
        if s.choice(2, 'cow', 'cow'):
            s.trace.append('page %x becomes private' % vp)
            del s.cow_watch[vp]
            s.wpage(vp)

    def cow_before_store(s, vp):
        # only stores to a page that a watched page still shares matter
        tgt = s.wpages.get(vp)
        if tgt is None: return
        for w in list(s.cow_watch):
            if w in s.wpages: s.cow_watch.pop(w); continue
            if s.rpage(w) is tgt: s.cow_event(w)

    def byte_val(s, addr):
        b = s.load_byte(addr)
        return b if b.__class__ is int else norm(z3.Extract(8 * b[1] + 7, 8 * b[1], b[0]))

    def cstr(s, p, limit=8192):
        """read a C string; symbolic bytes fork on being zero"""
        p = s.concretize(p, 'pointer'); out = []
        while True:
            b = s.byte_val(p)
            if b.__class__ is int:
                if b == 0: return out
            elif s.branch(norm(b == 0)): return out
            out.append(b); p += 1
            if len(out) > limit: raise Inconclusive('string too long')

    def cstr_py(s, p):
        out = s.cstr(p)
        return bytes(s.concretize(b, 'string byte') for b in out).decode('latin1')

    # ------------------------------------------------------------ calls
    def start_call(s, name, args):
        fn = s.prog.funcs[name]
        s.push(fn, args, None, None)
        return fn.entry

    def push(s, fn, args, slot, nxt):
        f = Frame(s.r, slot, nxt, fn)
        r = [None] * fn.nregs
        k = len(fn.params)
        r[:k] = args[:k]
        if len(args) > k: f.onret = None
        s.frames.append(f); s.r = r
        s.stats.funcs.add(fn.name)
        if len(s.frames) > 200: raise Violation('call depth exceeds 200 (unbounded recursion)', 'hang')

    def ret(s, v):
        f = s.frames.pop()
        if f.allocas:
            for o in f.allocas: s.unplace(o)
        s.r = f.r
        if f.onret is not None:
            return f.onret(v)
        if f.slot is not None: s.r[f.slot] = v
        if not s.frames: return s.thread_end()
        return f.next

    def icall(s, addr, args, slot, nxt):
        a = s.concretize(addr, 'function pointer')
        fn = s.prog.fn_by_addr.get(a)
        if fn is None: raise Violation('call through invalid function pointer 0x%x' % a, 'memory')
        if not fn.defined: fn = s.prog.funcs.get('@env_' + fn.name[1:], fn)
        if fn.defined:
            s.push(fn, args, slot, nxt); return fn.entry
        v = s.models.call(s, fn.name, args)
        if v.__class__ is Redirect: return s.redirect(v, slot, nxt)
        if slot is not None: s.r[slot] = v
        return nxt

    def redirect(s, rd, slot, nxt):
        """a model asked to run IR code first; its hook delivers the result to (slot,nxt)"""
        s.pending_ret = (slot, nxt)
        return rd.seg(slot, nxt)

    def deliver(s, slot, v):
        if slot is not None: s.r[slot] = v

    def thread_end(s):
        if s.mt:
            s.cur.state = 'done'; s.resched = True
            return END
        return None

    def unreachable(s):
        raise Violation('unreachable code reached', 'ub')

    def init_tls(s, t):
        s.models.init_thread(s, t)
        # same offset from the thread pointer in every thread; aligned as declared and no more
        off = 0
        for g, size, align, init in s.prog.tls_layout:
            step = max(2 * align, PAGE)
            off = (off + size + PAGE + step - 1) // step * step + align
            s.place(t.tp - off, size, init, True, 'tls', g)
            t.tls[g] = t.tp - off

    # ------------------------------------------------------------ threads
    def schedule(s, seg):
        return s.models.schedule(s, seg)

def END(E, r): return None
