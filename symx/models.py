"""Environment models: libc, virtual memory system calls, threads and the sx_* harness interface."""
import z3
from . import ops, ir
from .ops import norm, bv, bo, binop, icmp, ite, BVV
from .engine import (Page, VMA, MemFile, Thread, Redirect, PathEnd, Infeasible, Inconclusive, Violation, PAGE, END)

EINTR, EIO, ENOMEM, EFAULT, EINVAL, ENOSYS, EMFILE, ENOENT, EBADF = 4, 5, 12, 14, 22, 38, 24, 2, 9
MAP_SHARED, MAP_PRIVATE, MAP_FIXED, MAP_ANON = 1, 2, 0x10, 0x20
M64 = (1 << 64) - 1
VLIMIT = 1 << 47

class Models:
    def __init__(s, asm=None):
        s.tab = {}
        for n in dir(s):
            if n.startswith('c_'): s.tab['@' + n[2:]] = getattr(s, n)
        s.override = set()
        s.asm = asm

    def reset(s, E):
        E.env.update(mutex={}, fault_budget=0, munmap_budget=0, fault_fired=0, expect_abort=False, fork=[], mmap_mode=0,
                     locs={}, races=True, mmap_log=[], munmap_log=[], covers=[])
        E.load_v = lambda a, n, fl: E.load(a, n)
        E.store_v = lambda a, n, v, fl: E.store(a, n, v)
        E.__dict__.pop('load', None); E.__dict__.pop('store', None)
        E.volatile_point = lambda nn: nn
        E.byval = lambda p, n: s.byval(E, p, n)
        if s.asm: s.asm.reset(E)

    def init_thread(s, E, t):
        t.errno_addr = E.heap_next; E.heap_next += 2 * PAGE
        E.place(t.errno_addr, 4, b'\0\0\0\0', True, 'tls', 'errno')
        # thread control block: the word at the thread pointer is its own address (x86 ABI)
        if E.psize == 8: t.tp = 0x6000_0000_0000 + t.tid * 0x100_0000
        else: t.tp = 0x6000_0000 + t.tid * 0x10_0000
        tcb = t.tp.to_bytes(E.psize, 'little' if E.little else 'big')
        E.place(t.tp, 64, tcb + bytes(64 - E.psize), True, 'tcb', 'tcb')

    # -------------------------------------------------- dispatch
    def call(s, E, name, args, widths=None, rb=0):
        f = s.tab.get(name)
        if f is None:
            if name[1:] in s.env_returns: return s.env_returns[name[1:]]
            raise Inconclusive('call of unmodelled external function %s' % name)
        E.env['widths'] = widths
        v = f(E, *args)
        if v.__class__ is int and rb: v &= (1 << rb) - 1
        return v
    env_returns = {}

    def byval(s, E, p, n):
        q = E.alloca(n, 16); s.memcpy(E, q, p, n, False); return q

    def errno(s, E, v): E.store(E.cur.errno_addr, 4, v)

    def fail(s, E, e):
        s.errno(E, e); return M64

    def fault(s, E, kind):
        """may this fallible call fail here?"""
        bk = 'munmap_budget' if kind == 'munmap' else 'fault_budget'
        b = E.env[bk]
        if b <= 0: return False
        if E.choice(2, 'fault:' + kind, 'fault'):
            E.env[bk] = b - 1; E.env['fault_fired'] += 1
            E.trace.append('fault in ' + kind)
            return True
        return False

    # -------------------------------------------------- arithmetic helpers
    def div(s, E, op, a, b, n):
        if b.__class__ is int:
            if b == 0: raise Violation('division by zero', 'ub')
        elif E.branch(icmp('eq', b, 0, n)): raise Violation('division by zero', 'ub')
        return binop(op, a, b, n)

    def switch(s, E, c, vals, n):
        for v in vals:
            if E.branch(icmp('eq', c, v, n)): return v
        return -1

    def bits(s, op, a, n):
        if a.__class__ is int:
            if op == 'ctpop': return bin(a).count('1')
            if op == 'ctlz': return n - a.bit_length()
            if op == 'cttz': return n if a == 0 else (a & -a).bit_length() - 1
            return int.from_bytes(a.to_bytes(n // 8, 'little'), 'big')
        if op == 'ctpop':
            e = BVV(0, n)
            for i in range(n): e = e + z3.ZeroExt(n - 1, z3.Extract(i, i, a))
            return norm(e)
        if op == 'ctlz':
            e = BVV(n, n)
            for i in range(n): e = z3.If(z3.Extract(i, i, a) == 1, BVV(n - 1 - i, n), e)
            return norm(e)
        if op == 'cttz':
            e = BVV(n, n)
            for i in range(n - 1, -1, -1): e = z3.If(z3.Extract(i, i, a) == 1, BVV(i, n), e)
            return norm(e)
        return norm(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(n // 8)]))

    def ovf(s, k, a, b, n):
        x, y = bv(a, n), bv(b, n)
        if k[0] == 'u': X, Y = z3.ZeroExt(n, x), z3.ZeroExt(n, y)
        else: X, Y = z3.SignExt(n, x), z3.SignExt(n, y)
        w = X + Y if 'add' in k else X - Y if 'sub' in k else X * Y
        r = z3.Extract(n - 1, 0, w)
        if k == 'umul':
            o = z3.Not(z3.BVMulNoOverflow(x, y, False))
        else:
            o = (z3.ZeroExt(n, r) if k[0] == 'u' else z3.SignExt(n, r)) != w
        return [norm(r), norm(o)]

    def load_agg(s, E, p, t):
        if t.k == 'struct':
            offs = E.prog.m.offs(t)
            return [s.load_agg(E, binop('add', p, o, E.PB), f) for o, f in zip(offs, t.fields)]
        if t.k == 'array':
            es = E.prog.m.size(t.elem)
            return [s.load_agg(E, binop('add', p, i * es, E.PB), t.elem) for i in range(t.n)]
        n = E.prog.bits(t); nb = (n + 7) // 8
        return ops.trunc(E.load(p, nb), nb * 8, n)
    def store_agg(s, E, p, v, t):
        if t.k == 'struct':
            for o, f, x in zip(E.prog.m.offs(t), t.fields, v or [None] * 99): s.store_agg(E, binop('add', p, o, E.PB), x, f)
        elif t.k == 'array':
            es = E.prog.m.size(t.elem)
            for i in range(t.n): s.store_agg(E, binop('add', p, i * es, E.PB), v[i] if v else None, t.elem)
        elif v is not None:
            n = E.prog.bits(t); nb = (n + 7) // 8
            E.store(p, nb, ops.zext(v, n, nb * 8))
    def copy_agg(s, v, t):
        if v is None:
            if t.k == 'struct': return [s.copy_agg(None, f) for f in t.fields]
            if t.k == 'array': return [s.copy_agg(None, t.elem) for _ in range(t.n)]
            return None
        if isinstance(v, list): return [s.copy_agg(x, f) for x, f in zip(v, t.fields if t.k == 'struct' else [t.elem] * t.n)]
        return v

    def fence(s, E): s.barrier(E)
    def cmpxchg(s, E, p, c, nv, n):
        nb = n // 8
        old = E.load_v(p, nb, ['atomic', 'seq_cst'])
        ok = E.branch(icmp('eq', old, c, n))
        if ok: E.store_v(p, nb, nv, ['atomic', 'seq_cst'])
        return [old, 1 if ok else 0]
    def atomicrmw(s, E, op, p, v, n):
        nb = n // 8
        old = E.load_v(p, nb, ['atomic', 'seq_cst'])
        if op == 'xchg': nv = v
        elif op in ('add', 'sub', 'and', 'or', 'xor'): nv = binop(op, old, v, n)
        else: raise Inconclusive('atomicrmw ' + op)
        E.store_v(p, nb, nv, ['atomic', 'seq_cst'])
        return old

    # -------------------------------------------------- memory functions
    def memcpy(s, E, d, src, n, move=False):
        n = E.concretize(n, 'copy length')
        if n == 0: return d
        d = E.concretize(d, 'address'); src = E.concretize(src, 'address')
        if not move and not (d + n <= src or src + n <= d) and d != src:
            raise Violation('memcpy with overlapping buffers', 'memory')
        if n > (1 << 22): raise Violation('memcpy of %d bytes' % n, 'memory')
        s.acc(E, src, n, False); s.acc(E, d, n, True)
        if move and src < d:
            bs = [E.load_byte(src + i) for i in range(n)]
            for i in range(n): E.store_byte(d + i, bs[i])
            return d
        if not E.cow_watch:
            i = 0
            while i < n:
                so = (src + i) & 4095; do = (d + i) & 4095
                k = min(n - i, PAGE - so, PAGE - do)
                sp = E.pages.get((src + i) >> 12); dp = E.wpages.get((d + i) >> 12)
                if sp is not None and dp is not None and sp.sym is None and sp.mask is None and dp.sym is None and dp.mask is None \
                   and sp.lo <= so and so + k <= sp.hi and dp.lo <= do and do + k <= dp.hi:
                    dp.data[do:do + k] = sp.data[so:so + k]
                else:
                    for j in range(i, i + k): E.store_byte(d + j, E.load_byte(src + j))
                i += k
            return d
        for i in range(n): E.store_byte(d + i, E.load_byte(src + i))
        return d

    def memset(s, E, p, c, n):
        n = E.concretize(n, 'fill length')
        if n == 0: return p
        q = E.concretize(p, 'address')
        if n > (1 << 22): raise Violation('memset of %d bytes' % n, 'memory')
        c = ops.trunc(c, 8 if c.__class__ is int else c.size(), 8)
        s.acc(E, q, n, True)
        if c.__class__ is int and not E.cow_watch:
            i = 0
            while i < n:
                o = (q + i) & 4095; k = min(n - i, PAGE - o)
                pg = E.wpages.get((q + i) >> 12) or E.wpage((q + i) >> 12)
                if pg is None or o < pg.lo or o + k > pg.hi: E.bad(q + i, k, 'write')
                pg.data[o:o + k] = bytes([c]) * k
                if pg.mask is not None: pg.mask[o:o + k] = b'\1' * k
                if pg.sym is not None:
                    for j in range(o, o + k): pg.sym.pop(j, None)
                i += k
            return p
        for i in range(n): E.store_byte(q + i, c if c.__class__ is int else (c, 0))
        return p

    def acc(s, E, a, n, w):
        if E.mt: s.race_access(E, a, n, w, False)

    def c_memcpy(s, E, d, a, n): return s.memcpy(E, d, a, n)
    def c_memmove(s, E, d, a, n): return s.memcpy(E, d, a, n, True)
    def c_mempcpy(s, E, d, a, n): s.memcpy(E, d, a, n); return binop('add', d, n, E.PB)
    def c_memset(s, E, p, c, n): return s.memset(E, p, c, n)
    def c_bzero(s, E, p, n): s.memset(E, p, 0, n)
    def c_explicit_bzero(s, E, p, n): s.memset(E, p, 0, n)
    def c_bcopy(s, E, a, d, n): s.memcpy(E, d, a, n, True)
    def c_memcmp(s, E, a, b, n):
        n = E.concretize(n, 'compare length'); a = E.concretize(a, 'address'); b = E.concretize(b, 'address')
        s.acc(E, a, n, False); s.acc(E, b, n, False)
        xs = [(E.byte_val(a + i), E.byte_val(b + i)) for i in range(n)]
        res = 0
        for x, y in reversed(xs):
            if x.__class__ is int and y.__class__ is int:
                if x != y: res = 0xffffffff if x < y else 1
                continue
            if x.__class__ is not int and y.__class__ is not int and x.eq(y): continue
            X, Y = bv(x, 8), bv(y, 8)
            res = norm(z3.If(X == Y, bv(res, 32), z3.If(z3.ULT(X, Y), BVV(0xffffffff, 32), BVV(1, 32))))
        return res
    def c_bcmp(s, E, a, b, n): return s.c_memcmp(E, a, b, n)
    def c_memchr(s, E, p, c, n):
        n = E.concretize(n, 'length'); p = E.concretize(p, 'address'); c = ops.trunc(c, 32, 8)
        for i in range(n):
            if E.branch(icmp('eq', E.byte_val(p + i), c, 8)): return p + i
        return 0
    def c_memrchr(s, E, p, c, n):
        n = E.concretize(n, 'length'); p = E.concretize(p, 'address'); c = ops.trunc(c, 32, 8)
        for i in reversed(range(n)):
            if E.branch(icmp('eq', E.byte_val(p + i), c, 8)): return p + i
        return 0
    def c_rawmemchr(s, E, p, c): return s.c_memchr(E, p, c, 1 << 20)
    def c_strchrnul(s, E, p, c):
        p = E.concretize(p, 'address')
        r = s.c_strchr(E, p, c)
        return r if r else p + len(E.cstr(p))
    def _span(s, E, p, set_, want):
        st = E.cstr(set_); p = E.concretize(p, 'address'); n = 0
        while True:
            b = E.byte_val(p + n)
            if E.branch(icmp('eq', b, 0, 8)): return n
            hit = False
            for c in st:
                if E.branch(icmp('eq', b, c, 8)): hit = True; break
            if hit != want: return n
            n += 1
    def c_strspn(s, E, p, a): return s._span(E, p, a, True)
    def c_strcspn(s, E, p, a): return s._span(E, p, a, False)
    def c_strpbrk(s, E, p, a):
        p = E.concretize(p, 'address'); n = s._span(E, p, a, False)
        return 0 if E.branch(icmp('eq', E.byte_val(p + n), 0, 8)) else p + n
    def c_strstr(s, E, p, a):
        p = E.concretize(p, 'address'); n = len(E.cstr(a))
        while True:
            if s.c_strncmp(E, p, a, n) == 0: return p
            if E.branch(icmp('eq', E.byte_val(p), 0, 8)): return 0
            p += 1
    def c_stpcpy(s, E, d, a): n = len(E.cstr(a)); s.c_strcpy(E, d, a); return E.concretize(d, 'address') + n
    def c_strlen(s, E, p): return len(E.cstr(p))
    def c_strnlen(s, E, p, n):
        n = E.concretize(n, 'length'); p = E.concretize(p, 'address')
        for i in range(n):
            if E.branch(icmp('eq', E.byte_val(p + i), 0, 8)): return i
        return n
    def c_strcmp(s, E, a, b): return s.c_strncmp(E, a, b, 1 << 20)
    def c_strncmp(s, E, a, b, n):
        n = E.concretize(n, 'length'); a = E.concretize(a, 'address'); b = E.concretize(b, 'address')
        for i in range(n):
            x, y = E.byte_val(a + i), E.byte_val(b + i)
            if E.branch(icmp('ne', x, y, 8)):
                return 0xffffffff if E.branch(icmp('ult', x, y, 8)) else 1
            if E.branch(icmp('eq', x, 0, 8)): return 0
        return 0
    def c_strchr(s, E, p, c):
        p = E.concretize(p, 'address'); c = ops.trunc(c, 32, 8)
        while True:
            b = E.byte_val(p)
            if E.branch(icmp('eq', b, c, 8)): return p
            if E.branch(icmp('eq', b, 0, 8)): return 0
            p += 1
    def c_strrchr(s, E, p, c):
        p = E.concretize(p, 'address'); c = ops.trunc(c, 32, 8); r = 0
        while True:
            b = E.byte_val(p)
            if E.branch(icmp('eq', b, c, 8)): r = p
            if E.branch(icmp('eq', b, 0, 8)): return r
            p += 1
    def c_strcpy(s, E, d, a):
        bs = E.cstr(a) + [0]; q = E.concretize(d, 'address')
        for i, b in enumerate(bs): E.store(q + i, 1, b)
        return d
    def c_strncpy(s, E, d, a, n):
        n = E.concretize(n, 'length'); bs = (E.cstr(a) + [0] * n)[:n]; q = E.concretize(d, 'address')
        for i, b in enumerate(bs): E.store(q + i, 1, b)
        return d
    def c_strcat(s, E, d, a):
        q = E.concretize(d, 'address') + len(E.cstr(d))
        s.c_strcpy(E, q, a); return d

    # ---- conversion
    def strtox(s, E, p, endp, base, signed):
        base = E.concretize(base, 'base')
        p0 = q = E.concretize(p, 'address')
        def rng(b, lo, hi):
            if b.__class__ is int: return lo <= b <= hi
            return E.branch(norm(z3.And(z3.UGE(b, lo), z3.ULE(b, hi))))
        while True:
            b = E.byte_val(q)
            if rng(b, 9, 13) or rng(b, 32, 32): q += 1
            else: break
        neg = False
        b = E.byte_val(q)
        if rng(b, 45, 45): neg = True; q += 1
        elif rng(b, 43, 43): q += 1
        if base == 0 or base == 16:
            if rng(E.byte_val(q), 48, 48) and (rng(E.byte_val(q + 1), 120, 120) or rng(E.byte_val(q + 1), 88, 88)):
                q += 2; base = 16
            elif base == 0: base = 8 if rng(E.byte_val(q), 48, 48) else 10
        W = 80
        val = 0; nd = 0; over = False
        n = E.PB
        while True:
            b = E.byte_val(q)
            if rng(b, 48, 48 + min(base, 10) - 1): d = binop('sub', b, 48, 8)
            elif base > 10 and rng(b, 97, 97 + base - 11): d = binop('sub', b, 87, 8)
            elif base > 10 and rng(b, 65, 65 + base - 11): d = binop('sub', b, 55, 8)
            else: break
            nd += 1; q += 1
            if over: continue
            val = binop('add', binop('mul', val, base, W), ops.zext(d, 8, W), W)
            lim = ((1 << (n - 1)) if neg else (1 << (n - 1)) - 1) if signed else (1 << n) - 1
            if E.branch(icmp('ugt', val, lim, W)): over = True
        if endp.__class__ is not int or endp != 0:
            E.store(endp, E.psize, q if nd else p0)
        if over:
            s.errno(E, 34)
            if signed: return (1 << (n - 1)) if neg else (1 << (n - 1)) - 1
            return (1 << n) - 1
        v = ops.trunc(val, W, n)
        if neg: v = binop('sub', 0, v, n)
        return v if nd else 0
    def c_strtol(s, E, p, e, b): return s.strtox(E, p, e, b, True)
    def c_strtoll(s, E, p, e, b): return s.strtox(E, p, e, b, True)
    def c_strtoul(s, E, p, e, b): return s.strtox(E, p, e, b, False)
    def c_strtoull(s, E, p, e, b): return s.strtox(E, p, e, b, False)
    def c___isoc23_strtol(s, E, p, e, b): return s.strtox(E, p, e, b, True)
    def c___isoc23_strtoul(s, E, p, e, b): return s.strtox(E, p, e, b, False)
    def c___isoc23_strtoll(s, E, p, e, b): return s.strtox(E, p, e, b, True)
    def c___isoc23_strtoull(s, E, p, e, b): return s.strtox(E, p, e, b, False)
    def c_atoi(s, E, p): return ops.trunc(s.strtox(E, p, 0, 10, True), 64, 32)
    def c_isdigit(s, E, c): return ops.zext(norm(z3.And(z3.UGE(bv(c, 32), 48), z3.ULE(bv(c, 32), 57))), 1, 32)
    def c___ctype_b_loc(s, E):
        a = E.env.get('ctype')
        if a is None:
            tab = bytearray(384 * 2)
            for c in range(-128, 256):
                f = 0
                if 0 <= c < 128:
                    ch = chr(c)
                    if ch.isupper(): f |= 0x100
                    if ch.islower(): f |= 0x200
                    if ch.isalpha(): f |= 0x400
                    if ch.isdigit(): f |= 0x800
                    if ch in '0123456789abcdefABCDEF': f |= 0x1000
                    if ch in ' \t\n\v\f\r': f |= 0x2000
                    if 32 <= c < 127: f |= 0x4000
                    if 32 < c < 127: f |= 0x8000
                    if ch in ' \t': f |= 1
                    if c < 32 or c == 127: f |= 2
                    if 32 < c < 127 and not ch.isalnum(): f |= 4
                    if ch.isalnum(): f |= 8
                tab[(c + 128) * 2:(c + 128) * 2 + 2] = f.to_bytes(2, 'little')
            t = E.heap_next; E.heap_next += 3 * PAGE
            E.place(t, len(tab), tab, False, 'global', 'ctype')
            a = E.heap_next; E.heap_next += 2 * PAGE
            E.place(a, 8, (t + 256).to_bytes(8, 'little'), False, 'global', 'ctype_loc')
            E.env['ctype'] = a
        return a

    # ---- formatting
    def fmt(s, E, f, args, widths):
        f = E.cstr_py(f); out = []; ai = 0; i = 0
        import re
        for m in re.finditer(r'%([-+ #0]*)(\d*|\*)(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])|([^%]+)', f):
            if m.group(6) is not None: out += list(m.group(6).encode('latin1')); continue
            c = m.group(5)
            if c == '%': out.append(37); continue
            if m.group(2) == '*' or m.group(3) == '*': raise Inconclusive('printf *')
            if ai >= len(args): raise Violation('printf argument missing', 'ub')
            a = args[ai]; w = widths[ai] if widths else 64; ai += 1
            if c == 's':
                if m.group(3):
                    q = E.concretize(a, 'address'); t = []
                    for k in range(int(m.group(3))):
                        b = E.byte_val(q + k)
                        if E.branch(icmp('eq', b, 0, 8)): break
                        t.append(b)
                else: t = E.cstr(a)
                wd = int(m.group(2) or 0)
                out += [32] * max(0, wd - len(t)) + t; continue
            if a.__class__ is not int: a = E.concretize(a, 'printf argument', 64)
            if c in 'di': t = str(ops.sgn(a, w))
            elif c == 'u': t = str(a)
            elif c == 'x': t = '%x' % a
            elif c == 'X': t = '%X' % a
            elif c == 'p': t = '0x%x' % a
            elif c == 'c': t = chr(a & 255)
            else: raise Inconclusive('printf %' + c)
            wd = int(m.group(2) or 0)
            t = t.rjust(wd, '0' if '0' in m.group(1) else ' ')
            out += list(t.encode('latin1'))
        return out
    def c_snprintf(s, E, buf, n, f, *args):
        w = (E.env.get('widths') or [])[3:]
        out = s.fmt(E, f, args, w); n = E.concretize(n, 'size'); b = E.concretize(buf, 'address')
        if n > 0:
            for i, c in enumerate(out[:n - 1]): E.store(b + i, 1, c)
            E.store(b + min(len(out), n - 1), 1, 0)
        return len(out)
    def c_sprintf(s, E, buf, f, *args):
        w = (E.env.get('widths') or [])[2:]
        out = s.fmt(E, f, args, w); b = E.concretize(buf, 'address')
        for i, c in enumerate(out + [0]): E.store(b + i, 1, c)
        return len(out)
    def c_fprintf(s, E, f, fmt, *args): return 1
    def c_vfprintf(s, E, *a): return 1
    def c_printf(s, E, *a): return 1
    def c_puts(s, E, *a): return 1
    def c_putchar(s, E, *a): return 1
    def c_fputs(s, E, *a): return 1
    def c_fputc(s, E, *a): return 1
    def c_fwrite(s, E, a, b, n, f): return n
    def c_fflush(s, E, f): return 0
    def c_perror(s, E, p): return 0
    def c_strerror(s, E, e):
        a = E.env.get('strerr')
        if a is None:
            a = E.heap_next; E.heap_next += 2 * PAGE; E.place(a, 8, b'error\0\0\0', True, 'global', 'strerror'); E.env['strerr'] = a
        return a

    # ---- heap
    def c_malloc(s, E, n):
        if s.fault(E, 'malloc'): s.errno(E, ENOMEM); return 0
        if n.__class__ is not int and E.branch(icmp('ugt', n, 1 << 24, E.PB)): s.errno(E, ENOMEM); return 0
        if n.__class__ is int and n > (1 << 24): s.errno(E, ENOMEM); return 0
        return E.malloc(n, False)
    def c_calloc(s, E, a, b):
        if s.fault(E, 'calloc'): s.errno(E, ENOMEM); return 0
        n = norm(bv(a, E.PB) * bv(b, E.PB)) if (a.__class__ is not int or b.__class__ is not int) else a * b
        if n.__class__ is not int:
            # product overflow or too large: fails
            if E.branch(s.ovf('umul', a, b, E.PB)[1]): s.errno(E, ENOMEM); return 0
            if E.branch(icmp('ugt', n, 1 << 24, E.PB)): s.errno(E, ENOMEM); return 0
        elif n > (1 << 24): s.errno(E, ENOMEM); return 0
        return E.malloc(n, True)
    def c_realloc(s, E, p, n):
        p = E.concretize(p, 'pointer')
        if p == 0: return s.c_malloc(E, n)
        if s.fault(E, 'realloc'): s.errno(E, ENOMEM); return 0
        o = E.heap.get(p)
        if o is None: raise Violation('realloc of a pointer that is not a live heap block', 'memory')
        q = E.malloc(n, False)
        s.memcpy(E, q, p, min(o.size, E.heap[q].size)); E.free(p)
        return q
    def c_free(s, E, p): E.free(p)
    def c_posix_memalign(s, E, pp, al, n):
        if s.fault(E, 'malloc'): return ENOMEM
        al = E.concretize(al, 'alignment'); n = E.concretize(n, 'size')
        E.heap_next = (E.heap_next + al - 1) // al * al
        E.store(pp, E.psize, E.malloc(n, False)); return 0
    def c_aligned_alloc(s, E, al, n):
        if s.fault(E, 'malloc'): s.errno(E, ENOMEM); return 0
        al = E.concretize(al, 'alignment'); n = E.concretize(n, 'size')
        E.heap_next = (E.heap_next + al - 1) // al * al
        return E.malloc(n, False)
    def c_strdup(s, E, p):
        bs = E.cstr(p)
        if s.fault(E, 'strdup'): s.errno(E, ENOMEM); return 0
        q = E.malloc(len(bs) + 1, False)
        for i, b in enumerate(bs + [0]): E.store(q + i, 1, b)
        return q
    def c_strndup(s, E, p, n):
        n = E.concretize(n, 'length'); p = E.concretize(p, 'address'); bs = []
        for i in range(n):
            b = E.byte_val(p + i)
            if E.branch(icmp('eq', b, 0, 8)): break
            bs.append(b)
        if s.fault(E, 'strdup'): s.errno(E, ENOMEM); return 0
        q = E.malloc(len(bs) + 1, False)
        for i, b in enumerate(bs + [0]): E.store(q + i, 1, b)
        return q

    # ---- process
    def c___errno_location(s, E): return E.cur.errno_addr
    def abort_(s, E, why):
        if E.env['fork']: return s.child_exit(E, 134)
        if E.env['expect_abort']: raise PathEnd('abort (expected)')
        if E.opts.get('ignore_aborts'):
            E.stats.covers['(aborted)'] = E.stats.covers.get('(aborted)', 0) + 1
            raise PathEnd('abort (outside this property)')
        raise Violation('process aborted: %s (in %s)' % (why, E.frames[-1].fn.name), 'abort')
    def c_abort(s, E): return s.abort_(E, 'abort()')
    def c___assert_fail(s, E, a, f, l, fn): return s.abort_(E, 'assertion failed: ' + E.cstr_py(a))
    def c_exit(s, E, c):
        if E.env['fork']: return s.child_exit(E, c)
        raise PathEnd('exit')
    def c__exit(s, E, c): return s.c_exit(E, c)
    def c_sysconf(s, E, n):
        n = E.concretize(n, 'sysconf name')
        if n in (30,): return PAGE
        raise Inconclusive('sysconf(%d)' % n)
    def c_getpagesize(s, E): return PAGE
    def c_getpid(s, E): return 4242
    def c_sched_yield(s, E): return 0
    def c_getenv(s, E, p): return 0

    # -------------------------------------------------- virtual memory
    def carve(s, E, a, b):
        """remove [a,b) from the mappings"""
        for vp in range(a >> 12, b >> 12) if (b - a) <= (1 << 28) else [v for v in list(E.pages) if a <= v << 12 < b]:
            E.pages.pop(vp, None); E.wpages.pop(vp, None)
        out = []
        for v in E.vmas:
            e = v.end
            if e.__class__ is not int:
                if v.start <= a and b.__class__ is int and E.must(icmp('ule', b, e, 64)):
                    l = v.clone(); l.end = a
                    r = v.clone(); r.start = b; r.off = v.off + (b - v.start)
                    if v.start < a: out.append(l)
                    out.append(r)
                elif E.must(icmp('ule', e, a, 64)) or b <= v.start: out.append(v)
                else: raise Inconclusive('partial unmap of a mapping of symbolic length')
                continue
            if e <= a or v.start >= b: out.append(v); continue
            if v.start < a:
                l = v.clone(); l.end = a; out.append(l)
            if e > b:
                r = v.clone(); r.start = b; r.off = v.off + (b - v.start); out.append(r)
        E.vmas = out

    def covered(s, E, a, b):
        """is [a,b) completely mapped?"""
        cur = a
        while cur < b:
            v = E.find_vma(cur)
            if v is None: return False
            if v.end.__class__ is not int:
                return E.must(icmp('ule', b, v.end, 64))
            cur = v.end
        return True

    def c_mmap(s, E, addr, length, prot, flags, fd, off):
        flags = E.concretize(flags, 'mmap flags'); fd = E.concretize(fd, 'fd'); prot = E.concretize(prot, 'prot')
        off = E.concretize(off, 'offset')
        if length.__class__ is not int:
            if E.branch(icmp('eq', length, 0, 64)): return s.fail(E, EINVAL)
            if E.branch(icmp('ugt', length, VLIMIT, 64)): return s.fail(E, ENOMEM)
        else:
            if length == 0: return s.fail(E, EINVAL)
            if length > VLIMIT: return s.fail(E, ENOMEM)
        addr = E.concretize(addr, 'mmap address')
        if flags & MAP_FIXED:
            if addr & 4095: return s.fail(E, EINVAL)
            if s.fault(E, 'mmap_fixed'): return s.fail(E, ENOMEM)
            if length.__class__ is not int: length = E.concretize(length, 'mmap length')
            length = (length + 4095) & ~4095
            if not s.covered(E, addr, addr + length):
                raise Violation('MAP_FIXED mapping over addresses the caller does not own (0x%x+0x%x)' % (addr, length), 'memory')
            s.carve(E, addr, addr + length)
        else:
            if s.fault(E, 'mmap'): return s.fail(E, ENOMEM)
            mode = E.env['mmap_mode']
            if length.__class__ is int:
                length = (length + 4095) & ~4095
                if mode:
                    # arbitrary page-aligned address: every residue modulo `mode` bytes
                    base = (E.mmap_next + mode - 1) // mode * mode
                    k = E.input(64, 'mmap_page', 'addr')
                    E.assume(norm(z3.ULT(k, mode // PAGE)))
                    n = mode // PAGE
                    if n > 64:
                        # too many residues: the neighbourhoods of the quarters of the span
                        E.assume(norm(z3.Or([k == q for q in sorted({(i * n // 4 + j) % n for i in range(4) for j in (-3, -2, -1, 0, 1, 2)})])))
                    addr = norm(BVV(base, 64) + k * PAGE)
                    E.mmap_next = base + mode + length + PAGE
                    addr_e = addr
                    v = VMA(None, None, False, None, 0, prot)
                    if fd != 0xffffffff and not flags & MAP_ANON: raise Inconclusive('file mapping at symbolic address')
                    # the address is enumerated completely by the solver
                    addr = E.concretize(addr_e, 'mmap address', 2 * min(n, 64))
                elif length > 1 << 36: addr = (1 << 50) + 0x3000 + len(E.vmas) * (1 << 49)
                else:
                    addr = E.mmap_next; E.mmap_next = addr + length + PAGE
            else:
                addr = (1 << 50) + 0x3000 + len(E.vmas) * (1 << 49)
                length = binop('and', binop('add', length, 4095, 64), M64 ^ 4095, 64)
        E.env['mmap_log'].append((addr, length, flags))
        end = addr + length if length.__class__ is int else norm(BVV(addr, 64) + length)
        f = None
        if not flags & MAP_ANON:
            f = E.files.get(fd)
            if f is None: return s.fail(E, EBADF)
        E.vmas.append(VMA(addr, end, bool(flags & MAP_SHARED), f, off, prot))
        return addr

    def c_mmap64(s, E, *a): return s.c_mmap(E, *a)

    def c_sx_init_ptr(s, E, p):
        """address of the shared (initial values) mapping of the file page that p maps, or 0"""
        p = E.concretize(p, 'address'); v = E.find_vma(p)
        if v is None or v.file is None: return 0
        o = v.off + p - v.start
        for w in E.vmas:
            if w.shared and w.file is v.file and w.end.__class__ is int and 0 <= o - w.off < w.end - w.start: return w.start + o - w.off
        return 0

    def c_munmap(s, E, addr, length):
        if addr.__class__ is not int:
            # trimming the tail of a mapping of symbolic length
            if E.branch(icmp('ne', binop('and', addr, 4095, 64), 0, 64)): return s.fail(E, EINVAL)
            end = binop('add', addr, binop('and', binop('add', length, 4095, 64), M64 ^ 4095, 64), 64)
            for v in E.vmas:
                if v.end.__class__ is not int and E.must(z3.And(bv(end, 64) == v.end, z3.UGE(addr, v.start), z3.ULT(addr, v.end))):
                    if s.fault(E, 'munmap'): return s.fail(E, ENOMEM)
                    v.end = addr
                    return 0
        addr = E.concretize(addr, 'munmap address')
        if addr & 4095: return s.fail(E, EINVAL)
        if length.__class__ is not int:
            for v in E.vmas:
                if v.end.__class__ is not int and v.start <= addr and E.must(icmp('eq', binop('add', addr, length, 64), v.end, 64)):
                    if s.fault(E, 'munmap'): return s.fail(E, ENOMEM)
                    for vp in [p for p in E.pages if p << 12 >= addr and p << 12 >= v.start and (p << 12) < addr + VLIMIT]:
                        E.pages.pop(vp, None); E.wpages.pop(vp, None)
                    if v.start == addr: E.vmas.remove(v)
                    else: v.end = addr
                    return 0
            length = E.concretize(length, 'munmap length')
        if length == 0: return s.fail(E, EINVAL)
        if s.fault(E, 'munmap'): return s.fail(E, ENOMEM)
        length = (length + 4095) & ~4095
        # a mapping with symbolic end that is completely or partly covered
        for v in E.vmas:
            if v.end.__class__ is not int and v.start < addr + length:
                if v.start == addr and E.must(icmp('eq', addr + length, v.end, 64)): v.end = addr + length
        if E.env.get('owned_only', True) and not s.covered(E, addr, addr + length):
            raise Violation('munmap of addresses that are not mapped by the caller (0x%x+0x%x)' % (addr, length), 'memory')
        s.carve(E, addr, addr + length)
        return 0

    def c_madvise(s, E, addr, length, adv):
        adv = E.concretize(adv, 'advice'); addr = E.concretize(addr, 'address'); length = E.concretize(length, 'length')
        if addr & 4095: return s.fail(E, EINVAL)
        if s.fault(E, 'madvise'): return s.fail(E, EINVAL)
        length = (length + 4095) & ~4095
        if not s.covered(E, addr, addr + length):
            raise Violation('madvise on addresses that are not mapped', 'memory')
        # split at the borders
        out = []
        for v in E.vmas:
            if v.end.__class__ is not int:
                raise Inconclusive('madvise on a mapping of symbolic length')
            cuts = sorted({v.start, v.end, *[c for c in (addr, addr + length) if v.start < c < v.end]})
            for a, b in zip(cuts, cuts[1:]):
                w = v.clone(); w.start = a; w.end = b; w.off = v.off + (a - v.start)
                if addr <= a and b <= addr + length:
                    if adv == 10: w.dontfork = True
                    elif adv == 11: w.dontfork = False
                    elif adv == 18:
                        if w.file is not None or w.shared: return s.fail(E, EINVAL)
                        w.wipe = True
                    elif adv == 19: w.wipe = False
                    elif adv == 4:
                        for vp in range(a >> 12, b >> 12): E.pages.pop(vp, None); E.wpages.pop(vp, None)
                    elif adv in (0, 1, 2, 3, 12, 13, 14, 15, 16, 17): pass
                    else: raise Inconclusive('madvise %d' % adv)
                out.append(w)
        E.vmas = out
        return 0
    def c_mprotect(s, E, addr, length, prot): return 0
    def c_mlock(s, E, a, l): return 0

    def c_memfd_create(s, E, name, flags):
        nm = E.cstr(name)
        if len(nm) > 249: return s.fail(E, EINVAL)
        if s.fault(E, 'memfd_create'): return s.fail(E, EMFILE)
        fd = E.nextfd
        while fd in E.files: fd += 1
        E.files[fd] = MemFile(fd); return fd
    def c_ftruncate(s, E, fd, n):
        fd = E.concretize(fd, 'fd'); n = E.concretize(n, 'length')
        f = E.files.get(fd)
        if f is None: return s.fail(E, EBADF)
        if s.fault(E, 'ftruncate'): return s.fail(E, EINVAL)
        if n >> 63: return s.fail(E, EINVAL)
        f.size = n; return 0
    def c_ftruncate64(s, E, fd, n): return s.c_ftruncate(E, fd, n)
    def c_fallocate(s, E, fd, mode, off, n): return s.c_ftruncate(E, fd, binop('add', off, n, 64))
    def c_close(s, E, fd):
        fd = E.concretize(fd, 'fd')
        if fd not in E.files: raise Violation('close of a descriptor that is not open (%d)' % ops.sgn(fd, 32), 'memory')
        del E.files[fd]
        if s.fault(E, 'close'): return s.fail(E, EIO)
        return 0

    # -------------------------------------------------- fork
    def c_sx_fork(s, E, fn, arg):
        """run fn(arg) in a child process; returns its exit status"""
        a = E.concretize(fn, 'function'); pf = E.prog.fn_by_addr[a]
        snap = (E.pages, E.wpages, E.vmas, dict(E.heap), dict(E.files), E.cow_watch, E.env['mutex'].copy(), E.env['expect_abort'])
        E.trace.append('fork')
        vmas = [v.clone() for v in E.vmas if not v.dontfork]
        def vma_of(vp):
            x = vp << 12
            for v in E.vmas:
                if v.start <= x and (v.end.__class__ is not int or x < v.end): return v
            return None
        pages = {}; wp = {}
        for vp, p in E.pages.items():
            if p.obj is None:
                v = vma_of(vp)
                if v is None or v.dontfork or v.wipe: continue
                if v.shared: pages[vp] = p; wp[vp] = p; continue
                if vp in E.wpages: q = p.copy(); pages[vp] = q; wp[vp] = q
                else: pages[vp] = p
            else:
                if vp in E.wpages: q = p.copy(); pages[vp] = q; wp[vp] = q
                else: pages[vp] = p
        E.pages = pages; E.wpages = wp; E.vmas = vmas; E.cow_watch = {}
        E.env['expect_abort'] = False
        argv = [arg][:len(pf.params)]
        def seg(slot, nxt):
            depth = len(E.frames)
            E.env['fork'].append((snap, depth, slot, nxt))
            E.push(pf, argv, None, None)
            E.frames[-1].onret = lambda v: s.child_finish(E, v)
            return pf.entry
        return Redirect(seg)

    def child_exit(s, E, status):
        def seg(slot, nxt):
            snap, depth, _, _ = E.env['fork'][-1]
            E.r = E.frames[depth].r
            del E.frames[depth:]
            return s.child_finish(E, status)
        return Redirect(seg)

    def child_finish(s, E, status):
        snap, depth, slot, nxt = E.env['fork'].pop()
        E.pages, E.wpages, E.vmas, E.heap, E.files, E.cow_watch, E.env['mutex'], E.env['expect_abort'] = snap
        E.trace.append('child exits with %s' % (status if status.__class__ is int else 'symbolic'))
        if slot is not None: E.r[slot] = status
        return nxt

    # -------------------------------------------------- threads
    def c_pthread_mutex_init(s, E, m, a): E.env['mutex'][E.concretize(m, 'mutex')] = None; return 0
    def c_pthread_mutex_destroy(s, E, m):
        m = E.concretize(m, 'mutex')
        if E.env['mutex'].get(m) is not None: raise Violation('destroying a locked mutex', 'ub')
        E.env['mutex'].pop(m, None); return 0
    def c_pthread_mutex_lock(s, E, m):
        m = E.concretize(m, 'mutex')
        E.load(m, 4) if not E.mt else None
        if not E.mt:
            if E.env['mutex'].get(m) is not None: raise Violation('deadlock: mutex already held by this thread', 'hang')
            E.env['mutex'][m] = 0; return 0
        E.cur.want = m; E.resched = True
        return 0
    def c_pthread_mutex_trylock(s, E, m):
        m = E.concretize(m, 'mutex')
        if E.env['mutex'].get(m) is not None: return 16
        E.env['mutex'][m] = E.cur.tid
        if E.mt: s.hb_acquire(E, ('m', m))
        return 0
    def c_pthread_mutex_unlock(s, E, m):
        m = E.concretize(m, 'mutex')
        o = E.env['mutex'].get(m)
        if o is None or (E.mt and o != E.cur.tid): raise Violation('unlock of a mutex not held by this thread', 'ub')
        E.env['mutex'][m] = None
        if E.mt: s.hb_release(E, ('m', m))
        return 0
    def c_pthread_once(s, E, o, f): raise Inconclusive('pthread_once')

    def c_sx_spawn(s, E, fn, arg):
        a = E.concretize(fn, 'function'); pf = E.prog.fn_by_addr[a]
        if not E.mt: s.mt_on(E)
        t = Thread(E.tidc); E.tidc += 1
        E.init_tls(t); E.threads.append(t)
        # frame
        sf, sr = E.frames, E.r
        E.frames = t.frames; E.r = None
        E.push(pf, [arg][:len(pf.params)], None, None)
        t.r = E.r; t.seg = pf.entry
        E.frames = sf; E.r = sr
        t.vc = dict(E.cur.vc); t.vc[t.tid] = 1
        E.cur.vc[E.cur.tid] = E.cur.vc.get(E.cur.tid, 0) + 1
        return t.tid
    def c_sx_join_all(s, E):
        E.cur.state = 'join'; E.resched = True
        return 0

    def mt_on(s, E):
        E.mt = True
        base_load = type(E).load.__get__(E); base_store = type(E).store.__get__(E)
        def load(a, n):
            if a.__class__ is not int: a = E.concretize(a, 'address')
            s.race_access(E, a, n, False, False)
            return base_load(a, n)
        def store(a, n, v):
            if a.__class__ is not int: a = E.concretize(a, 'address')
            s.race_access(E, a, n, True, False)
            return base_store(a, n, v)
        def load_v(a, n, fl):
            a = E.concretize(a, 'address')
            s.race_access(E, a, n, False, True)
            if 'acquire' in fl or 'seq_cst' in fl: s.hb_acquire(E, ('a', a))
            else: s.hb_pend(E, ('a', a))
            return base_load(a, n)
        def store_v(a, n, v, fl):
            a = E.concretize(a, 'address')
            s.race_access(E, a, n, True, True)
            if 'release' in fl or 'seq_cst' in fl: s.hb_release(E, ('a', a))
            else: s.hb_release_bar(E, ('a', a))
            return base_store(a, n, v)
        def vp(nn):
            E.resched = True; return nn
        E.load = load; E.store = store; E.load_v = load_v; E.store_v = store_v; E.volatile_point = vp
        E.env['sync'] = {}; E.env['shadow'] = {}

    def hb_acquire(s, E, k):
        c = E.env['sync'].get(k)
        if c:
            v = E.cur.vc
            for t, x in c.items():
                if v.get(t, 0) < x: v[t] = x
    def hb_release(s, E, k):
        c = E.env['sync'].setdefault(k, {}); t = E.cur
        for a, x in t.vc.items():
            if c.get(a, 0) < x: c[a] = x
        t.vc[t.tid] = t.vc.get(t.tid, 0) + 1

    # volatile and relaxed accesses order other accesses only together with a (compiler) barrier
    def hb_pend(s, E, k):
        c = E.env['sync'].get(k)
        if c:
            p = E.cur.pend
            for t, x in c.items():
                if p.get(t, 0) < x: p[t] = x
    def hb_release_bar(s, E, k):
        c = E.env['sync'].setdefault(k, {})
        for a, x in E.cur.bar.items():
            if c.get(a, 0) < x: c[a] = x
    def barrier(s, E):
        if E.env.get('ord'): E.env['ord']['ev'].append((E.env['ord']['tid'], 'B'))
        if not E.mt: return
        t = E.cur; v = t.vc
        for a, x in t.pend.items():
            if v.get(a, 0) < x: v[a] = x
        t.bar = dict(v); v[t.tid] = v.get(t.tid, 0) + 1

    # ---- ordering of the accesses to a few words, as compiler and processor allow it
    def order_fence(s, E, pairs, clobber):
        O = E.env.get('ord')
        if O: O['ev'].append((O['tid'], 'F', pairs, clobber))
    def c_sx_order_word(s, E, p, n):
        p = E.concretize(p, 'address'); n = E.concretize(n, 'size')
        O = E.env.get('ord')
        if O is None:
            O = E.env['ord'] = dict(words={}, ev=[], tid=0)
            base_load = type(E).load.__get__(E); base_store = type(E).store.__get__(E)
            def rec(kind, a, n, v, fl):
                a = E.concretize(a, 'address')
                for w, (m, _) in O['words'].items():
                    if w < a + n and a < w + m:
                        if (w, m) != (a, n): raise Violation('a word is accessed in pieces', 'asm')
                        if kind == 'R': v = E.input(8 * n, 'seen')
                        O['ev'].append((O['tid'], kind, a, v, frozenset(fl)))
                        return True, v
                return False, None
            def load_v(a, n, fl):
                hit, v = rec('R', a, n, None, fl) if O['tid'] else (0, 0)
                return v if hit else base_load(a, n)
            def store_v(a, n, v, fl):
                if not (O['tid'] and rec('W', a, n, v, fl)[0]): base_store(a, n, v)
            E.load_v = load_v; E.store_v = store_v
            E.load = lambda a, n: load_v(a, n, ()); E.store = lambda a, n, v: store_v(a, n, v, ())
        O['words'][p] = (n, E.load(p, n))
    def c_sx_order_thread(s, E, k):
        O = E.env['ord']; O['tid'] = E.concretize(k, 'thread')
    def c_sx_order_solve(s, E):
        """assume that the values seen are those of some execution of the recorded threads"""
        O = E.env['ord']; O['tid'] = 0; ev = O['ev']; weak = s.asm.A.weak
        acc = [i for i, e in enumerate(ev) if e[1] in 'RW']
        t = {i: z3.Int('t!%d' % i) for i in acc}
        cs = [z3.Distinct(*t.values())]
        for i in acc:
            for j in acc:
                if i >= j or ev[i][0] != ev[j][0]: continue
                a, b = ev[i], ev[j]; pair = (a[1] + b[1]).lower(); vol = 'volatile' in a[4] and 'volatile' in b[4]
                mid = [e for e in ev[i + 1:j] if e[0] == a[0]]
                comp = vol or 'clobber' in a[4] or 'clobber' in b[4] or any(e[1] == 'B' for e in mid)
                hard = (not weak and pair != 'wr') or 'acq' in a[4] or 'rel' in b[4] or any(e[1] == 'F' and pair in e[2] and (e[3] or vol) for e in mid)
                if a[2] == b[2] or (comp and hard): cs.append(t[i] < t[j])
        for i in acc:
            if ev[i][1] != 'R': continue
            ws = [j for j in acc if ev[j][1] == 'W' and ev[j][2] == ev[i][2]]
            n, init = O['words'][ev[i][2]]; v = bv(ev[i][3], 8 * n)
            alt = [z3.And(v == bv(init, 8 * n), *[t[j] > t[i] for j in ws])]
            for j in ws:
                alt.append(z3.And(v == bv(ev[j][3], 8 * n), t[j] < t[i], *[z3.Or(t[k] < t[j], t[k] > t[i]) for k in ws if k != j]))
            cs.append(z3.Or(*alt))
        O['ev'] = []
        E.assume(z3.And(*cs))
    def race_access(s, E, a, n, w, atomic):
        if not E.env['races']: return
        if E.cur.tls and a >> 40 == 0x7ffe00000000 >> 40: pass
        sh = E.env['shadow']; t = E.cur; vc = t.vc; me = t.tid
        for x in range(a, a + n):
            # physical identity: shared file pages are seen through several addresses
            key = x
            c = sh.get(key)
            if c is None: c = sh[key] = [None, {}]
            lw = c[0]
            if lw is not None and lw[0] != me and vc.get(lw[0], 0) < lw[1] and not (atomic and lw[2]):
                s.race(E, x, w)
            if w:
                for r, (clk, at) in c[1].items():
                    if r != me and vc.get(r, 0) < clk and not (atomic and at): s.race(E, x, w)
                c[0] = (me, vc.get(me, 0), atomic); c[1] = {}
            else:
                c[1][me] = (vc.get(me, 0), atomic)

    def race(s, E, x, w):
        st = ' <- '.join(f.fn.name for f in reversed(E.frames))
        raise Violation('data race: unsynchronised %s of shared data in %s' % ('write' if w else 'read', st), 'race')

    def schedule(s, E, seg):
        cur = E.cur
        cur.seg = seg; cur.r = E.r; cur.frames = E.frames
        if cur.state == 'run' and not cur.frames: cur.state = 'done'
        en = []
        for t in E.threads:
            if t.state == 'done': continue
            if t.state == 'join':
                if all(u.state == 'done' for u in E.threads if u is not t): en.append(t)
                continue
            if t.want is not None and E.env['mutex'].get(t.want) is not None: continue
            en.append(t)
        if not en:
            if all(t.state == 'done' for t in E.threads): return None
            raise Violation('deadlock: every thread is blocked', 'hang')
        # prefer staying on the current thread first (choice 0)
        if cur in en: en.remove(cur); en.insert(0, cur)
        if len(en) > 1 and cur in en and E.env.get('preempt_left') is not None:
            if E.env['preempt_left'] <= 0: en = [cur]
        k = E.choice(len(en), 'schedule', 'sched') if len(en) > 1 else 0
        t = en[k]
        if t is not cur and cur in en and E.env.get('preempt_left') is not None: E.env['preempt_left'] -= 1
        if t.want is not None:
            E.env['mutex'][t.want] = t.tid; E.cur = t
            s.hb_acquire(E, ('m', t.want)); t.want = None
        if t.state == 'join':
            t.state = 'run'
            for u in E.threads:
                for a, x in u.vc.items():
                    if t.vc.get(a, 0) < x: t.vc[a] = x
        E.cur = t; E.frames = t.frames; E.r = t.r
        return t.seg

    # -------------------------------------------------- harness interface
    def c_sx_u64(s, E, name): return E.input(64, E.cstr_py(name))
    def c_sx_u32(s, E, name): return E.input(32, E.cstr_py(name))
    def c_sx_u8(s, E, name): return E.input(8, E.cstr_py(name))
    def c_sx_bytes(s, E, p, n, name):
        nm = E.cstr_py(name); n = E.concretize(n, 'length'); p = E.concretize(p, 'address')
        for i in range(n):
            e = E.input(8, nm); E.store(p + i, 1, e)
    def c_sx_choice(s, E, n, name): return E.choice(E.concretize(n, 'n'), E.cstr_py(name))
    def c_sx_assume(s, E, c): E.assume(icmp('ne', c, 0, 32))
    def c_sx_assert(s, E, c, msg):
        if c.__class__ is int:
            E.stats.asserts += 1
            if not c: raise Violation(E.cstr_py(msg))
            return
        E.assert_(icmp('ne', c, 0, 32), E.cstr_py(msg))
    def c_sx_fail(s, E, msg): raise Violation(E.cstr_py(msg))
    def c_sx_cover(s, E, name):
        n = E.cstr_py(name); E.stats.covers[n] = E.stats.covers.get(n, 0) + 1
    def c_sx_end(s, E): raise PathEnd('end')
    def c_sx_expect_abort(s, E, on): E.env['expect_abort'] = bool(on)
    def c_sx_concrete(s, E, v): return E.concretize(v, 'value')
    def c_sx_faults(s, E, n): E.env['fault_budget'] = n
    def c_sx_fault_fired(s, E): return E.env['fault_fired']
    def c_sx_heap_live(s, E): return len(E.heap)
    def c_sx_map_live(s, E):
        t = 0
        for v in E.vmas:
            if v.end.__class__ is not int: return M64
            t += v.end - v.start
        return t
    def c_sx_fd_first(s, E, n): E.nextfd = E.concretize(n, 'descriptor')
    def c_sx_fd_live(s, E): return len(E.files)
    def c_sx_mmap_any(s, E, span): E.env['mmap_mode'] = E.concretize(span, 'span')
    def c_sx_mapped(s, E, p, n):
        """1 if the whole range is mapped memory (for every value within the path condition)"""
        end = binop('add', p, n, 64)
        cs = []
        for v in E.vmas:
            cs.append(z3.And(z3.UGE(bv(p, 64), v.start), z3.ULE(bv(end, 64), bv(v.end, 64)), z3.UGE(bv(end, 64), bv(p, 64))))
        if p.__class__ is int and end.__class__ is int and all(v.end.__class__ is int for v in E.vmas):
            return 1 if end > p and s.covered(E, p & ~4095, (end + 4095) & ~4095) else 0
        # merge adjacent mappings
        segs = sorted([(v.start, v.end) for v in E.vmas if v.end.__class__ is int])
        mg = []
        for a, b in segs:
            if mg and mg[-1][1] == a: mg[-1][1] = b
            else: mg.append([a, b])
        cs += [z3.And(z3.UGE(bv(p, 64), a), z3.ULE(bv(end, 64), b), z3.UGE(bv(end, 64), bv(p, 64))) for a, b in mg]
        c = norm(z3.Or(*cs)) if cs else 0
        return ops.zext(c, 1, 32)
    def c_sx_private(s, E, p):
        """1 if the page containing p has been made private (populated) by a write"""
        p = E.concretize(p, 'address')
        v = E.find_vma(p)
        if v is None: raise Violation('sx_private on unmapped address')
        return 1 if (p >> 12) in E.wpages and not v.shared else 0
    def c_sx_cow_race(s, E, p, on):
        p = E.concretize(p, 'address')
        if on:
            if (p >> 12) not in E.wpages: E.cow_watch[p >> 12] = 1
        else: E.cow_watch.pop(p >> 12, None)
    def c_sx_preempt_bound(s, E, n): E.env['preempt_left'] = ops.sgn(n, 32)
    def run_list(s, E, lst):
        fns = [E.prog.funcs[n] for _, n in lst]
        def seg(slot, nxt):
            def step(i):
                def go(E_, r):
                    if i == len(fns):
                        return nxt
                    E_.push(fns[i], [], None, step(i + 1)); return fns[i].entry
                return go
            return step(0)
        return Redirect(seg)
    def c_sx_run_ctors(s, E): return s.run_list(E, sorted(E.prog.ctors))
    def c_sx_run_dtors(s, E): return s.run_list(E, sorted(E.prog.dtors))
    def c_sx_munmap_faults(s, E, n): E.env['munmap_budget'] = n
    def c_sx_races(s, E, on): E.env['races'] = bool(on)
    def c_sx_native(s, E): return 0
    def c_sx_tier(s, E): return E.opts.get('tier', 0)
    def c_sx_param(s, E, name): return E.opts.get('params', {}).get(E.cstr_py(name), 0)
    def c_sx_thread_pointer(s, E): return E.cur.tp
    def c_sx_tid(s, E): return E.cur.tid

    # -------------------------------------------------- restartable sequences
    def c_sx_interrupts(s, E, n): E.env['ev_budget'] = n
    def c_sx_observers(s, E, n): E.env['obs_budget'] = n
    def c_sx_rseq_area(s, E, p): E.env['area'] = E.concretize(p, 'area') or None
    def c_sx_shared(s, E, p, n):
        p = E.concretize(p, 'address'); n = E.concretize(n, 'length')
        E.env['sharedr'] = [(p, p + n)] if n else []
    def c_sx_room(s, E, p, n):
        p = E.concretize(p, 'address')
        for t in E.threads or [E.cur]:
            for g, size, align, init in E.prog.tls_layout:
                a = t.tls.get(g)
                if a is not None and a <= p < a + size:
                    E.assert_(icmp('ule', n, a + size - p, 64), 'more bytes are used than the thread-local object %s of %d bytes has' % (g[1:], size), 'layout')
                    return 0
        n = E.concretize(n, 'length')
        if n: E.load(p, 1); E.load(p + n - 1, 1)
        return 0
    def c_sx_commit(s, E, p): E.env['commit'] = E.concretize(p, 'address')
    def c_sx_release(s, E, on): E.env['release'] = on
    def c_sx_fired(s, E): return E.env['ev_fired'] + E.env['obs_fired']
    def c_sx_step(s, E, on): pass

    # -------------------------------------------------- inline assembly
    def asm_call(s, E, ins, args, slot, nxt, labels):
        return s.asm.execute(E, ins, args, slot, nxt, labels)
