"""aarch64, arm, riscv, powerpc, mips, loongarch64 and s390x: the instructions that restartable
sequences use, plus their usual neighbours."""
import re, z3
from .core import AsmError
from .. import ops
from ..ops import norm, bv, bo, binop, icmp, zext, sext, trunc, ite
from ..engine import Violation

def inot(v): return (1 - v) if v.__class__ is int else norm(z3.Not(bo(v)))

class Risc:
    align_pow2 = False; comment = '#'; SP = None; FLAGS = None; sp_mem = False; own_frame = None; weak = True; desc_copy = True; share_base = False; redzone = 0
    id_offsets = (4, 24); area_size = 32; ignore = set(); code_order = None; signed_ints = False
    data = {'.byte': 1, '.short': 2, '.hword': 2, '.half': 2, '.2byte': 2, '.long': 4, '.int': 4, '.word': 4, '.4byte': 4, '.quad': 8, '.dword': 8, '.8byte': 8, '.inst': 4}
    tp = None; zero = None
    def __init__(s, bits, order):
        s.W = bits; s.order = order; s.code_order = s.code_order or order
    def sig(s, E): return s.SIG
    def cs_off(s, E): return 8
    def split(s, t):
        t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
        return re.split(r'[\n;]', t)
    def split_ops(s, t):
        out = []; d = 0; cur = ''; q = False
        for ch in t:
            if ch == '"': q = not q
            if not q:
                if ch in '([{': d += 1
                if ch in ')]}': d -= 1
            if ch == ',' and d == 0 and not q: out.append(cur); cur = ''
            else: cur += ch
        if cur.strip(): out.append(cur)
        return [x.strip() for x in out]
    def is_label(s, n): return True
    def size(s, mn): return 4
    def directive(s, a, d, args):
        if d == '.set' and args and args[0] in ('noreorder', 'mips16', 'micromips'): raise AsmError('.set ' + args[0])
    def letter_reg(s, b): return None
    def wants_reg(s, b): return any(c in b for c in 'rbdg')
    def wants_imm(s, b): return any(c in b for c in 'IinK')
    def imm_ok(s, b, v): return ('i' in b or 'n' in b or s.imm(v))
    def imm(s, v): return -2048 <= v < 2048
    def widen(s, R, v, bits):
        if s.signed_ints: return sext(v, bits, s.W)
        return norm(z3.Concat(R.E.fresh(s.W - bits, 'undef_upper'), bv(v, bits)))
    def stack(s, E): return 0x7ffd_0000_8000 if s.W == 64 else 0x7f00_8000
    def initreg(s, R, r):
        if r == s.tp: return R.E.cur.tp
        if r == s.SP:
            a = s.stack(R.E)
            if (a >> 12) not in R.E.pages: R.E.place(a - 16 * 4096, 17 * 4096, None, True, 'stack', 'asm stack', uninit=True)
            return a
        return R.E.fresh(s.W, r)
    # ---- registers and immediates
    def reg(s, t):
        r = s.canon(t)
        return r if r in s.regset else None
    def isreg(s, t): return s.reg(t) is not None
    def g(s, R, t):
        r = s.reg(t)
        if r is None: raise AsmError('register expected: %s' % t)
        if r == s.zero: return 0
        return R.get(r)
    def put(s, R, t, v):
        r = s.reg(t)
        if r is None: raise AsmError('register expected: %s' % t)
        if r != s.zero: R.set(r, v)
    def n(s, R, st, t):
        return R.asm.eval(t.strip().lstrip('#'), st.idx)
    def gi(s, R, st, t):
        """register or immediate"""
        return s.g(R, t) if s.isreg(t) else s.n(R, st, t) & ((1 << s.W) - 1)
    def tgt(s, R, st, t):
        t = t.strip().strip('"')
        v = R.asm.label(t, st.idx)
        return R.asm.eval(t, st.idx) if v is None else v
    def jump(s, R, st, t): R.npc = s.tgt(R, st, t)
    def jif(s, R, st, c, t):
        if R.E.branch(c): s.jump(R, st, t)
    # ---- flags: one named flags register, always part of the machine state
    def flags(s, R, name, f):
        R.get(name)
        R.extra.setdefault('fl', {})[name] = f; R.set(name, R.E.fresh(s.W, name))
    def getf(s, R, name):
        f = R.extra.setdefault('fl', {}).get(name)
        if f is None:
            f = {k: R.E.fresh(1, name + k) for k in 'znlcg'}; R.extra['fl'][name] = f
        return f
    def mem(s, R, st, t):
        """disp(base)"""
        m = re.match(r'^(.*)\(([^()]*)\)$', t, re.S)
        if not m: return s.n(R, st, t) & ((1 << s.W) - 1)
        return binop('add', (s.n(R, st, m.group(1)) if m.group(1).strip() else 0) & ((1 << s.W) - 1), s.base(R, m.group(2)), s.W)
    def base(s, R, t): return s.g(R, t)
    def ld(s, R, a, bits, signed):
        v = R.load(a, bits // 8)
        return v if bits == s.W else (sext if signed else zext)(v, bits, s.W)
    def st(s, R, a, bits, v): R.store(a, bits // 8, trunc(v, s.W, bits) if bits < s.W else v)
    def bad(s, st): raise AsmError('instruction `%s`' % st.text)

# ------------------------------------------------------------------------------------------------
class AArch64(Risc):
    comment = '//'; SIGV = 0xd428bc00; SP = 'sp'; code_order = 'little'
    regset = {'x%d' % i for i in range(31)} | {'sp', 'xzr', 'cc'}; zero = 'xzr'
    pool = ['x%d' % i for i in list(range(0, 18)) + list(range(19, 29))]
    def sig(s, E): return s.SIGV if s.order == 'little' else 0x00bc28d4
    def canon(s, n):
        n = n.strip().lower()
        if re.match(r'^w(\d+|zr|sp)$', n): n = 'x' + n[1:] if n != 'wsp' else 'sp'
        return {'lr': 'x30', 'fp': 'x29'}.get(n, n)
    def imm(s, v): return 0 <= v < 4096
    def print(s, R, o, mod):
        if o[0] == 'r': return ('w' if mod == 'w' else 'x') + o[1][1:]
        if o[0] == 'i': return '%d' % o[1]
        if o[0] == 'm': return '[%s, #%d]' % (o[1], o[2]) if o[2] else '[%s]' % o[1]
        raise AsmError('operand')
    def w(s, t): return 32 if t.strip().lower().startswith('w') else 64
    def rd(s, R, st, t, w):
        if not s.isreg(t):
            if ':lo12:' in t: return s.tgt(R, st, t.replace(':lo12:', '').strip().lstrip('#')) & 0xfff
            return s.n(R, st, t) & ((1 << w) - 1)
        v = s.g(R, t)
        return v if w == 64 else trunc(v, 64, 32)
    def wr(s, R, t, w, v): s.put(R, t, v if w == 64 else zext(v, 32, 64))
    def addr(s, R, st, args):
        """[base{, off}] with optional pre/post index -> (address, writeback or None)"""
        t = args[0]
        pre = t.endswith('!'); t = t.rstrip('!').strip()
        if not (t.startswith('[') and t.endswith(']')): raise AsmError('memory operand ' + t)
        p = s.split_ops(t[1:-1])
        b = s.g(R, p[0]); a = b
        if len(p) > 1:
            off = s.rd(R, st, p[1], 64) if not (s.isreg(p[1]) and s.w(p[1]) == 32) else None
            sh = 0
            if len(p) > 2:
                m = re.match(r'^(lsl|uxtw|sxtw|sxtx)\s*#?(\d+)?$', p[2])
                if not m: raise AsmError('memory operand ' + t)
                sh = int(m.group(2) or 0)
                if m.group(1) in ('uxtw', 'sxtw'): off = (zext if m.group(1) == 'uxtw' else sext)(trunc(s.g(R, p[1]), 64, 32), 32, 64)
            if off is None: raise AsmError('memory operand ' + t)
            a = binop('add', b, binop('shl', off, sh, 64), 64)
        if pre: s.put(R, p[0], a)
        elif len(args) > 1: s.put(R, p[0], binop('add', b, s.n(R, st, args[1]) & (2**64 - 1), 64))
        return a
    CC = {'eq': 'z', 'ne': '!z', 'lt': 'l', 'ge': '!l', 'lo': '!c', 'cc': '!c', 'hs': 'c', 'cs': 'c', 'mi': 'n', 'pl': '!n', 'gt': '!lz', 'le': 'lz', 'hi': '!cz', 'ls': 'cz'}
    def cond(s, R, cc):
        k = s.CC[cc]; f = s.getf(R, 'cc')
        if k.lstrip('!') == 'lz': v = binop('or', f['l'], f['z'], 1)
        elif k.lstrip('!') == 'cz': v = binop('or', inot(f['c']), f['z'], 1)
        else: v = f[k.lstrip('!')]
        return inot(v) if k[0] == '!' else v
    def fsub(s, R, a, b, w):
        r = binop('sub', a, b, w); s.flags(R, 'cc', dict(z=icmp('eq', a, b, w), l=icmp('slt', a, b, w), c=inot(icmp('ult', a, b, w)), n=icmp('slt', r, 0, w), g=0)); return r
    def fadd(s, R, a, b, w):
        r = binop('add', a, b, w); wd = binop('add', sext(a, w, w + 1), sext(b, w, w + 1), w + 1)
        s.flags(R, 'cc', dict(z=icmp('eq', r, 0, w), l=icmp('slt', wd, 0, w + 1), c=icmp('ult', r, a, w), n=icmp('slt', r, 0, w), g=0)); return r
    def exec(s, R, st):
        mn = st.mn.lower(); a = s.split_ops(st.ops)
        if mn in ('nop', 'isb', 'hint', 'yield', 'bti'): return
        if mn in ('dmb', 'dsb'):
            k = a[0].lower() if a else 'sy'
            for d in ('ish', 'osh', 'sy', ''):
                if d and k == d: R.fence()
                elif k == d + 'ld' if d != 'sy' else k == 'ld': R.fence(('rr', 'rw'))
                elif k == d + 'st' if d != 'sy' else k == 'st': R.fence(('ww',))
                else: continue
                break
            return
        if mn == 'b': return s.jump(R, st, a[0])
        if mn.startswith('b.') and mn[2:] in s.CC: return s.jif(R, st, s.cond(R, mn[2:]), a[0])
        if mn in ('cbz', 'cbnz'):
            w = s.w(a[0]); return s.jif(R, st, icmp('eq' if mn == 'cbz' else 'ne', s.rd(R, st, a[0], w), 0, w), a[1])
        if mn in ('tbz', 'tbnz'):
            w = s.w(a[0]); v = binop('and', s.rd(R, st, a[0], w), 1 << s.n(R, st, a[1]), w); return s.jif(R, st, icmp('eq' if mn == 'tbz' else 'ne', v, 0, w), a[2])
        if mn == 'adrp': return s.put(R, a[0], s.tgt(R, st, a[1]) & ~0xfff)
        if mn == 'adr': return s.put(R, a[0], s.tgt(R, st, a[1]))
        if mn == 'mov' or mn == 'movz' and len(a) == 2: w = s.w(a[0]); return s.wr(R, a[0], w, s.rd(R, st, a[1], w))
        if mn == 'mvn': w = s.w(a[0]); return s.wr(R, a[0], w, binop('xor', s.rd(R, st, a[1], w), (1 << w) - 1, w))
        if mn == 'neg': w = s.w(a[0]); return s.wr(R, a[0], w, binop('sub', 0, s.rd(R, st, a[1], w), w))
        if mn in ('add', 'sub', 'and', 'orr', 'eor', 'adds', 'subs', 'ands', 'lsl', 'lsr', 'asr', 'mul'):
            w = s.w(a[0]); x = s.rd(R, st, a[1], w); y = s.rd(R, st, a[2], w)
            if len(a) > 3:
                m = re.match(r'^(lsl|lsr)\s*#?(\d+)$', a[3])
                if not m: s.bad(st)
                y = binop({'lsl': 'shl', 'lsr': 'lshr'}[m.group(1)], y, int(m.group(2)), w)
            if mn == 'adds': v = s.fadd(R, x, y, w)
            elif mn == 'subs': v = s.fsub(R, x, y, w)
            else:
                if mn in ('lsl', 'lsr', 'asr'): y = binop('and', y, w - 1, w)
                v = binop({'add': 'add', 'sub': 'sub', 'and': 'and', 'ands': 'and', 'orr': 'or', 'eor': 'xor', 'lsl': 'shl', 'lsr': 'lshr', 'asr': 'ashr', 'mul': 'mul'}[mn], x, y, w)
                if mn == 'ands': sg = icmp('slt', v, 0, w); s.flags(R, 'cc', dict(z=icmp('eq', v, 0, w), l=sg, n=sg, c=0, g=0))
            return s.wr(R, a[0], w, v)
        if mn in ('cmp', 'cmn', 'tst'):
            w = s.w(a[0]); x = s.rd(R, st, a[0], w); y = s.rd(R, st, a[1], w)
            if mn == 'cmp': s.fsub(R, x, y, w)
            elif mn == 'cmn': s.fadd(R, x, y, w)
            else: v = binop('and', x, y, w); sg = icmp('slt', v, 0, w); s.flags(R, 'cc', dict(z=icmp('eq', v, 0, w), l=sg, n=sg, c=0, g=0))
            return
        m = re.match(r'^(ldr|ldur|ldar|ldapr)(b|h|sb|sh|sw)?$', mn)
        if m:
            k = m.group(2); bits = {None: s.w(a[0]), 'b': 8, 'h': 16, 'sb': 8, 'sh': 16, 'sw': 32}[k]; w = s.w(a[0])
            if m.group(1) in ('ldar', 'ldapr'): R.extra['acq'] = True
            v = R.load(s.addr(R, st, a[1:]), bits // 8); R.extra.pop('acq', None)
            if bits < w: v = (sext if k[0] == 's' else zext)(v, bits, w)
            return s.wr(R, a[0], w, v)
        m = re.match(r'^(str|stur|stlr)(b|h)?$', mn)
        if m:
            bits = {None: s.w(a[0]), 'b': 8, 'h': 16}[m.group(2)]
            v = trunc(s.g(R, a[0]), 64, bits) if bits < 64 else s.g(R, a[0])
            ad = s.addr(R, st, a[1:])
            if m.group(1) == 'stlr': R.extra['rel'] = True
            R.store(ad, bits // 8, v); R.extra.pop('rel', None)
            return
        if mn in ('ldp', 'stp'):
            ad = s.addr(R, st, a[2:]); w = s.w(a[0])
            for i in (0, 1):
                x = binop('add', ad, i * w // 8, 64)
                if mn == 'ldp': s.wr(R, a[i], w, R.load(x, w // 8))
                else: R.store(x, w // 8, s.rd(R, st, a[i], w))
            return
        s.bad(st)

# ------------------------------------------------------------------------------------------------
class Arm(AArch64):
    comment = '@'; SP = 'sp'; code_order = None; zero = None
    regset = {'r%d' % i for i in range(15)} | {'sp', 'cc'}
    pool = ['r%d' % i for i in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14)]
    def sig(s, E): return 0xe7f5def3 if s.order == 'little' else 0xf3def5e7
    def canon(s, n):
        n = n.strip().lower().lstrip('%')
        return {'lr': 'r14', 'fp': 'r11', 'ip': 'r12', 'r13': 'sp'}.get(n, n)
    def imm(s, v):
        v &= 0xffffffff
        return any(((v << k | v >> (32 - k)) & 0xffffffff) < 256 for k in range(0, 32, 2))
    def print(s, R, o, mod):
        if o[0] == 'r': return o[1]
        if o[0] == 'i': return '#%d' % o[1]
        if o[0] == 'm': return '[%s, #%d]' % (o[1], o[2]) if o[2] else '[%s]' % o[1]
        raise AsmError('operand')
    def w(s, t): return 32
    def rd(s, R, st, t, w):
        return s.g(R, t) if s.isreg(t) else s.n(R, st, t) & 0xffffffff
    def wr(s, R, t, w, v): s.put(R, t, v)
    def addr(s, R, st, args):
        t = args[0]; pre = t.endswith('!'); t = t.rstrip('!').strip()
        if not (t.startswith('[') and t.endswith(']')): raise AsmError('memory operand ' + t)
        p = s.split_ops(t[1:-1]); b = s.g(R, p[0]); a = b
        if len(p) > 2: raise AsmError('memory operand ' + t)
        if len(p) > 1:
            a = binop('sub', b, s.g(R, p[1][1:]), 32) if p[1].startswith('-') and s.isreg(p[1][1:]) else binop('add', b, s.rd(R, st, p[1], 32), 32)
        if pre: s.put(R, p[0], a)
        elif len(args) > 1: s.put(R, p[0], binop('add', b, s.rd(R, st, args[1], 32), 32))
        return a
    def exec(s, R, st):
        mn = st.mn.lower(); a = s.split_ops(st.ops)
        if mn.endswith('.w') or mn.endswith('.n'): mn = mn[:-2]
        if mn == 'dmb' or mn == 'dsb':
            if not a or a[0].lower() in ('sy', 'ish', 'osh', '#15', '#11'): R.fence()
            elif a[0].lower() in ('st', 'ishst', 'oshst'): R.fence(('ww',))
            return
        if mn == 'mcr': R.fence(); return
        if mn in ('nop', 'isb', 'yield'): return
        if mn == 'adr': return s.put(R, a[0], s.tgt(R, st, a[1]))
        if mn == 'b': return s.jump(R, st, a[0])
        if mn[0] == 'b' and mn[1:] in s.CC: return s.jif(R, st, s.cond(R, mn[1:]), a[0])
        if mn in ('cbz', 'cbnz'): return s.jif(R, st, icmp('eq' if mn == 'cbz' else 'ne', s.g(R, a[0]), 0, 32), a[1])
        m = re.match(r'^(mov|mvn|add|sub|rsb|and|orr|eor|lsl|lsr|asr|mul)(s)?(eq|ne|lt|ge|gt|le|hi|ls|hs|lo|cs|cc|mi|pl)?$', mn)
        m2 = re.match(r'^(ldr|str)(b|h|sb|sh)?(eq|ne)?$', mn)
        cc = (m and m.group(3)) or (m2 and m2.group(3))
        if cc and not R.E.branch(s.cond(R, cc)): return
        if m:
            o = m.group(1)
            if o in ('mov', 'mvn'):
                v = s.rd(R, st, a[1], 32); v = v if o == 'mov' else binop('xor', v, 0xffffffff, 32)
            else:
                if len(a) == 2: a = [a[0], a[0], a[1]]
                if len(a) > 3: s.bad(st)
                x = s.rd(R, st, a[1], 32); y = s.rd(R, st, a[2], 32)
                if o == 'rsb': x, y, o = y, x, 'sub'
                if m.group(2) and o == 'add': return s.put(R, a[0], s.fadd(R, x, y, 32))
                if m.group(2) and o == 'sub': return s.put(R, a[0], s.fsub(R, x, y, 32))
                v = binop({'add': 'add', 'sub': 'sub', 'and': 'and', 'orr': 'or', 'eor': 'xor', 'lsl': 'shl', 'lsr': 'lshr', 'asr': 'ashr', 'mul': 'mul'}[o], x, y, 32)
            if m.group(2): sg = icmp('slt', v, 0, 32); s.flags(R, 'cc', dict(z=icmp('eq', v, 0, 32), l=sg, n=sg, c=0, g=0))
            return s.put(R, a[0], v)
        if mn in ('cmp', 'cmn', 'tst'):
            x = s.rd(R, st, a[0], 32); y = s.rd(R, st, a[1], 32)
            if mn == 'cmp': s.fsub(R, x, y, 32)
            elif mn == 'cmn': s.fadd(R, x, y, 32)
            else: v = binop('and', x, y, 32); sg = icmp('slt', v, 0, 32); s.flags(R, 'cc', dict(z=icmp('eq', v, 0, 32), l=sg, n=sg, c=0, g=0))
            return
        if m2:
            bits = {None: 32, 'b': 8, 'h': 16, 'sb': 8, 'sh': 16}[m2.group(2)]
            ad = s.addr(R, st, a[1:])
            if m2.group(1) == 'ldr':
                v = R.load(ad, bits // 8)
                return s.put(R, a[0], v if bits == 32 else (sext if m2.group(2)[0] == 's' else zext)(v, bits, 32))
            v = s.g(R, a[0]); R.store(ad, bits // 8, v if bits == 32 else trunc(v, 32, bits)); return
        if mn in ('push', 'pop', 'stmfd', 'ldmfd'):
            l = re.match(r'^(?:sp!,\s*)?\{(.*)\}$', st.ops.strip())
            if not l: s.bad(st)
            rs = [s.canon(x) for x in l.group(1).split(',')]
            rs.sort(key=lambda r: 13 if r == 'sp' else int(r[1:]))
            sp = R.get('sp')
            if mn in ('push', 'stmfd'):
                sp = binop('sub', sp, 4 * len(rs), 32); R.set('sp', sp)
                for i, r in enumerate(rs): R.store(binop('add', sp, 4 * i, 32), 4, R.get(r))
            else:
                for i, r in enumerate(rs): R.set(r, R.load(binop('add', sp, 4 * i, 32), 4))
                R.set('sp', binop('add', sp, 4 * len(rs), 32))
            return
        s.bad(st)

# ------------------------------------------------------------------------------------------------
class Riscv(Risc):
    SIG = 0xf1401073; SP = 'sp'; tp = 'tp'; zero = 'zero'
    names = ['zero', 'ra', 'sp', 'gp', 'tp', 't0', 't1', 't2', 's0', 's1', 'a0', 'a1', 'a2', 'a3', 'a4', 'a5', 'a6', 'a7'] + ['s%d' % i for i in range(2, 12)] + ['t3', 't4', 't5', 't6']
    regset = set(names)
    pool = ['a0', 'a1', 'a2', 'a3', 'a4', 'a5', 'a6', 'a7', 't0', 't1', 't2', 't3', 't4', 't5', 't6', 's2', 's3', 's4']
    def canon(s, n):
        n = n.strip().lower()
        m = re.match(r'^x(\d+)$', n)
        if m: n = s.names[int(m.group(1))]
        return 's0' if n == 'fp' else n
    def print(s, R, o, mod):
        if o[0] == 'r': return o[1]
        if o[0] == 'i': return '%d' % o[1]
        if o[0] == 'm': return '%d(%s)' % (o[2], o[1])
        raise AsmError('operand')
    LD = {'lb': (8, 1), 'lbu': (8, 0), 'lh': (16, 1), 'lhu': (16, 0), 'lw': (32, 1), 'lwu': (32, 0), 'ld': (64, 1)}
    ST = {'sb': 8, 'sh': 16, 'sw': 32, 'sd': 64}
    AL = {'add': 'add', 'addi': 'add', 'sub': 'sub', 'and': 'and', 'andi': 'and', 'or': 'or', 'ori': 'or', 'xor': 'xor', 'xori': 'xor', 'sll': 'shl', 'slli': 'shl', 'srl': 'lshr', 'srli': 'lshr', 'sra': 'ashr', 'srai': 'ashr', 'mul': 'mul'}
    BR = {'beq': 'eq', 'bne': 'ne', 'blt': 'slt', 'bge': 'sge', 'bltu': 'ult', 'bgeu': 'uge', 'bgt': 'sgt', 'ble': 'sle', 'bgtu': 'ugt', 'bleu': 'ule'}
    BZ = {'beqz': 'eq', 'bnez': 'ne', 'bltz': 'slt', 'bgez': 'sge', 'bgtz': 'sgt', 'blez': 'sle'}
    def exec(s, R, st):
        mn = st.mn.lower(); a = s.split_ops(st.ops); W = s.W
        if mn == 'nop': return
        if mn == 'fence':
            p, q = (a + ['rw', 'rw'])[:2] if not a else a
            R.fence([x + y for x in 'rw' for y in 'rw' if x in p and y in q])
            return
        if mn == 'j': return s.jump(R, st, a[0])
        if mn in s.BR: return s.jif(R, st, icmp(s.BR[mn], s.g(R, a[0]), s.g(R, a[1]), W), a[2])
        if mn in s.BZ: return s.jif(R, st, icmp(s.BZ[mn], s.g(R, a[0]), 0, W), a[1])
        if mn in ('la', 'lla'): return s.put(R, a[0], s.tgt(R, st, a[1]))
        if mn == 'li': return s.put(R, a[0], s.n(R, st, a[1]) & ((1 << W) - 1))
        if mn == 'mv': return s.put(R, a[0], s.g(R, a[1]))
        if mn == 'neg': return s.put(R, a[0], binop('sub', 0, s.g(R, a[1]), W))
        if mn == 'not': return s.put(R, a[0], binop('xor', s.g(R, a[1]), (1 << W) - 1, W))
        if mn == 'sext.w' and W == 64: return s.put(R, a[0], sext(trunc(s.g(R, a[1]), 64, 32), 32, 64))
        if mn in ('addw', 'addiw', 'subw') and W == 64:
            v = binop('sub' if mn == 'subw' else 'add', s.g(R, a[1]), s.gi(R, st, a[2]), 64); return s.put(R, a[0], sext(trunc(v, 64, 32), 32, 64))
        if mn in s.AL:
            y = s.gi(R, st, a[2])
            if s.AL[mn] in ('shl', 'lshr', 'ashr'): y = binop('and', y, W - 1, W)
            return s.put(R, a[0], binop(s.AL[mn], s.g(R, a[1]), y, W))
        if mn in ('seqz', 'snez'): return s.put(R, a[0], zext(icmp('eq' if mn == 'seqz' else 'ne', s.g(R, a[1]), 0, W), 1, W))
        if mn in s.LD and s.LD[mn][0] <= W:
            b, sg = s.LD[mn]; return s.put(R, a[0], s.ld(R, s.mem(R, st, a[1]), b, sg))
        if mn in s.ST and s.ST[mn] <= W: return s.st(R, s.mem(R, st, a[1]), s.ST[mn], s.g(R, a[0]))
        s.bad(st)

# ------------------------------------------------------------------------------------------------
class Mips(Risc):
    SIG = 0x0350000d; SP = '$29'; zero = '$0'; signed_ints = True
    regset = {'$%d' % i for i in range(32)}
    pool = ['$%d' % i for i in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20)]
    ignore = {'$1'}
    def canon(s, n):
        n = n.strip()
        return {'$sp': '$29', '$zero': '$0', '$at': '$1', '$gp': '$28', '$ra': '$31', '$fp': '$30'}.get(n, n)
    def imm(s, v): return -32768 <= v < 32768
    def print(s, R, o, mod):
        if o[0] == 'r': return o[1]
        if o[0] == 'i': return '%d' % o[1]
        if o[0] == 'm': return '%d(%s)' % (o[2], o[1])
        raise AsmError('operand')
    LD = {'lb': (8, 1), 'lbu': (8, 0), 'lh': (16, 1), 'lhu': (16, 0), 'lw': (32, 1), 'lwu': (32, 0), 'ld': (64, 1)}
    ST = {'sb': 8, 'sh': 16, 'sw': 32, 'sd': 64}
    AL = {'addu': ('add', 32, 2), 'addiu': ('add', 32, 1), 'subu': ('sub', 32, 2), 'daddu': ('add', 64, 2), 'daddiu': ('add', 64, 1), 'dsubu': ('sub', 64, 2),
          'and': ('and', 0, 2), 'or': ('or', 0, 2), 'xor': ('xor', 0, 2), 'andi': ('and', 0, 1), 'ori': ('or', 0, 1), 'xori': ('xor', 0, 1)}
    SYNC = {'sync_wmb': 4, 'sync_mb': 0x10, 'sync_acquire': 0x11, 'sync_release': 0x12, 'sync_rmb': 0x13}
    def exec(s, R, st):
        mn = st.mn.lower(); a = s.split_ops(st.ops); W = s.W
        if mn in ('nop', 'ssnop', 'ehb', 'pause'): return
        if mn in s.SYNC or mn == 'sync':
            k = s.n(R, st, a[0]) if a else s.SYNC.get(mn, 0)
            R.fence({0: R.ALL, 0x10: R.ALL, 4: ('ww',), 0x11: ('rr', 'rw'), 0x12: ('rw', 'ww'), 0x13: ('rr',)}.get(k, ()))
            return
        if mn in ('b', 'j'): return s.jump(R, st, a[0])
        if mn in ('beq', 'bne'): return s.jif(R, st, icmp('eq' if mn == 'beq' else 'ne', s.g(R, a[0]), s.gi(R, st, a[1]), W), a[2])
        if mn in Riscv.BZ: return s.jif(R, st, icmp(Riscv.BZ[mn], s.g(R, a[0]), 0, W), a[1])
        if mn == ('dla' if W == 64 else 'la'): return s.put(R, a[0], s.tgt(R, st, a[1]))
        if mn in ('li', 'dli'): return s.put(R, a[0], s.n(R, st, a[1]) & ((1 << W) - 1))
        if mn == 'move': return s.put(R, a[0], s.g(R, a[1]))
        if mn in s.AL:
            o, w, k = s.AL[mn]; w = w or W
            if w > W: s.bad(st)
            if len(a) == 2: a = [a[0], a[0], a[1]]
            if k == 1 and s.isreg(a[2]): raise Violation('`%s` takes an immediate: the helper cannot be assembled for an argument that is not a constant' % st.text, 'asm')
            if not s.isreg(a[2]) and not -32768 <= s.n(R, st, a[2]) < 65536: s.bad(st)
            x = s.g(R, a[1]); y = s.gi(R, st, a[2])
            if w < W: v = sext(binop(o, trunc(x, W, w), trunc(y, W, w), w), w, W)
            else: v = binop(o, x, y, W)
            return s.put(R, a[0], v)
        if mn in s.LD and s.LD[mn][0] <= W:
            b, sg = s.LD[mn]; return s.put(R, a[0], s.ld(R, s.mem(R, st, a[1]), b, sg))
        if mn in s.ST and s.ST[mn] <= W: return s.st(R, s.mem(R, st, a[1]), s.ST[mn], s.g(R, a[0]))
        s.bad(st)

# ------------------------------------------------------------------------------------------------
class LoongArch(Risc):
    SIG = 0x002a0010; SP = '$r3'; tp = '$r2'; zero = '$r0'
    names = ['zero', 'ra', 'tp', 'sp'] + ['a%d' % i for i in range(8)] + ['t%d' % i for i in range(9)] + ['u0', 'fp'] + ['s%d' % i for i in range(9)]
    regset = {'$r%d' % i for i in range(32)}
    pool = ['$r%d' % i for i in list(range(4, 21)) + [23, 24, 25, 26]]
    def canon(s, n):
        n = n.strip()
        if n.lstrip('$') in s.names: n = '$r%d' % s.names.index(n.lstrip('$'))
        return n
    def print(s, R, o, mod):
        if o[0] == 'r': return o[1]
        if o[0] == 'i': return '%d' % o[1]
        if o[0] == 'm': return '%s, %d' % (o[1], o[2])
        raise AsmError('operand')
    SZ = {'b': 8, 'h': 16, 'w': 32, 'd': 64, 'bu': 8, 'hu': 16, 'wu': 32}
    def exec(s, R, st):
        mn = st.mn.lower(); a = s.split_ops(st.ops); W = s.W
        if mn == 'nop' or mn == 'ibar': return
        if mn == 'dbar':
            k = s.n(R, st, a[0])     # bits 3..0: earlier reads, earlier writes, later reads, later writes not ordered
            R.fence([x + y for x, m in (('r', 8), ('w', 4)) for y, n in (('r', 2), ('w', 1)) if not k & m and not k & n] if k < 0x20 else ())
            return
        if mn == 'b': return s.jump(R, st, a[0])
        if mn in ('beq', 'bne', 'blt', 'bge', 'bltu', 'bgeu'): return s.jif(R, st, icmp(Riscv.BR[mn], s.g(R, a[0]), s.g(R, a[1]), W), a[2])
        if mn in Riscv.BZ: return s.jif(R, st, icmp(Riscv.BZ[mn], s.g(R, a[0]), 0, W), a[1])
        if mn in ('la.local', 'la', 'la.pcrel', 'la.global', 'la.abs'): return s.put(R, a[0], s.tgt(R, st, a[1]))
        if mn in ('li.d', 'li.w'): return s.put(R, a[0], s.n(R, st, a[1]) & ((1 << W) - 1))
        if mn == 'move': return s.put(R, a[0], s.g(R, a[1]))
        m = re.match(r'^(add|addi|sub|slli|srli)\.(w|d)$', mn)
        if m:
            if m.group(1)[-1] == 'i' and s.isreg(a[2]): raise Violation('`%s` takes an immediate: the helper cannot be assembled for an argument that is not a constant' % st.text, 'asm')
            if m.group(1) == 'addi' and not -2048 <= s.n(R, st, a[2]) < 2048: s.bad(st)
            o = {'add': 'add', 'addi': 'add', 'sub': 'sub', 'slli': 'shl', 'srli': 'lshr'}[m.group(1)]; x, y = s.g(R, a[1]), s.gi(R, st, a[2])
            if m.group(2) == 'w': return s.put(R, a[0], sext(binop(o, trunc(x, 64, 32), trunc(y, 64, 32), 32), 32, 64))
            return s.put(R, a[0], binop(o, x, y, W))
        if mn in ('and', 'or', 'xor', 'andi', 'ori', 'xori'): return s.put(R, a[0], binop(mn.rstrip('i') if mn != 'xori' else 'xor', s.g(R, a[1]), s.gi(R, st, a[2]), W))
        m = re.match(r'^(ld|st|ldx|stx)\.(b|h|w|d|bu|hu|wu)$', mn)
        if m:
            if m.group(1)[-1] != 'x' and len(a) > 2 and s.isreg(a[2]): s.bad(st)
            ad = binop('add', s.g(R, a[1]), s.gi(R, st, a[2]) if len(a) > 2 else 0, W); b = s.SZ[m.group(2)]
            if m.group(1)[0] == 'l': return s.put(R, a[0], s.ld(R, ad, b, m.group(2)[-1] != 'u'))
            return s.st(R, ad, b, s.g(R, a[0]))
        m = re.match(r'^(ld|st)ptr\.(w|d)$', mn)
        if m:
            ad = binop('add', s.g(R, a[1]), s.gi(R, st, a[2]) if len(a) > 2 else 0, W); b = s.SZ[m.group(2)]
            if m.group(1)[0] == 'l': return s.put(R, a[0], s.ld(R, ad, b, True))
            return s.st(R, ad, b, s.g(R, a[0]))
        s.bad(st)

# ------------------------------------------------------------------------------------------------
class Ppc(Risc):
    SIG = 0x0fe5000b; SP = 'r1'
    regset = {'r%d' % i for i in range(32)} | {'cr%d' % i for i in range(8)} | {'lr', 'ctr', 'xer'}
    pool = ['r%d' % i for i in list(range(3, 11)) + list(range(14, 29)) + [0]]
    def __init__(s, bits, order):
        Risc.__init__(s, bits, order); s.tp = 'r13' if bits == 64 else 'r2'
    def canon(s, n):
        n = n.strip().lower().lstrip('%')
        if n.isdigit(): n = 'r' + n
        return {'cc': 'cr0'}.get(n, n)
    def imm(s, v): return -32768 <= v < 32768
    def wants_imm(s, b): return any(c in b for c in 'Iin')
    def print(s, R, o, mod):
        if mod in ('U', 'X'): return ''
        if o[0] == 'r': return '%' + o[1]
        if o[0] == 'i': return '%d' % o[1]
        if o[0] == 'm': return '%d(%%%s)' % (o[2], o[1])
        raise AsmError('operand')
    def base(s, R, t): return 0 if s.canon(t) == 'r0' else s.g(R, t)
    def n(s, R, st, t):
        t = t.strip(); m = re.match(r'^(.*)@(highest|higher|high|h|ha|l)$', t, re.S)
        if not m: return R.asm.eval(t, st.idx)
        e = m.group(1).strip()
        v = R.asm.eval(e, st.idx); k = m.group(2)
        if k == 'ha': v += 0x8000
        sh = {'highest': 48, 'higher': 32, 'high': 16, 'h': 16, 'ha': 16, 'l': 0}[k]
        return (v >> sh) & 0xffff
    def s16(s, v): v &= 0xffff if v >= 0 else -1; return v - 0x10000 if v >= 0x8000 else v
    def cmp(s, R, cr, x, y, w, signed):
        lt = icmp('slt' if signed else 'ult', x, y, w); eq = icmp('eq', x, y, w)
        s.flags(R, cr, dict(z=eq, l=lt, n=0, c=0, g=icmp('sgt' if signed else 'ugt', x, y, w)))
    BC = {'beq': ('z', 0), 'bne': ('z', 1), 'blt': ('l', 0), 'bge': ('l', 1), 'bgt': ('g', 0), 'ble': ('g', 1)}
    SZ = {'b': (8, 0), 'h': (16, 0), 'ha': (16, 1), 'w': (32, 0), 'wz': (32, 0), 'wa': (32, 1), 'd': (64, 0), 'bz': (8, 0), 'hz': (16, 0), '': (64, 0)}
    def exec(s, R, st):
        mn = st.mn.lower().rstrip('+-') if st.mn[0] == 'b' else st.mn.lower(); a = s.split_ops(st.ops); W = s.W; M = (1 << W) - 1
        if mn == 'nop' or mn == 'isync': return
        if mn == 'eieio': R.fence(('ww',)); return
        if mn in ('sync', 'lwsync', 'hwsync', 'msync'):
            lw = mn == 'lwsync' or bool(a) and s.n(R, st, a[0]) == 1
            R.fence(('rr', 'rw', 'ww') if lw else R.ALL); return
        if mn == 'b': return s.jump(R, st, a[0])
        if mn in s.BC:
            cr = s.canon(a[0]) if len(a) > 1 else 'cr0'
            if cr.isdigit(): cr = 'cr' + cr
            k, neg = s.BC[mn]; f = s.getf(R, cr)[k]
            return s.jif(R, st, inot(f) if neg else f, a[-1])
        m = re.match(r'^cmp(l)?(w|d)(i)?$', mn)
        if m:
            w = 32 if m.group(2) == 'w' else 64
            if w > W: s.bad(st)
            cr = 'cr0'
            if len(a) == 3: cr = s.canon(a[0]) if not a[0].isdigit() else 'cr' + a[0]; a = a[1:]
            x = s.g(R, a[0]); y = (s.n(R, st, a[1]) & M) if m.group(3) else s.g(R, a[1])
            if w < W: x, y = trunc(x, W, w), trunc(y, W, w)
            return s.cmp(R, cr, x, y, w, not m.group(1))
        if mn == 'lis':
            v = s.s16(s.n(R, st, a[1])) << 16; return s.put(R, a[0], v & M)
        if mn == 'li': return s.put(R, a[0], s.s16(s.n(R, st, a[1])) & M)
        if mn == 'mr': return s.put(R, a[0], s.g(R, a[1]))
        if mn in ('ori', 'oris', 'xori', 'xoris'):
            v = (s.n(R, st, a[2]) & 0xffff) << (16 if mn.endswith('s') else 0); return s.put(R, a[0], binop('or' if mn[0] == 'o' else 'xor', s.g(R, a[1]), v, W))
        if mn in ('addi', 'addis', 'subi'):
            v = s.s16(s.n(R, st, a[2])); v = -v if mn == 'subi' else v
            return s.put(R, a[0], binop('add', s.base(R, a[1]), (v << (16 if mn == 'addis' else 0)) & M, W))
        if mn in ('add', 'and', 'or', 'xor', 'mulld', 'sub', 'subf'):
            x, y = s.g(R, a[1]), s.g(R, a[2])
            if mn == 'subf': x, y = y, x
            return s.put(R, a[0], binop({'mulld': 'mul', 'subf': 'sub'}.get(mn, mn), x, y, W))
        if mn == 'extsw' and W == 64: return s.put(R, a[0], sext(trunc(s.g(R, a[1]), 64, 32), 32, 64))
        if mn == 'rldicr' and W == 64:
            sh, me = s.n(R, st, a[2]), s.n(R, st, a[3]); x = s.g(R, a[1])
            rot = binop('or', binop('shl', x, sh, 64), binop('lshr', x, 64 - sh, 64) if sh else 0, 64)
            return s.put(R, a[0], binop('and', rot, M & ~((1 << (63 - me)) - 1), 64))
        if mn in ('sldi', 'slwi'): return s.put(R, a[0], binop('shl', s.g(R, a[1]), s.n(R, st, a[2]), W))
        m = re.match(r'^(l|st)(bz|hz|ha|wz|wa|b|h|w|d)(u)?(x)?$', mn)
        if m:
            k = m.group(2)
            if (m.group(1) == 'l') != (k in ('bz', 'hz', 'ha', 'wz', 'wa', 'd')) and k != 'd': s.bad(st)
            b, sg = s.SZ[k]
            if b > W: s.bad(st)
            if m.group(4): ad = binop('add', s.base(R, a[1]), s.g(R, a[2]), W); br = a[1]
            else: ad = s.mem(R, st, a[1]); br = re.search(r'\(([^()]*)\)$', a[1]).group(1)
            if m.group(1) == 'l': s.put(R, a[0], s.ld(R, ad, b, sg))
            else: s.st(R, ad, b, s.g(R, a[0]))
            if m.group(3): s.put(R, br, ad)
            return
        s.bad(st)

# ------------------------------------------------------------------------------------------------
class S390(Risc):
    SIG = 0xB2FF0FFF; SP = 'r15'; weak = False
    regset = {'r%d' % i for i in range(16)} | {'cc'}
    pool = ['r%d' % i for i in (2, 3, 4, 5, 1, 6, 7, 8, 9, 10, 11, 12, 13, 0)]
    def canon(s, n): return n.strip().lower().lstrip('%')
    def imm(s, v): return -32768 <= v < 32768
    def print(s, R, o, mod):
        if o[0] == 'r': return '%' + o[1]
        if o[0] == 'i': return '%d' % o[1]
        if o[0] == 'm': return '%d(%%%s)' % (o[2], o[1])
        raise AsmError('operand')
    def base(s, R, t):
        # disp(index,base); register 0 stands for no register
        v = 0
        for x in t.split(','):
            if x.strip() and s.canon(x) not in ('r0', '0'): v = binop('add', v, s.g(R, x), s.W)
        return v
    def lo(s, v): return trunc(v, 64, 32)
    def hi(s, R, t, v32): s.put(R, t, norm(z3.Concat(z3.Extract(63, 32, bv(s.g(R, t), 64)), bv(v32, 32))))
    def cmp(s, R, x, y, w, signed=True):
        s.flags(R, 'cc', dict(z=icmp('eq', x, y, w), l=icmp('slt' if signed else 'ult', x, y, w), g=icmp('sgt' if signed else 'ugt', x, y, w), n=0, c=0))
    JC = {'je': ('z', 0), 'jz': ('z', 0), 'jne': ('z', 1), 'jnz': ('z', 1), 'jl': ('l', 0), 'jnl': ('l', 1), 'jh': ('g', 0), 'jnh': ('g', 1), 'jm': ('l', 0), 'jp': ('g', 0), 'jhe': ('l', 1), 'jle': ('g', 1)}
    def exec(s, R, st):
        mn = st.mn.lower(); a = s.split_ops(st.ops)
        if mn == 'bcr':
            if a[0] in ('15', '14') and a[1].lstrip('%r') == '0': R.fence(); return
            s.bad(st)
        if mn in ('nop', 'nopr'): return
        if mn in ('j', 'jg', 'brcl') and len(a) == 1: return s.jump(R, st, a[0])
        k = mn if mn in s.JC else 'j' + mn[2:] if mn.startswith('jg') and 'j' + mn[2:] in s.JC else None
        if k:
            f, neg = s.JC[k]; v = s.getf(R, 'cc')[f]; return s.jif(R, st, inot(v) if neg else v, a[0])
        if mn == 'larl': return s.put(R, a[0], s.tgt(R, st, a[1]))
        if mn in ('lg', 'lgf', 'llgf', 'llgc', 'llgh', 'lgb', 'lgh'):
            b, sg = {'lg': (64, 0), 'lgf': (32, 1), 'llgf': (32, 0), 'llgc': (8, 0), 'llgh': (16, 0), 'lgb': (8, 1), 'lgh': (16, 1)}[mn]
            return s.put(R, a[0], s.ld(R, s.mem(R, st, a[1]), b, sg))
        if mn in ('l', 'ly'): return s.hi(R, a[0], R.load(s.mem(R, st, a[1]), 4))
        if mn == 'ltg': v = R.load(s.mem(R, st, a[1]), 8); s.put(R, a[0], v); return s.cmp(R, v, 0, 64)
        if mn in ('ic', 'icy'):
            v = R.load(s.mem(R, st, a[1]), 1); return s.put(R, a[0], norm(z3.Concat(z3.Extract(63, 8, bv(s.g(R, a[0]), 64)), bv(v, 8))))
        if mn in ('stg', 'st', 'sty', 'sth', 'stc', 'stcy'):
            b = {'stg': 64, 'st': 32, 'sty': 32, 'sth': 16, 'stc': 8, 'stcy': 8}[mn]; return s.st(R, s.mem(R, st, a[1]), b, s.g(R, a[0]))
        if mn in ('cg', 'clg'): return s.cmp(R, s.g(R, a[0]), R.load(s.mem(R, st, a[1]), 8), 64, mn == 'cg')
        if mn in ('c', 'cy', 'cl', 'cly'): return s.cmp(R, s.lo(s.g(R, a[0])), R.load(s.mem(R, st, a[1]), 4), 32, 'l' not in mn)
        if mn in ('cgr', 'clgr'): return s.cmp(R, s.g(R, a[0]), s.g(R, a[1]), 64, mn == 'cgr')
        if mn in ('cr', 'clr'): return s.cmp(R, s.lo(s.g(R, a[0])), s.lo(s.g(R, a[1])), 32, mn == 'cr')
        if mn == 'cghi': return s.cmp(R, s.g(R, a[0]), s.n(R, st, a[1]) & (2**64 - 1), 64)
        if mn == 'chi': return s.cmp(R, s.lo(s.g(R, a[0])), s.n(R, st, a[1]) & 0xffffffff, 32)
        if mn == 'ltgr': v = s.g(R, a[1]); s.put(R, a[0], v); return s.cmp(R, v, 0, 64)
        if mn == 'lgr': return s.put(R, a[0], s.g(R, a[1]))
        if mn == 'lr': return s.hi(R, a[0], s.lo(s.g(R, a[1])))
        if mn in ('lghi', 'lhi'):
            v = s.n(R, st, a[1])
            return s.put(R, a[0], v & (2**64 - 1)) if mn == 'lghi' else s.hi(R, a[0], v & 0xffffffff)
        if mn in ('la', 'lay'): return s.put(R, a[0], s.mem(R, st, a[1]))
        if mn in ('aghi', 'agr', 'sgr', 'ag', 'agfi', 'ngr', 'ogr', 'xgr'):
            x = s.g(R, a[0]); y = s.n(R, st, a[1]) & (2**64 - 1) if mn in ('aghi', 'agfi') else R.load(s.mem(R, st, a[1]), 8) if mn == 'ag' else s.g(R, a[1])
            v = binop({'s': 'sub', 'n': 'and', 'o': 'or', 'x': 'xor'}.get(mn[0], 'add'), x, y, 64)
            s.put(R, a[0], v); return s.cmp(R, v, 0, 64)
        s.bad(st)

def make(arch):
    """arch[:be]"""
    n, _, e = arch.partition(':'); o = 'big' if e == 'be' else 'little'
    return {'aarch64': lambda: AArch64(64, o), 'arm': lambda: Arm(32, o), 'riscv64': lambda: Riscv(64, o), 'riscv32': lambda: Riscv(32, o),
            'mips64': lambda: Mips(64, o), 'mips': lambda: Mips(32, o), 'loongarch64': lambda: LoongArch(64, o),
            'ppc64': lambda: Ppc(64, o), 'ppc': lambda: Ppc(32, o), 's390x': lambda: S390(64, 'big')}[n]()
