"""x86-64 and i386 (AT&T syntax)"""
import re, z3
from .core import AsmError, same
from .. import ops
from ..ops import norm, bv, bo, binop, icmp, zext, sext, trunc, ite
from ..engine import Violation

NAMES = {}
def _n():
    for i, (q, d, w, b) in enumerate([('rax', 'eax', 'ax', 'al'), ('rbx', 'ebx', 'bx', 'bl'), ('rcx', 'ecx', 'cx', 'cl'), ('rdx', 'edx', 'dx', 'dl'),
                       ('rsi', 'esi', 'si', 'sil'), ('rdi', 'edi', 'di', 'dil'), ('rbp', 'ebp', 'bp', 'bpl'), ('rsp', 'esp', 'sp', 'spl')]):
        for nm, bits in ((q, 64), (d, 32), (w, 16), (b, 8)): NAMES[nm] = (q, bits)
    for i in range(8, 16):
        for sfx, bits in (('', 64), ('d', 32), ('w', 16), ('b', 8)): NAMES['r%d%s' % (i, sfx)] = ('r%d' % i, bits)
_n()
BYREG = {}
for k, (q, b) in NAMES.items(): BYREG[(q, b)] = k
SUF = {'b': 8, 'w': 16, 'l': 32, 'q': 64}
CC = {'o': 'o', 'no': '!o', 'b': 'c', 'c': 'c', 'nae': 'c', 'ae': '!c', 'nb': '!c', 'nc': '!c', 'e': 'z', 'z': 'z', 'ne': '!z', 'nz': '!z',
      'be': 'be', 'na': 'be', 'a': '!be', 'nbe': '!be', 's': 's', 'ns': '!s', 'l': 'l', 'nge': 'l', 'ge': '!l', 'nl': '!l', 'le': 'le', 'ng': 'le', 'g': '!le', 'nle': '!le'}

class X86:
    order = 'little'; code_order = 'little'; align_pow2 = False; comment = '#'
    data = {'.byte': 1, '.short': 2, '.word': 2, '.value': 2, '.2byte': 2, '.long': 4, '.int': 4, '.4byte': 4, '.quad': 8, '.8byte': 8}
    weak = False; desc_copy = False
    SP = 'rsp'; FLAGS = 'flags'; sp_mem = True; own_frame = None
    id_offsets = (4, 24); area_size = 32; redzone = 0
    def __init__(s, bits):
        s.W = bits; s.share_base = bits == 32; s.redzone = 128 if bits == 64 else 0
        if bits == 64: s.pool = ['rsi', 'rdi', 'rdx', 'r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15', 'rbp', 'rbx', 'rcx', 'rax']
        else: s.pool = ['rsi', 'rdi', 'rdx', 'rbx', 'rcx', 'rax', 'rbp']
        s.ignore = {'rip'}
    def sig(s, E): return 0x53053053
    def cs_off(s, E): return 8
    def split(s, t):
        t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
        return re.split(r'[\n;]', t)
    def split_ops(s, t):
        out = []; d = 0; cur = ''; q = False
        for ch in t:
            if ch == '"': q = not q
            if not q:
                if ch in '([': d += 1
                if ch in ')]': d -= 1
            if ch == ',' and d == 0 and not q: out.append(cur); cur = ''
            else: cur += ch
        if cur.strip(): out.append(cur)
        return out
    def is_label(s, n): return n not in ('lock', 'rep')
    def size(s, mn): return 4
    def directive(s, a, d, args): pass
    def canon(s, n):
        n = n.lstrip('%')
        return NAMES[n][0] if n in NAMES else n
    def letter_reg(s, b): return {'a': 'rax', 'b': 'rbx', 'c': 'rcx', 'd': 'rdx', 'S': 'rsi', 'D': 'rdi'}.get(b)
    def wants_reg(s, b): return any(c in b for c in 'rqQRlg')
    def wants_imm(s, b): return any(c in b for c in 'eingIJKLMNOZX')
    def imm_ok(s, b, v): return -2**31 <= v < 2**31
    def widen(s, R, v, bits):
        hi = R.E.fresh(s.W - bits, 'undef_upper')
        return norm(z3.Concat(hi, bv(v, bits)))
    def stack(s, E): return 0x7ffd_0000_8000 if s.W == 64 else 0xbf00_8000
    def initreg(s, R, r):
        if r == 'rsp':
            a = s.stack(R.E)
            if (a >> 12) not in R.E.pages: R.E.place(a - 16 * 4096, 17 * 4096 - 0, None, True, 'stack', 'asm stack', uninit=True)
            return a
        return R.E.fresh(s.W, r)
    def print(s, R, o, mod):
        if o[0] == 'r':
            b = {'b': 8, 'w': 16, 'k': 32, 'q': 64}.get(mod, o[2])
            if b not in (8, 16, 32, 64): b = s.W
            if mod == 'h': raise AsmError('modifier h')
            if mod == 'a': return '(%%%s)' % BYREG[(o[1], s.W)]
            return '%' + BYREG[(o[1], b)]
        if o[0] == 'i':
            return ('%d' if mod in ('c', 'P', 'p', 'n') else '$%d') % (-o[1] if mod == 'n' else o[1])
        if o[0] == 'm':
            off = o[2]
            if mod == 'H': off = binop('add', off, 8, s.W)
            if off.__class__ is not int: raise AsmError('symbolic memory operand')
            off = ops.sgn(off & ((1 << s.W) - 1), s.W)
            return '%s(%%%s)' % (str(off) if off else '', BYREG[(o[1], s.W)])
        raise AsmError('operand')

    # ---- operand access
    def operand(s, R, st, t):
        key = (st.idx, t)
        t = t.strip()
        if t.startswith('$'): return ('i', R.asm.eval(t[1:], st.idx))
        if t.startswith('*'): return ('*', s.operand(R, st, t[1:]))
        if s.W == 32:
            for n in re.findall(r'%(\w+)', t):
                if n in NAMES and (NAMES[n][1] == 64 or NAMES[n][0][1].isdigit() or n in ('sil', 'dil', 'bpl', 'spl')): raise Violation('register %' + n + ' does not exist on this architecture', 'asm')
        m = re.match(r'^%(\w+)$', t)
        if m:
            if m.group(1) not in NAMES: raise AsmError('register ' + t)
            q, b = NAMES[m.group(1)]; return ('r', q, b)
        m = re.match(r'^(?:%(\w+):)?(.*?)(?:\(([^()]*)\))?$', t, re.S)
        seg, disp, inner = m.group(1), m.group(2).strip(), m.group(3)
        # "(a) - (b)(%reg)" style displacements: only the last group with registers is the base
        if inner is not None and '%' not in inner and inner.strip() != '': disp = t.split(':', 1)[-1]; inner = None
        disp = disp.strip()
        if disp.endswith('+'): disp = disp[:-1]
        if seg and inner is None and '%' in disp: raise AsmError('operand ' + t)
        base = idx = None; sc = 1; rip = False
        if inner is not None:
            p = [x.strip() for x in inner.split(',')]
            if p[0]:
                n = p[0].lstrip('%')
                if n == 'rip': rip = True
                else: base = NAMES[n][0]
            if len(p) > 1 and p[1]: idx = NAMES[p[1].lstrip('%')][0]
            if len(p) > 2: sc = int(p[2], 0)
        d = R.asm.eval(disp, st.idx) if disp else 0
        return ('m', seg, base, idx, sc, d, rip)
    def ea(s, R, o, segment=True):
        _, seg, base, idx, sc, d, rip = o
        W = s.W; M = (1 << W) - 1
        a = d & M
        if base: a = binop('add', a, R.get(base), W)
        if idx: a = binop('add', a, binop('mul', R.get(idx), sc, W), W)
        if seg and segment:
            if seg != ('fs' if W == 64 else 'gs'):
                raise Violation('access through segment register %s, which does not hold the thread pointer' % seg, 'asm')
            a = binop('add', a, R.E.cur.tp, W)
        return a
    def rd(s, R, o, n):
        if o[0] == 'i': return o[1] & ((1 << n) - 1)
        if o[0] == 'r': return trunc(R.get(o[1]), s.W, n)
        return R.load(s.ea(R, o), n // 8)
    def wr(s, R, o, n, v):
        if o[0] == 'r':
            W = s.W
            if n >= W: R.set(o[1], v)
            elif n == 32: R.set(o[1], zext(v, 32, W))
            else:
                old = R.get(o[1])
                if old.__class__ is int and v.__class__ is int: R.set(o[1], (old & ~((1 << n) - 1)) | v)
                else: R.set(o[1], norm(z3.Concat(z3.Extract(W - 1, n, bv(old, W)), bv(v, n))))
            return
        if o[0] == 'm': R.store(s.ea(R, o), n // 8, v); return
        raise AsmError('write to immediate')

    # ---- flags
    def fsub(s, R, a, b, n, keepc=False):
        r = binop('sub', a, b, n)
        c = R.fl['c'] if keepc and R.fl else icmp('ult', a, b, n)
        R.fl = dict(z=icmp('eq', a, b, n), c=c, s=icmp('slt', r, 0, n), l=icmp('slt', a, b, n))
        return r
    def fadd(s, R, a, b, n, keepc=False):
        r = binop('add', a, b, n)
        c = R.fl['c'] if keepc and R.fl else icmp('ult', r, a, n)
        wide = binop('add', sext(a, n, n + 1), sext(b, n, n + 1), n + 1)
        R.fl = dict(z=icmp('eq', r, 0, n), c=c, s=icmp('slt', r, 0, n), l=icmp('slt', wide, 0, n + 1))
        return r
    def flog(s, R, r, n):
        sg = icmp('slt', r, 0, n)
        R.fl = dict(z=icmp('eq', r, 0, n), c=0, s=sg, l=sg); return r
    def cond(s, R, cc):
        k = CC[cc]; neg = k[0] == '!'; k = k.lstrip('!')
        f = R.fl
        if f is None:
            u = R.E.fresh(1, 'flags'); f = R.fl = dict(z=R.E.fresh(1, 'zf'), c=R.E.fresh(1, 'cf'), s=R.E.fresh(1, 'sf'), l=R.E.fresh(1, 'lf'))
        if k == 'o': v = norm(z3.Xor(bo(f['l']), bo(f['s'])))
        elif k == 'be': v = binop('or', f['c'], f['z'], 1)
        elif k == 'le': v = binop('or', f['l'], f['z'], 1)
        else: v = f[k]
        if neg: v = (1 - v) if v.__class__ is int else norm(z3.Not(bo(v)))
        return v
    def target(s, R, st, t):
        t = t.strip()
        if t.startswith('*'):
            o = s.operand(R, st, t[1:]); return R.E.concretize(s.rd(R, o, s.W), 'jump target')
        v = R.asm.label(t, st.idx)
        if v is None: v = R.asm.eval(t, st.idx)
        return v

    def exec(s, R, st):
        mn = st.mn; E = R.E
        if mn in ('lock', 'rep', 'repz', 'repe', 'repne', 'nop', 'pause', 'mfence', 'sfence', 'lfence', 'endbr64', 'cld', 'data16') and not (mn in ('lock', 'rep', 'data16') and st.ops):
            if mn == 'rep': R.extra['rep'] = True
            if mn in ('lock', 'mfence'): R.fence()
            return
        if mn in ('lock', 'rep', 'data16'):
            if mn == 'rep': R.extra['rep'] = True
            if mn == 'lock': R.fence()
            m = re.match(r'^(\S+)\s*(.*)$', st.ops, re.S)
            sub = st.__class__(); sub.mn, sub.ops, sub.sec, sub.addr, sub.idx, sub.text, sub.size = m.group(1), m.group(2), st.sec, st.addr, st.idx, st.text, st.size
            return s.exec(R, sub)
        args = [x.strip() for x in s.split_ops(st.ops)]
        if mn == 'jmp': R.npc = s.target(R, st, args[0]); return
        if mn[0] == 'j' and mn[1:] in CC:
            if E.branch(s.cond(R, mn[1:])): R.npc = s.target(R, st, args[0])
            return
        if mn in ('jrcxz', 'jecxz'):
            if E.branch(icmp('eq', R.get('rcx'), 0, s.W)): R.npc = s.target(R, st, args[0])
            return
        if mn == 'loop':
            v = binop('sub', R.get('rcx'), 1, s.W); R.set('rcx', v)
            if E.branch(icmp('ne', v, 0, s.W)): R.npc = s.target(R, st, args[0])
            return
        if mn in ('call', 'callq', 'calll'):
            sp = binop('sub', R.get('rsp'), s.W // 8, s.W); R.set('rsp', sp); R.store(sp, s.W // 8, R.npc); R.npc = s.target(R, st, args[0]); return
        if mn in ('ret', 'retq', 'retl'):
            sp = R.get('rsp'); R.npc = E.concretize(R.load(sp, s.W // 8), 'return address'); R.set('rsp', binop('add', sp, s.W // 8, s.W)); return
        if mn in ('ud1', 'ud2', 'int3', 'hlt', 'ud1l'): raise Violation('illegal instruction executed in the asm block', 'asm')
        if mn.startswith('set') and mn[3:] in CC:
            s.wr(R, s.operand(R, st, args[0]), 8, zext(s.cond(R, mn[3:]), 1, 8)); return
        if mn in ('movsb', 'stosb', 'movsq', 'movsl') and not args:
            return s.string(R, st, mn)
        o = [s.operand(R, st, a) for a in args]
        # size
        base, n = s.base(mn, o)
        if base is None: raise AsmError('x86 instruction `%s`' % st.text)
        if base in ('movz', 'movs_'):
            f, t = n
            v = s.rd(R, o[0], f); s.wr(R, o[1], t, zext(v, f, t) if base == 'movz' else sext(v, f, t)); return
        if base in ('mov', 'movabs'): s.wr(R, o[1], n, s.rd(R, o[0], n)); return
        if base == 'lea':
            a = s.ea(R, o[0], False)
            s.wr(R, o[1], n, trunc(a, s.W, n)); return
        if base == 'cmp': s.fsub(R, s.rd(R, o[1], n), s.rd(R, o[0], n), n); return
        if base == 'test': s.flog(R, binop('and', s.rd(R, o[1], n), s.rd(R, o[0], n), n), n); return
        if base in ('add', 'sub', 'and', 'or', 'xor'):
            b = s.rd(R, o[0], n)
            if base == 'xor' and o[0] == o[1] and o[0][0] == 'r': s.wr(R, o[1], n, 0); s.flog(R, 0, n); return
            a = s.rd(R, o[1], n)
            r = s.fadd(R, a, b, n) if base == 'add' else s.fsub(R, a, b, n) if base == 'sub' else s.flog(R, binop(base, a, b, n), n)
            s.wr(R, o[1], n, r); return
        if base in ('inc', 'dec'):
            a = s.rd(R, o[0], n); r = (s.fadd if base == 'inc' else s.fsub)(R, a, 1, n, True); s.wr(R, o[0], n, r); return
        if base == 'neg':
            a = s.rd(R, o[0], n); s.wr(R, o[0], n, s.fsub(R, 0, a, n)); return
        if base == 'not':
            s.wr(R, o[0], n, binop('xor', s.rd(R, o[0], n), (1 << n) - 1, n)); return
        if base in ('shl', 'sal', 'shr', 'sar'):
            c = s.rd(R, o[0], 8) if len(o) > 1 else 1
            a = s.rd(R, o[-1], n)
            r = binop({'shl': 'shl', 'sal': 'shl', 'shr': 'lshr', 'sar': 'ashr'}[base], a, zext(c, 8, n), n)
            s.wr(R, o[-1], n, r); s.flog(R, r, n); return
        if base == 'xchg':
            if 'm' in (o[0][0], o[1][0]): R.fence()
            a, b = s.rd(R, o[0], n), s.rd(R, o[1], n); s.wr(R, o[0], n, b); s.wr(R, o[1], n, a); return
        if base == 'xadd':
            a, b = s.rd(R, o[0], n), s.rd(R, o[1], n); r = s.fadd(R, b, a, n); s.wr(R, o[0], n, b); s.wr(R, o[1], n, r); return
        if base == 'cmpxchg':
            acc = trunc(R.get('rax'), s.W, n); d = s.rd(R, o[1], n); s.fsub(R, acc, d, n)
            if E.branch(R.fl['z']): s.wr(R, o[1], n, s.rd(R, o[0], n))
            else: s.wr(R, ('r', 'rax', n), n, d)
            return
        if base == 'push':
            n = s.W; v = s.rd(R, o[0], n); sp = binop('sub', R.get('rsp'), n // 8, n); R.set('rsp', sp); R.store(sp, n // 8, v); return
        if base == 'pop':
            n = s.W; sp = R.get('rsp'); v = R.load(sp, n // 8); R.set('rsp', binop('add', sp, n // 8, n)); s.wr(R, o[0], n, v); return
        if base.startswith('cmov'):
            v = s.rd(R, o[0], n)
            if E.branch(s.cond(R, base[4:])): s.wr(R, o[1], n, v)
            elif n == 32: s.wr(R, o[1], n, s.rd(R, o[1], n))
            return
        if base == 'imul' and len(o) == 2:
            r = binop('mul', s.rd(R, o[0], n), s.rd(R, o[1], n), n); s.wr(R, o[1], n, r); s.flog(R, r, n); return
        raise AsmError('x86 instruction `%s`' % st.text)

    def string(s, R, st, mn):
        E = R.E; n = {'b': 1, 'l': 4, 'q': 8}[mn[-1]]; W = s.W
        if R.extra.get('rep'):
            # every iteration is interruptible
            if E.branch(icmp('eq', R.get('rcx'), 0, W)): R.extra.pop('rep'); return
        v = R.load(R.get('rsi'), n) if mn.startswith('movs') else trunc(R.get('rax'), W, 8 * n)
        R.store(R.get('rdi'), n, v)
        R.set('rdi', binop('add', R.get('rdi'), n, W))
        if mn.startswith('movs'): R.set('rsi', binop('add', R.get('rsi'), n, W))
        if R.extra.get('rep'):
            R.set('rcx', binop('sub', R.get('rcx'), 1, W)); R.npc = R.pc
            return

    BASES = {'mov', 'movabs', 'lea', 'cmp', 'test', 'add', 'sub', 'and', 'or', 'xor', 'inc', 'dec', 'neg', 'not', 'shl', 'sal', 'shr', 'sar', 'xchg', 'xadd', 'cmpxchg', 'push', 'pop', 'imul'}
    def base(s, mn, o):
        def rs():
            for x in reversed(o):
                if x[0] == 'r': return x[2]
            return None
        m = re.match(r'^mov([zs])([bwl])([wlq])$', mn)
        if m and not (mn == 'movsb'): return ('movz' if m.group(1) == 'z' else 'movs_'), (SUF[m.group(2)], SUF[m.group(3)])
        if mn in ('movslq', 'movsxd'): return 'movs_', (32, 64)
        if mn in s.BASES:
            n = o[-1][2] if o and o[-1][0] == 'r' else rs()
            if mn in ('shl', 'sal', 'shr', 'sar'): n = o[-1][2] if o[-1][0] == 'r' else None
            if n is None and mn in ('push', 'pop'): n = s.W
            if n is None: n = 32 if s.W == 32 else None
            return (mn, n) if n else (None, None)
        if mn[:-1] in s.BASES and mn[-1] in SUF: return mn[:-1], SUF[mn[-1]]
        if mn.startswith('cmov'):
            if mn[4:] in CC: return mn, rs()
            if mn[4:-1] in CC and mn[-1] in SUF: return mn[:-1], SUF[mn[-1]]
        return None, None
