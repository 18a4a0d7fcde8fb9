"""Execution of inline-assembly templates: operand assignment, assembling (sections, labels,
data directives) and an instruction-by-instruction symbolic interpreter with kernel
interruptions.  Architecture modules supply operand syntax and instruction semantics."""
import re, z3
from .. import ops
from ..ops import norm, bv, binop, icmp, zext, sext, trunc, ite
from ..engine import Violation, Inconclusive, PAGE

class AsmError(Inconclusive): pass

NUM = re.compile(r'^-?(0[xX][0-9a-fA-F]+|0[bB][01]+|\d+)$')
TOK = re.compile(r'\s*(0[xX][0-9a-fA-F]+|\d+[fb](?![0-9A-Za-z_])|\d+|[A-Za-z_.$⟦][\w.$⟧]*|<<|>>|[-+*/()~&|])')

class Stmt:
    __slots__ = ('mn', 'ops', 'sec', 'addr', 'idx', 'text', 'size')

class Assembled:
    """one asm block with concrete operand texts"""
    def __init__(s, arch, text, base, nlabels):
        s.arch = arch; s.text = text; s.base = base
        s.secs = {}            # name -> [base, items]
        s.labels = {}          # name -> [(idx, sec, off)]
        s.code = {}            # addr -> Stmt
        s.next = {}            # addr -> following addr
        s.blobs = []           # (addr, bytes, section)
        s.clabels = [base + 0x9000 + 16 * k for k in range(nlabels)]
        s.parse()

    def secbase(s, name):
        if name not in s.secs:
            fixed = {'.text': 0x1000, '__rseq_failure': 0x3000, '__rseq_cs': 0x5000, '__rseq_cs_ptr_array': 0x6000, '__rseq_exit_point_array': 0x7000}
            k = fixed.get(name)
            if k is None: k = 0xa000 + 0x1000 * sum(1 for n in s.secs if n not in fixed)
            s.secs[name] = [s.base + k, [], 0]
        return s.secs[name]

    def parse(s):
        A = s.arch
        cur = '.text'; stack = []; prev = '.text'
        s.secbase('.text')
        idx = 0; late = []
        for line in A.split(s.text):
            line = line.strip()
            while True:
                m = re.match(r'^([\w.$]+)\s*:\s*', line)
                if not m or not A.is_label(m.group(1)): break
                sec = s.secs[cur]
                s.labels.setdefault(m.group(1), []).append((idx, cur, sec[2]))
                line = line[m.end():]
            if not line: continue
            idx += 1
            m = re.match(r'^(\S+)\s*(.*)$', line, re.S)
            mn, rest = m.group(1), m.group(2).strip()
            if mn.startswith('.') :
                d = mn
                args = [x.strip() for x in A.split_ops(rest)] if rest else []
                sec = s.secs[cur]
                if d == '.pushsection': stack.append((cur, prev)); prev = cur; cur = args[0].strip('"'); s.secbase(cur)
                elif d == '.popsection': cur, prev = stack.pop()
                elif d == '.section': prev = cur; cur = args[0].strip('"'); s.secbase(cur)
                elif d in ('.text', '.data'): prev = cur; cur = d; s.secbase(cur)
                elif d == '.previous': cur, prev = prev, cur
                elif d in ('.balign', '.align', '.p2align'):
                    n = int(args[0], 0) if args else 4
                    if d == '.p2align' or (d == '.align' and A.align_pow2): n = 1 << n
                    sec[2] = (sec[2] + n - 1) // n * n
                elif d in A.data:
                    n = A.data[d]
                    for a in args: late.append((cur, sec[2], n, a, idx, A.code_order if d == '.inst' else A.order)); sec[2] += n
                elif d in ('.skip', '.space', '.zero'): sec[2] += int(args[0], 0)
                elif d.startswith(('.cfi_', '.loc', '.file', '.globl', '.global', '.local', '.type', '.size', '.set', '.arm', '.thumb', '.syntax', '.option', '.machine', '.hidden', '.weak', '.nop', '.code', '.arch', '.module', '.subsection')):
                    A.directive(s, d, args)
                else: raise AsmError('assembler directive %s' % line)
                continue
            st = Stmt(); st.mn = mn; st.ops = rest; st.sec = cur; st.idx = idx; st.text = line; st.size = A.size(mn)
            sec = s.secs[cur]
            st.addr = sec[0] + sec[2]; sec[2] += st.size
            s.code[st.addr] = st
        s.end = s.secs['.text'][0] + s.secs['.text'][2]
        # memory image of every section (instructions read as zero)
        imgs = {n: bytearray(x[2]) for n, x in s.secs.items()}
        for sec, off, n, e, i, bo in late:
            v = s.eval(e, i) & ((1 << (8 * n)) - 1)
            imgs[sec][off:off + n] = v.to_bytes(n, bo)
        for n, x in s.secs.items():
            if x[2]: s.blobs.append((x[0], imgs[n], n))
        s.late = late
        # fall-through addresses skip data and padding only towards the next instruction or the end
        for a, st in s.code.items(): s.next[a] = a + st.size

    def label(s, name, idx):
        m = re.match(r'^(\d+)([fb])$', name)
        if m:
            L = s.labels.get(m.group(1), [])
            if m.group(2) == 'b': c = [x for x in L if x[0] < idx]; c = c[-1:] 
            else: c = [x for x in L if x[0] >= idx]; c = c[:1]
            if not c: raise AsmError('undefined label ' + name)
            return s.secs[c[0][1]][0] + c[0][2]
        m = re.match(r'^⟦L(\d+)⟧$', name)
        if m: return s.clabels[int(m.group(1))]
        if name in s.labels:
            c = s.labels[name][0]; return s.secs[c[1]][0] + c[2]
        return None

    def eval(s, e, idx):
        """constant assembler expression"""
        toks = []; p = 0
        while p < len(e):
            if e[p:].isspace(): break
            m = TOK.match(e, p)
            if not m: raise AsmError('expression ' + e)
            toks.append(m.group(1)); p = m.end()
        pos = 0
        def peek(): return toks[pos] if pos < len(toks) else None
        def prim():
            nonlocal pos
            t = peek()
            if t is None: raise AsmError('expression ' + e)
            pos += 1
            if t == '(':
                v = add()
                if peek() != ')': raise AsmError('expression ' + e)
                pos += 1; return v
            if t == '-': return -prim()
            if t == '+': return prim()
            if t == '~': return ~prim()
            if t == '.': return s.here(idx)
            if re.match(r'^(0[xX][0-9a-fA-F]+|\d+)$', t): return int(t, 0) if not re.match(r'^0\d+$', t) else int(t, 8)
            v = s.label(t, idx)
            if v is None: raise AsmError('symbol %s in assembler expression' % t)
            return v
        def mul():
            nonlocal pos
            v = prim()
            while peek() in ('*', '/', '<<', '>>'):
                o = toks[pos]; pos += 1; w = prim()
                v = v * w if o == '*' else v // w if o == '/' else v << w if o == '<<' else v >> w
            return v
        def add():
            nonlocal pos
            v = mul()
            while peek() in ('+', '-', '&', '|'):
                o = toks[pos]; pos += 1; w = mul()
                v = v + w if o == '+' else v - w if o == '-' else v & w if o == '&' else v | w
            return v
        v = add()
        if pos != len(toks): raise AsmError('expression ' + e)
        return v
    def here(s, idx): raise AsmError('location counter')

class Constraint:
    __slots__ = ('out', 'early', 'ind', 'body', 'tied', 'label')
def parse_constraints(cs):
    ops_, clob = [], []
    depth = 0; cur = ''; parts = []
    for ch in cs:
        if ch == '{': depth += 1
        if ch == '}': depth -= 1
        if ch == ',' and depth == 0: parts.append(cur); cur = ''
        else: cur += ch
    if cur: parts.append(cur)
    for p in parts:
        if p.startswith('~'): clob.append(p[2:-1]); continue
        c = Constraint(); c.out = False; c.early = False; c.ind = False; c.tied = None; c.label = False
        if p.startswith('!'): c.label = True; c.body = 'i'; ops_.append(c); continue
        while p and p[0] in '=&*%+':
            if p[0] == '=': c.out = True
            elif p[0] == '&': c.early = True
            elif p[0] == '*': c.ind = True
            elif p[0] == '+': c.out = True
            p = p[1:]
        if p.isdigit(): c.tied = int(p)
        c.body = p; ops_.append(c)
    return ops_, clob

class Executor:
    """models.asm"""
    def __init__(s, arch, opts):
        s.A = arch; s.opts = opts; s.ids = {}; s.cache = {}; s.cons = {}
    def reset(s, E):
        E.env.update(asm_placed=set(), ev_budget=0, obs_budget=0, ev_fired=0, obs_fired=0, area=None, sharedr=[], commit=None,
                     asm_mode=s.opts.get('mode', ''), ev_busy=False, obs_stage=0, hist=None)
    def block_id(s, ins):
        k = id(ins)
        if k not in s.ids: s.ids[k] = len(s.ids)
        return s.ids[k]

    def execute(s, E, ins, args, slot, nxt, labels):
        callee = ins.x[0]; tmpl, cs = callee[1], callee[2]
        c = s.cons.get(cs)
        if c is None: c = s.cons[cs] = parse_constraints(cs)
        if 'memory' in c[1]: E.models.barrier(E)
        if not tmpl.strip():
            A = s.A
            if not any(x.out for x in c[0]):
                return nxt
        R = Run(s, E, ins, tmpl, c, args, slot, nxt, labels)
        return R.loop()

class Run:
    def __init__(s, X, E, ins, tmpl, cons, args, slot, nxt, labels):
        s.X = X; s.A = A = X.A; s.E = E; s.ins = ins; s.slot = slot; s.nxt = nxt; s.labels = labels
        s.cons, s.clob = cons
        s.argt = [a[1] for a in ins.x[1]]
        s.args = args
        s.regs = {}; s.fl = None; s.steps = 0
        s.stores = []; s.extra = {}; s.fenced = False
        s.assign()
        text = s.render(tmpl)
        b = X.block_id(ins)
        key = (b, text)
        a = X.cache.get(key)
        if a is None:
            a = X.cache[key] = Assembled(A, text, 0x2000_0000 + b * 0x40000, len(labels))
        s.asm = a
        if key not in E.env['asm_placed']:
            for addr, blob, sec in a.blobs: E.place(addr, len(blob), blob, sec not in ('.text', '__rseq_failure'), 'asm', sec)
            E.env['asm_placed'].add(key)
        s.pc = a.secs['.text'][0]
        if not [1 for st in a.code.values() if st.sec == '.text']: s.pc = a.end
        s.desc = None
        s.touched = set()

    # ---- operands
    def assign(s):
        A, E = s.A, s.E
        mode = E.env['asm_mode']
        s.opnd = []           # per operand: ('r', reg, bits) ('m', base, off) ('i', value) ('l', k)
        clobbered = {A.canon(c) for c in s.clob}
        s.clobbered = clobbered
        pool = [r for r in A.pool if r not in clobbered]
        used = {}             # reg -> value held on entry
        s.inputs = []         # (reg, value) that must be preserved
        s.outs = []           # (operand index, reg, bits)
        s.mem_in = []; s.mem_out = []
        ai = 0; li = 0
        # explicit registers first so that the pool avoids them
        for c in s.cons:
            m = re.match(r'^\{(.*)\}$', c.body)
            if m:
                r = A.canon(m.group(1))
                if r in pool: pool.remove(r)
        def take(val, bits, why, pools=None, share=True):
            if mode == 'regs' and share:
                # the compiler may hold equal inputs in one register
                c = [r for r, v in used.items() if v is not None and same(v, val)]
                if c:
                    k = E.choice(1 + len(c), 'share', 'regs')
                    if k: return c[k - 1]
            P = [r for r in pool if pools is None or r in pools]
            if not P: raise AsmError('out of registers for an asm operand')
            r = P[0]; pool.remove(r); return r
        resty = s.ins.ty
        nout = sum(1 for c in s.cons if c.out and not c.ind)
        oi = 0
        rt = []
        if nout == 1: rt = [resty]
        elif nout > 1: rt = resty.fields
        pending_out = []
        s.left = sum(1 for c in s.cons if not c.label and not c.ind and c.tied is None and A.wants_reg(c.body))
        s.pool_ = pool; s.spall = None
        for i, c in enumerate(s.cons):
            if c.label: s.opnd.append(('l', li)); li += 1; continue
            if c.out and not c.ind:
                bits = E.prog.bits(rt[oi]); oi += 1
                s.opnd.append(None); pending_out.append((i, c, bits)); continue
            v = s.args[ai]; t = s.argt[ai]; ai += 1
            if c.ind:
                # memory operand
                a = v
                (s.mem_out if c.out else s.mem_in).append(a)
                s.opnd.append(s.memop(a, take, used, mode))
                continue
            bits = E.prog.bits(t)
            if c.tied is not None: s.opnd.append(('tied', c.tied, v, bits)); continue
            if A.wants_reg(c.body): s.left -= 1
            s.opnd.append(s.inop(c, v, bits, take, used, mode, pool))
        # outputs
        inregs = [r for r in used]
        for i, c, bits in pending_out:
            tie = next((o for o in s.opnd if o is not None and o[0] == 'tied' and o[1] == i), None)
            m = re.match(r'^\{(.*)\}$', c.body)
            fixed = A.canon(m.group(1)) if m else A.letter_reg(c.body)
            if fixed: r = fixed; used.setdefault(r, None); pool[:] = [x for x in pool if x != r]
            elif tie is None and not c.early and mode == 'regs' and inregs and E.choice(2, 'outshare', 'regs'):
                r = inregs[E.choice(len(inregs), 'outreg', 'regs')]
            else: r = take(None, bits, 'out', share=False); used[r] = None
            s.opnd[i] = ('r', r, bits); s.outs.append((i, r, bits))
            if tie is not None: s.setreg(r, tie[2], tie[3])
        for k, o in enumerate(s.opnd):
            if o[0] == 'tied': s.opnd[k] = s.opnd[o[1]]
        for r, v in used.items():
            if v is not None: s.regs[r] = v
        outregs = {r for _, r, _ in s.outs}
        s.inputs = [(r, v) for r, v in used.items() if v is not None and r not in outregs]
        s.entry = {}

    def inop(s, c, v, bits, take, used, mode, pool):
        A, E = s.A, s.E; b = c.body
        m = re.match(r'^\{(.*)\}$', b)
        fixed = A.canon(m.group(1)) if m else A.letter_reg(b)
        if fixed:
            used[fixed] = s.widen(v, bits)
            if fixed in pool: pool.remove(fixed)
            return ('r', fixed, bits)
        isreg = A.wants_reg(b)
        imm = A.wants_imm(b)
        if imm and v.__class__ is int and A.imm_ok(b, ops.sgn(v, bits)):
            if not isreg or (mode == 'regs' and E.choice(2, 'imm', 'regs')): return ('i', ops.sgn(v, bits))
        if isreg:
            r = take(v, bits, 'in')
            if r not in used: used[r] = s.widen(v, bits)
            return ('r', r, bits)
        if 'm' in b or 'Q' in b: raise AsmError('direct memory operand')
        raise AsmError('asm constraint "%s"' % b)

    def widen(s, v, bits):
        """a narrow input leaves the rest of its register undefined"""
        W = s.A.W
        if bits >= W: return v
        return s.A.widen(s, v, bits)

    def memop(s, a, take, used, mode):
        A, E = s.A, s.E
        if mode == 'regs' and A.sp_mem:
            # with few registers, one decision for all memory operands
            if s.spall is None or not A.share_base: s.spall = E.choice(2, 'spmem', 'regs')
        if s.spall:
            s.need_sp = True
            return ('m', A.SP, binop('sub', a, A.stack(E), A.W))
        if A.share_base and a.__class__ is int:
            # few registers: operands near each other are addressed from one base
            for r, v in used.items():
                if v.__class__ is int and -4096 < a - v < 4096: return ('m', r, a - v)
        if len(s.pool_) <= s.left:
            # the registers that remain are for the operands that need one
            s.need_sp = True
            return ('m', A.SP, binop('sub', a, A.stack(E), A.W))
        r = take(a, A.W, 'mem')
        if r not in used: used[r] = a
        return ('m', r, 0)

    def setreg(s, r, v, bits):
        s.regs[r] = v if bits >= s.A.W else s.widen(v, bits)

    def render(s, t):
        A = s.A; out = []; i = 0; n = len(t); depth = 0
        # LLVM template: $N ${N:mod} $$ $( a $| b $)
        while i < n:
            ch = t[i]
            if ch != '$': out.append(ch); i += 1; continue
            i += 1; ch = t[i]
            if ch == '$': out.append('$'); i += 1; continue
            if ch == '(':
                j = t.index('$)', i); alt = t[i + 1:j].split('$|'); out.append(s.render(alt[0])); i = j + 2; continue
            if ch == '{':
                j = t.index('}', i); body = t[i + 1:j]; i = j + 1
                k, _, mod = body.partition(':')
                if k == '' and mod == 'uid': out.append(str(s.X.block_id(s.ins))); continue
                if k == '' and mod == 'comment': out.append(A.comment); continue
                out.append(s.opr(int(k), mod)); continue
            m = re.match(r'\d+', t[i:])
            if not m: raise AsmError('template $' + ch)
            out.append(s.opr(int(m.group(0)), '')); i += m.end()
        return re.sub(r'"(⟦L\d+⟧)"', r'\1', ''.join(out))
    def opr(s, k, mod):
        o = s.opnd[k]
        if o[0] == 'l': return '⟦L%d⟧' % o[1]
        return s.A.print(s, o, mod)

    # ---- registers
    def get(s, r):
        v = s.regs.get(r)
        if v is None:
            v = s.A.initreg(s, r)
            s.regs[r] = v
            s.entry[r] = v
        return v
    def set(s, r, v):
        if r not in s.regs: s.get(r)
        s.regs[r] = v

    # ---- memory
    ALL = frozenset(('rr', 'rw', 'wr', 'ww'))
    def fence(s, pairs=ALL):
        """a barrier instruction that orders these pairs of earlier and later accesses"""
        if 'rw' in pairs and 'ww' in pairs: s.fenced = True
        s.E.models.order_fence(s.E, frozenset(pairs), 'memory' in s.clob)
    def load(s, addr, n):
        E = s.E
        if addr.__class__ is not int: addr = s.address(addr)
        s.access(addr, n, False)
        return E.load_v(addr, n, s.how())
    def store(s, addr, n, v):
        E = s.E
        if addr.__class__ is not int: addr = s.address(addr)
        s.access(addr, n, True)
        rz = s.A.redzone
        if rz:
            sp = s.A.stack(E)
            if sp - rz <= addr < sp: E.assert_(icmp('eq', s.load(addr, n), v, 8 * n), "the asm block leaves the compiler's data below the stack pointer alone", 'asm')
        E.store_v(addr, n, v, s.how())
    def how(s):
        return ['volatile', 'asm'] + (['clobber'] if 'memory' in s.clob else []) + (['acq'] if s.extra.get('acq') else []) + (['rel'] if s.extra.get('rel') else [])

    def address(s, a):
        s.E.assert_(icmp('ne', a, 0x10, s.A.W), 'the asm block accesses an address that its arguments do not determine', 'crash')
        return s.E.concretize(a, 'address')

    def shared(s, addr, n):
        return any(a < addr + n and addr < b for a, b in s.E.env['sharedr'])

    def access(s, addr, n, w):
        E = s.E
        if not E.env['sharedr']: return
        H = E.env['hist']
        sh = s.shared(addr, n)
        if sh and 'memory' not in s.clob:
            known = s.mem_out if w else s.mem_in + s.mem_out
            if not any(a.__class__ is int and a <= addr < a + 8 for a in known):
                raise Violation('the asm block %s memory that its operands and clobbers do not declare' % ('writes' if w else 'reads'), 'asm')
        if w and E.env['commit'] is not None and addr <= E.env['commit'] < addr + n:
            if E.env.get('release'):
                if 'memory' not in s.clob:
                    raise Violation('release variant without memory clobber: the compiler may move earlier accesses of the caller after the final store', 'asm')
                if s.A.weak and not (s.fenced or s.extra.get('rel')):
                    raise Violation('release variant without barrier: earlier accesses may be ordered after the final store', 'asm')
        elif sh: s.fenced = False
        if 'meta' in E.env['asm_mode']:
            area = E.env['area']
            off = s.A.area_size
            if sh or (not w and area is not None and area <= addr < area + off and addr - area in s.A.id_offsets):
                s.check_inside('the critical section does not cover %s' % ('a store' if w else 'a load' if sh else 'the CPU number check'))
            if w and E.env['commit'] is not None and addr <= E.env['commit'] < addr + n:
                d = s.current_desc()
                st = s.asm.code[s.pc]
                if d is None or s.pc + st.size != d[2] + d[3]: raise Violation('the committing store is not the last instruction of the critical section', 'asm')
                E.env['commits'] = E.env.get('commits', 0) + 1
        if H is not None and (sh or s.A.own_frame is None):
            H.append(('w' if w else 'r', addr, n, s.pc))

    def current_desc(s):
        """descriptor the area points to: (addr, fields...)"""
        E = s.E; area = E.env['area']
        if area is None: return None
        p = E.load(area + s.A.cs_off(E), 8)
        p = E.concretize(p, 'rseq_cs')
        if p == 0: return None
        return s.read_desc(p)
    def read_desc(s, p):
        E = s.E
        try:
            ver = E.concretize(E.load(p, 4), 'version'); fl = E.concretize(E.load(p + 4, 4), 'flags')
            st = E.concretize(E.load(p + 8, 8), 'start_ip'); ln = E.concretize(E.load(p + 16, 8), 'offset'); ab = E.concretize(E.load(p + 24, 8), 'abort_ip')
        except Violation:
            raise Violation('the published critical-section descriptor is not readable', 'asm')
        return p, (ver, fl), st, ln, ab

    def check_inside(s, msg):
        d = s.current_desc()
        if d is None: raise Violation(msg + ' (no descriptor is published)', 'asm')
        if not (0 <= s.pc - d[2] < d[3]): raise Violation(msg, 'asm')

    def kernel_fixup(s):
        """what the kernel does to the instruction pointer when the thread resumes"""
        E = s.E; area = E.env['area']
        if area is None: return
        d = s.current_desc()
        if d is None: return
        p, (ver, fl), st, ln, ab = d
        if ver != 0: raise Violation('kernel rejects the descriptor: version %d' % ver, 'asm')
        if fl != 0: raise Violation('kernel rejects the descriptor: flags %d' % fl, 'asm')
        M = (1 << 64) - 1
        if ((ab - st) & M) < ln: raise Violation('kernel rejects the descriptor: the abort address lies inside the critical section', 'asm')
        sig = E.concretize(E.load(ab - 4, 4), 'signature')
        if sig != s.A.sig(E): raise Violation('kernel kills the thread: abort address is not preceded by the signature (0x%x)' % sig, 'asm')
        E.store(area + s.A.cs_off(E), 8, 0)
        if ((s.pc - st) & M) < ln:
            E.trace.append('  kernel: abort to 0x%x' % ab); s.pc = ab

    def validate(s, d):
        """C05: static well-formedness of the published descriptor"""
        p, (ver, fl), st, ln, ab = d
        a = s.asm
        def need(c, m):
            if not c: raise Violation('critical-section metadata: ' + m, 'asm')
        cs = a.secs.get('__rseq_cs'); pa = a.secs.get('__rseq_cs_ptr_array')
        need(cs is not None, 'no descriptor in section __rseq_cs')
        need(p % 32 == 0, 'the descriptor is not 32-byte aligned')
        need(ver == 0 and fl == 0, 'version or flags are not 0')
        need(ln > 0 and st in a.code, 'the section does not start at an instruction')
        need((st + ln) in a.code or st + ln == a.end or any(st + ln == x[0] + x[2] for x in a.secs.values()), 'the section does not end at an instruction boundary')
        need(not (0 <= ab - st < ln), 'the abort address lies inside the section')
        need(ab in a.code, 'the abort address is not an instruction')
        sig = s.E.concretize(s.E.load(ab - 4, 4), 'signature')
        need(sig == s.A.sig(s.E), 'the abort address is not preceded by the signature')
        need(pa is not None, 'no __rseq_cs_ptr_array entry')
        ptrs = [s.E.concretize(s.E.load(pa[0] + k, 8), 'pointer') for k in range(0, pa[2] - 7, 8)]
        need(all(cs[0] <= x and x + 32 <= cs[0] + cs[2] for x in ptrs), '__rseq_cs_ptr_array names something outside section __rseq_cs')
        # some ports publish a copy of the descriptor that lies next to the code
        if not p in ptrs: need(s.A.desc_copy and any(s.read_desc(x)[1:] == d[1:] for x in ptrs), 'the descriptor is not listed in __rseq_cs_ptr_array')
        ep = a.secs.get('__rseq_exit_point_array'); s.exits = set()
        if ep:
            w = [s.E.concretize(s.E.load(ep[0] + k, 8), 'pointer') for k in range(0, ep[2] - 7, 8)]
            need(len(w) % 2 == 0, 'incomplete exit point entry')
            for x, y in zip(w[::2], w[1::2]):
                need(x == st, 'an exit point names another section start')
                need(not (0 <= y - st < ln), 'an exit point lies inside the section')
                s.exits.add(y)
        s.desc = d

    # ---- main loop
    def resume(s):
        return lambda E, r: s.loop()

    def loop(s):
        E = s.E; a = s.asm; env = E.env
        meta = 'meta' in env['asm_mode']
        lim = s.X.opts.get('max_instr', 20000)
        while True:
            out = s.pc == a.end or s.pc in a.clabels
            st = a.code.get(s.pc) if not out else None
            if st is None and not out: raise Violation('execution leaves the asm block at 0x%x' % s.pc, 'asm')
            if meta and not out and env['area'] is not None and s.desc is None:
                d = s.current_desc()
                if d is not None and s.pc == d[2]: s.validate(d)
                elif d is not None and any(x[0] <= d[0] < x[0] + x[2] for x in a.secs.values()):
                    raise Violation('critical-section metadata: the section does not start right after the descriptor was published', 'asm')
            if not s.extra.get('skip'):
                if env['ev_budget'] > 0 and env['area'] is not None:
                    if E.choice(2, 'interrupt', 'event'):
                        env['ev_budget'] -= 1; env['ev_fired'] += 1; E.stats.events += 1
                        E.trace.append('interrupted before `%s`' % (st.text if st else 'the code after the asm block'))
                        s.extra['skip'] = True; s.extra['fix'] = True
                        return s.callback('@h_on_interrupt')
                if env['obs_budget'] > 0:
                    if E.choice(2, 'observe', 'event'):
                        env['obs_budget'] -= 1; env['obs_fired'] += 1; E.stats.events += 1
                        E.trace.append('observed before `%s`' % (st.text if st else 'the code after the asm block'))
                        s.extra['skip'] = True
                        return s.callback('@h_on_observe')
            if s.extra.pop('skip', None):
                if s.extra.pop('fix', None):
                    old = s.pc; s.kernel_fixup()
                    if s.pc != old: continue
            if s.pc == a.end: return s.leave(s.nxt, 'end')
            if out: return s.leave(s.labels[a.clabels.index(s.pc)], 'label %d' % a.clabels.index(s.pc))
            pc = s.pc
            s.npc = s.pc + st.size
            s.steps += 1; E.stats.asm_instrs += 1
            if s.steps > lim: raise Violation('no progress in the asm block', 'hang')
            s.A.exec(s, st)
            if meta and s.desc is not None:
                _, _, b, ln, ab = s.desc
                if 0 <= pc - b < ln and not 0 <= s.npc - b < ln and s.npc != b + ln and s.npc != ab and s.npc not in s.exits:
                    raise Violation('critical-section metadata: the section can be left towards an undeclared exit point by `%s`' % st.text, 'asm')
                if not 0 <= pc - b < ln and 0 <= s.npc - b < ln and s.npc != b: raise Violation('critical-section metadata: jump into the section', 'asm')
            s.pc = s.npc

    def callback(s, name):
        E = s.E; f = E.prog.funcs.get(name)
        if f is None or not f.defined: raise AsmError('harness lacks ' + name)
        E.push(f, [], None, s.resume())
        return f.entry

    def leave(s, seg, where):
        E = s.E; A = s.A
        if 'regs' in E.env['asm_mode']:
            for r, v in s.inputs:
                if not same(s.regs[r], v): s.prove(r, v, 'an input register is modified')
            for r, v in s.entry.items():
                if r in s.clobbered or r == A.FLAGS or any(r == o[1] for o in s.outs): continue
                if r in A.ignore: continue
                if not same(s.regs[r], v): s.prove(r, v, 'a register that is neither output nor clobber is modified')
        if 'meta' in E.env['asm_mode'] and E.env['area'] is not None and E.env['sharedr'] and where == 'end' and s.desc is None and s.asm.secs.get('__rseq_cs'):
            raise Violation('critical-section metadata: the helper completed without publishing its descriptor', 'asm')
        if s.slot is not None and s.outs:
            vals = [trunc(s.get(r), A.W, b) if b < A.W else s.get(r) for _, r, b in s.outs]
            E.r[s.slot] = vals[0] if len(vals) == 1 else vals
        return seg
    def prove(s, r, v, msg):
        E = s.E
        E.assert_(icmp('eq', s.regs[r], v, s.A.W), '%s: %s' % (msg, r), 'asm')

def same(a, b):
    if a is None or b is None: return False
    if a.__class__ is int or b.__class__ is int: return a.__class__ is int and b.__class__ is int and a == b
    return a.eq(b)
