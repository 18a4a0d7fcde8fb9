"""LLVM IR module -> Python segment functions (one per straight-line run)."""
from . import ir, ops
from .ir import IRError
from .engine import Redirect, Inconclusive, Violation
import z3

MUTEXY = ('pthread_', 'sx_')

class PFn:
    def __init__(s, f, addr):
        s.name = f.name; s.f = f; s.params = f.params; s.nregs = 0; s.entry = None; s.addr = addr
        s.defined = f.defined; s.regs = {}; s.file = f.file

class Program:
    def __init__(s, m, models):
        s.m = m; s.models = models
        s.PB = m.psize * 8
        s.funcs = {}; s.fn_by_addr = {}; s.gaddr = {}
        base = 0x40_0000 if m.psize == 8 else 0x10000
        for i, f in enumerate(m.funcs.values()):
            pf = PFn(f, base + 16 * i); s.funcs[f.name] = pf; s.fn_by_addr[pf.addr] = pf; s.gaddr[f.name] = pf.addr
        # globals
        addr = 0x1000_0000
        lay = []; s.tls_layout = []
        tls = []
        for g in m.globals.values():
            if g.name.startswith('@llvm.'): continue
            if g.tls: tls.append(g); continue
            try: size = m.size(g.ty)
            except IRError: size = 0
            al = max(g.align or 1, 16)
            addr = (addr + 0xfff) & ~0xfff
            if al > 4096: addr = (addr + al - 1) // al * al
            s.gaddr[g.name] = addr; lay.append((g, addr, size)); addr += size + 4096
        s.ext_globals = set(g.name for g, a, z in lay if g.external)
        s.globals_layout = []
        for g, a, size in lay:
            b = None
            if g.init is not None: b = bytearray(size); s.init_bytes(b, 0, g.init, g.ty)
            s.globals_layout.append((g.name, a, size, g.const, b))
        for g in tls:
            size = m.size(g.ty); b = bytearray(size)
            if g.init is not None: s.init_bytes(b, 0, g.init, g.ty)
            s.tls_layout.append((g.name, size, g.align or 16, b))
        s.ctors = []
        c = m.globals.get('@llvm.global_ctors')
        if c is not None and c.init and c.init[0] == 'agg':
            for e in c.init[1]: s.ctors.append((e[1][0][1], e[1][1][1]))
        s.dtors = []
        c = m.globals.get('@llvm.global_dtors')
        if c is not None and c.init and c.init[0] == 'agg':
            for e in c.init[1]: s.dtors.append((e[1][0][1], e[1][1][1]))
        s.ns = {'ops': ops, 'Redirect': Redirect, 'z3': z3, 'binop': ops.binop, 'icmp': ops.icmp,
                'zext': ops.zext, 'sext': ops.sext, 'trunc': ops.trunc, 'ite': ops.ite}
        s.uid = 0
        for pf in s.funcs.values():
            if pf.defined: pf.entry = s.lazy(pf)

    def lazy(s, pf):
        def entry(E, r):
            s.compile(pf)
            E.r.extend([None] * (pf.nregs - len(E.r)))
            return pf.entry(E, E.r)
        return entry

    # ------------------------------------------------ constants
    def init_bytes(s, b, off, v, ty):
        m = s.m; k = v[0]
        if k == 'zero' or k == 'undef': return
        if k == 'bytes': b[off:off + len(v[1])] = v[1]; return
        if k == 'agg':
            if ty.k == 'array' or ty.k == 'vector':
                es = m.size(ty.elem)
                for i, e in enumerate(v[1]): s.init_bytes(b, off + i * es, e, ty.elem)
            else:
                offs = m.offs(ty)
                for i, e in enumerate(v[1]): s.init_bytes(b, off + offs[i], e, ty.fields[i])
            return
        n = m.size(ty)
        x = s.const(v)
        bits = ty.bits if ty.k == 'int' else s.PB
        x &= (1 << (8 * n)) - 1
        b[off:off + n] = x.to_bytes(n, 'little' if m.little else 'big')

    def const(s, v):
        k = v[0]
        if k == 'c':
            bits = v[2].bits if v[2].k == 'int' else s.PB
            return v[1] & ((1 << bits) - 1)
        if k == 'g':
            a = s.m.aliases.get(v[1])
            if a is not None: return s.const(a)
            if v[1] not in s.gaddr:
                raise IRError('address of ' + v[1])
            return s.gaddr[v[1]]
        if k == 'zero': return 0
        if k == 'cgep':
            base = s.const(v[2]); return (base + s.gep_const(v[1], [(x, x[-1]) for x in v[3]])) & ((1 << s.PB) - 1)
        if k == 'ccast':
            x = s.const(v[2]); t = v[3]
            bits = t.bits if t.k == 'int' else s.PB
            if v[1] == 'sext':
                ft = v[2][-1]; return ops.sext(x, ft.bits, bits)
            return x & ((1 << bits) - 1)
        if k == 'cbin':
            t = v[4]; bits = t.bits if t.k == 'int' else s.PB
            return ops.binop(v[1], s.const(v[2]), s.const(v[3]), bits)
        if k == 'baddr': return 0x7777
        raise IRError('constant ' + k)

    def gep_const(s, bt, idx):
        off = 0; t = bt
        for i, (v, it) in enumerate(idx):
            c = s.const(v); n = it.bits if it.k == 'int' else 64
            c = ops.sgn(c, n)
            if i == 0: off += c * s.m.size(t)
            elif t.k == 'struct': off += s.m.offs(t)[c]; t = t.fields[c]
            else: off += c * s.m.size(t.elem); t = t.elem
        return off

    def bits(s, t):
        if t.k == 'int': return t.bits
        if t.k == 'ptr': return s.PB
        raise IRError('bits of ' + repr(t))

    # ------------------------------------------------ function compilation
    def compile(s, pf):
        f = pf.f; m = s.m
        regs = {}
        for pn, t, at in f.params: regs[pn] = len(regs)
        for b in f.blocks:
            for i in b.instrs:
                if i.res is not None and i.res not in regs: regs[i.res] = len(regs)
        pf.nregs = len(regs); pf.regs = regs
        s.uid += 1; u = s.uid
        blocks = {b.name: b for b in f.blocks}
        bname = {b.name: f'F{u}_B{k}' for k, b in enumerate(f.blocks)}
        out = []
        def V(v):
            k = v[0]
            if k == 'r': return f'r[{regs[v[1]]}]'
            if k == 'undef':
                t = v[1]
                if t.k in ('int', 'ptr'): return f'E.fresh({s.bits(t)},"undef")'
                return 'None'
            if k == 'zero' and v[1].k in ('struct', 'array'): return repr(s.zero_agg(v[1]))
            if k == 'agg':
                return '[' + ','.join(V(x) for x in v[1]) + ']'
            if k == 'asm': raise IRError('asm value')
            if k == 'g' and v[1] not in s.gaddr and v[1] in m.globals and m.globals[v[1]].tls: return f'E.cur.tls[{v[1]!r}]'
            return str(s.const(v))
        def isc(v): return v[0] not in ('r', 'undef', 'agg')
        def phis(frm, to):
            """assignments for the edge frm->to"""
            ds = []; ss = []
            for i in blocks[to].instrs:
                if i.op != 'phi': break
                for v, b in i.x:
                    if b == frm: ds.append(f'r[{regs[i.res]}]'); ss.append(V(v)); break
                else: raise IRError('phi edge')
            if not ds: return ''
            return f'{",".join(ds)} = {",".join(ss)}; ' if len(ds) > 1 else f'{ds[0]} = {ss[0]}; '
        def goto(frm, to): return phis(frm, to) + f'return {bname[to]}'
        for b in f.blocks:
            segn = 0
            cur = [f'def {bname[b.name]}(E, r):']
            def close(nxt_line):
                nonlocal cur, segn
                cur.append('    ' + nxt_line); out.append('\n'.join(cur))
            def newseg():
                nonlocal cur, segn
                segn += 1
                cur = [f'def {bname[b.name]}_{segn}(E, r):']
                return f'{bname[b.name]}_{segn}'
            def nextname(): return f'{bname[b.name]}_{segn + 1}'
            A = lambda line: cur.append('    ' + line)
            for i in b.instrs:
                op = i.op
                R = f'r[{regs[i.res]}]' if i.res is not None else None
                if op == 'phi': continue
                if op in ir.BIN:
                    n = i.ty.bits if i.ty.k == 'int' else None
                    if n is None: raise IRError('vector op')
                    M = (1 << n) - 1
                    a, bb = i.a
                    A(f'a={V(a)}; b={V(bb)}')
                    cond = ' and '.join(f'{x}.__class__ is int' for x, v in (('a', a), ('b', bb)) if not isc(v)) or 'True'
                    fast = {'add': f'(a+b)&{M}', 'sub': f'(a-b)&{M}', 'mul': f'(a*b)&{M}', 'and': 'a&b', 'or': 'a|b', 'xor': 'a^b'}.get(op)
                    if op in ('udiv', 'sdiv', 'urem', 'srem'):
                        A(f'{R}=E.models.div(E,{op!r},a,b,{n})')
                    elif fast: A(f'{R}={fast} if {cond} else binop({op!r},a,b,{n})')
                    else: A(f'{R}=binop({op!r},a,b,{n})')
                elif op == 'icmp':
                    n = s.bits(i.ty); a, bb = i.a; pred = i.x
                    A(f'a={V(a)}; b={V(bb)}')
                    cond = ' and '.join(f'{x}.__class__ is int' for x, v in (('a', a), ('b', bb)) if not isc(v)) or 'True'
                    S = 1 << (n - 1)
                    o = {'eq': 'a==b', 'ne': 'a!=b', 'ult': 'a<b', 'ule': 'a<=b', 'ugt': 'a>b', 'uge': 'a>=b',
                         'slt': f'(a^{S})<(b^{S})', 'sle': f'(a^{S})<=(b^{S})', 'sgt': f'(a^{S})>(b^{S})', 'sge': f'(a^{S})>=(b^{S})'}[pred]
                    A(f'{R}=(1 if {o} else 0) if {cond} else icmp({pred!r},a,b,{n})')
                elif op == 'load':
                    if i.x:
                        nn = nextname(); close(f'E.sched_hint({sorted(i.x)!r}); return {nn}' if False else f'return E.volatile_point({nn})'); newseg()
                    t = i.ty
                    if t.k in ('struct', 'array'):
                        A(f'{R}=E.models.load_agg(E,{V(i.a[0])},{s.tyref(t)})')
                    else:
                        n = s.bits(t); nb = (n + 7) // 8
                        acc = f'E.load({V(i.a[0])},{nb})' if not i.x else f'E.load_v({V(i.a[0])},{nb},{sorted(i.x)!r})'
                        if n == nb * 8: A(f'{R}={acc}')
                        else: A(f'{R}=trunc({acc},{nb*8},{n})')
                elif op == 'store':
                    if i.x:
                        nn = nextname(); close(f'return E.volatile_point({nn})'); newseg()
                    t = i.ty
                    if t.k in ('struct', 'array'):
                        A(f'E.models.store_agg(E,{V(i.a[1])},{V(i.a[0])},{s.tyref(t)})')
                    else:
                        n = s.bits(t); nb = (n + 7) // 8
                        v = V(i.a[0])
                        if n != nb * 8: v = f'zext({v},{n},{nb*8})'
                        if i.x: A(f'E.store_v({V(i.a[1])},{nb},{v},{sorted(i.x)!r})')
                        else: A(f'E.store({V(i.a[1])},{nb},{v})')
                elif op == 'gep':
                    bt, idx = i.x
                    off = 0; terms = []; t = bt
                    for k, (v, it) in enumerate(idx):
                        if k > 0 and t.k == 'struct':
                            c = s.const(v); off += m.offs(t)[c]; t = t.fields[c]; continue
                        es = m.size(t) if k == 0 else m.size(t.elem)
                        if k > 0: t = t.elem
                        n = s.bits(it)
                        if isc(v): off += ops.sgn(s.const(v), n) * es
                        else: terms.append((V(v), n, es))
                    PM = (1 << s.PB) - 1
                    A(f'a={V(i.a[0])}')
                    if off: A(f'a=(a+{off})&{PM} if a.__class__ is int else binop("add",a,{off & PM},{s.PB})')
                    for v, n, es in terms:
                        A(f'b={v}')
                        if n < s.PB: A(f'b=sext(b,{n},{s.PB})')
                        elif n > s.PB: A(f'b=trunc(b,{n},{s.PB})')
                        A(f'a=(a+b*{es})&{PM} if a.__class__ is int and b.__class__ is int else binop("add",a,binop("mul",b,{es},{s.PB}),{s.PB})')
                    A(f'{R}=a')
                elif op == 'alloca':
                    t, al = i.x
                    A(f'{R}=E.alloca(binop("mul",zext({V(i.a[0])},{s.bits(i.a[0][2]) if isc(i.a[0]) else 32},64),{m.size(t)},64),{al or 1})')
                elif op == 'zext': A(f'{R}=zext({V(i.a[0])},{s.bits(i.x)},{s.bits(i.ty)})')
                elif op == 'sext': A(f'{R}=sext({V(i.a[0])},{s.bits(i.x)},{s.bits(i.ty)})')
                elif op == 'trunc': A(f'{R}=trunc({V(i.a[0])},{s.bits(i.x)},{s.bits(i.ty)})')
                elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                    A(f'{R}=ops.resize({V(i.a[0])},{s.bits(i.x)},{s.bits(i.ty)})')
                elif op == 'freeze': A(f'{R}={V(i.a[0])}')
                elif op == 'select':
                    A(f'c={V(i.a[0])}')
                    if i.ty.k == 'int' and i.ty.bits == 1:
                        A(f'{R}=({V(i.a[1])} if c else {V(i.a[2])}) if c.__class__ is int else ite(c,{V(i.a[1])},{V(i.a[2])},{s.bits(i.ty)})')
                    else:
                        A(f'{R}={V(i.a[1])} if E.branch(c) else {V(i.a[2])}')
                elif op == 'extractvalue':
                    A(f'a={V(i.a[0])}')
                    for k in i.x: A(f'a=a[{k}]')
                    A(f'{R}=a')
                elif op == 'insertvalue':
                    A(f'a=E.models.copy_agg({V(i.a[0])},{s.tyref(i.ty)}); t=a')
                    for k in i.x[:-1]: A(f't=t[{k}]')
                    A(f't[{i.x[-1]}]={V(i.a[1])}; {R}=a')
                elif op == 'fence': A('E.models.fence(E)')
                elif op == 'cmpxchg':
                    nn = nextname(); close(f'return E.volatile_point({nn})'); newseg()
                    n = s.bits(i.ty); A(f'{R}=E.models.cmpxchg(E,{V(i.a[0])},{V(i.a[1])},{V(i.a[2])},{n})')
                elif op == 'atomicrmw':
                    nn = nextname(); close(f'return E.volatile_point({nn})'); newseg()
                    n = s.bits(i.ty); A(f'{R}=E.models.atomicrmw(E,{i.x!r},{V(i.a[0])},{V(i.a[1])},{n})')
                elif op == 'call':
                    callee, args = i.x
                    slot = regs[i.res] if i.res is not None else None
                    if callee[0] == 'asm':
                        key = s.asmref(i)
                        av = '[' + ','.join(V(a[0]) for a in args) + ']'
                        nn = nextname()
                        close(f'return E.models.asm_call(E,{key},{av},{slot},{nn},())'); newseg()
                        continue
                    if callee[0] == 'g':
                        nm = callee[1]
                        if nm.startswith('@llvm.'):
                            line = s.intrinsic(i, nm, [V(a[0]) for a in args], R, args)
                            if line: A(line)
                            continue
                        g = s.funcs.get(nm)
                        if g is None and nm in m.aliases: g = s.funcs.get(m.aliases[nm][1])
                        av = '[' + ','.join(s.argval(V, a) for a in args) + ']'
                        nn = nextname()
                        if g is None or not g.defined:
                            # an external function for which the harness supplies the environment
                            g2 = s.funcs.get('@env_' + nm[1:])
                            if g2 is not None and g2.defined:
                                g = g2; nm = g2.name
                                wf = [s.bits(a[1]) if a[1].k in ('int', 'ptr') else 0 for a in args]
                                wt = [s.bits(t) for _, t, _ in g2.params]
                                av = f'ops.adapt({av},{wf!r},{wt!r})'
                        if g is not None and g.defined and nm not in s.models.override:
                            s.ns[f'FN{g.addr}'] = g
                            close(f'E.push(FN{g.addr},{av},{slot},{nn}); return FN{g.addr}.entry'); newseg()
                        else:
                            widths = [s.bits(a[1]) if a[1].k in ('int', 'ptr') else 0 for a in args]
                            rb = s.bits(i.ty) if i.ty.k in ('int', 'ptr') else 0
                            A(f'v=E.models.call(E,{nm!r},{av},{widths!r},{rb})')
                            A(f'if v.__class__ is Redirect: return E.redirect(v,{slot},{nn})')
                            if slot is not None: A(f'r[{slot}]=v')
                            close(f'return {nn}'); newseg()
                    else:
                        av = '[' + ','.join(s.argval(V, a) for a in args) + ']'
                        nn = nextname()
                        close(f'return E.icall({V(callee)},{av},{slot},{nn})'); newseg()
                elif op == 'callbr':
                    callee, args, d, ind = i.x
                    slot = regs[i.res] if i.res is not None else None
                    key = s.asmref(i)
                    av = '[' + ','.join(V(a[0]) for a in args) + ']'
                    # edge stubs perform phi moves
                    stubs = []
                    for k, l in enumerate([d] + ind):
                        sn = f'{bname[b.name]}_e{k}'
                        out.append(f'def {sn}(E, r):\n    {goto(b.name, l)}')
                        stubs.append(sn)
                    close(f'return E.models.asm_call(E,{key},{av},{slot},{stubs[0]},({",".join(stubs[1:])},))')
                    cur = None
                elif op == 'br':
                    close(goto(b.name, i.x[0])); cur = None
                elif op == 'condbr':
                    A(f'c={V(i.a[0])}')
                    A('if c.__class__ is not int: c=E.branch(c)')
                    A(f'if c: {goto(b.name, i.x[0])}')
                    close(goto(b.name, i.x[1])); cur = None
                elif op == 'switch':
                    n = i.ty.bits; d, cases = i.x
                    A(f'c={V(i.a[0])}')
                    A(f'if c.__class__ is not int: c=E.models.switch(E,c,{tuple(v & ((1<<n)-1) for v, _ in cases)!r},{n})')
                    for v, l in cases:
                        A(f'if c == {v & ((1<<n)-1)}: {goto(b.name, l)}')
                    close(goto(b.name, d)); cur = None
                elif op == 'ret':
                    close(f'return E.ret({V(i.a[0]) if i.a else None})'); cur = None
                elif op == 'unreachable':
                    close('return E.unreachable()'); cur = None
                else: raise IRError('codegen ' + op)
            if cur is not None: raise IRError('unterminated block ' + b.name)
        src = '\n'.join(out)
        code = compile(src, f'<{pf.name}>', 'exec')
        exec(code, s.ns)
        pf.entry = s.ns[bname[f.blocks[0].name]]

    def argval(s, V, a):
        v, t, at = a
        if 'byval' in at: return f'E.byval({V(v)},{s.m.size(at["byval"])})'
        return V(v)

    def zero_agg(s, t):
        if t.k == 'struct': return [s.zero_agg(f) for f in t.fields]
        if t.k == 'array': return [s.zero_agg(t.elem) for _ in range(t.n)]
        return 0

    def tyref(s, t):
        k = f'TY{id(t)}'; s.ns[k] = t; return k
    def asmref(s, i):
        k = f'ASM{id(i)}'; s.ns[k] = i; return k

    def intrinsic(s, i, nm, av, R, args):
        b = nm[6:]
        if b.startswith(('lifetime.', 'dbg.', 'assume', 'experimental.noalias', 'donothing', 'invariant.')): return None
        if b.startswith('memcpy.') or b.startswith('memmove.') : return f'E.models.memcpy(E,{av[0]},{av[1]},{av[2]},{b.startswith("memmove")})'
        if b.startswith('memset.'): return f'E.models.memset(E,{av[0]},{av[1]},{av[2]})'
        if b.startswith('threadlocal.address'):
            return f'{R}=E.cur.tls[{args[0][0][1]!r}]'
        if b.startswith('thread.pointer'): return f'{R}=E.cur.tp'
        if b.startswith('returnaddress'): return f'{R}=4198400'
        if b.startswith('frameaddress'): return f'{R}=0'
        if b.startswith('expect'): return f'{R}={av[0]}'
        if b.startswith('objectsize'): return f'{R}={(1 << i.ty.bits) - 1}'
        if b.startswith('is.constant'): return f'{R}=0'
        if b.startswith(('ctpop.', 'ctlz.', 'cttz.', 'bswap.')):
            n = i.ty.bits; return f'{R}=E.models.bits({b.split(".")[0]!r},{av[0]},{n})'
        for pre, p in (('umax', 'ugt'), ('umin', 'ult'), ('smax', 'sgt'), ('smin', 'slt')):
            if b.startswith(pre + '.'):
                n = i.ty.bits; return f'{R}=ite(icmp({p!r},{av[0]},{av[1]},{n}),{av[0]},{av[1]},{n})'
        for k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
            if b.startswith(k + '.with.overflow'):
                n = args[0][1].bits; return f'{R}=E.models.ovf({k!r},{av[0]},{av[1]},{n})'
        if b.startswith('abs.'):
            n = i.ty.bits; return f'{R}=ite(icmp("slt",{av[0]},0,{n}),binop("sub",0,{av[0]},{n}),{av[0]},{n})'
        if b.startswith('trap'): return 'E.models.call(E,"@abort",[])'
        if b.startswith('stacksave'): return f'{R}=0'
        if b.startswith('stackrestore'): return None
        raise IRError('intrinsic ' + nm)
