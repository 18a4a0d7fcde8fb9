"""Parser for the textual LLVM IR (clang 18) subset produced from C sources."""
import re

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'bits', 'elem', 'n', 'fields', 'packed', 'name', '_sz', '_al', '_offs', '_dl')
    def __init__(s, k, **kw):
        s.k = k; s.bits = kw.get('bits'); s.elem = kw.get('elem'); s.n = kw.get('n')
        s.fields = kw.get('fields'); s.packed = kw.get('packed', False); s.name = kw.get('name')
        s._sz = s._al = s._offs = s._dl = None
    def __repr__(s):
        return {'int': f'i{s.bits}', 'ptr': 'ptr', 'void': 'void'}.get(s.k, s.k + (':' + s.name if s.name else ''))

VOID = Ty('void'); PTR = Ty('ptr'); LABEL = Ty('label'); META = Ty('metadata')
_ints = {}
def INT(n):
    t = _ints.get(n)
    if t is None: t = _ints[n] = Ty('int', bits=n)
    return t

TOK = re.compile(r'''
  (?P<ws>[\s]+)
 |(?P<cstr>c"(?:[^"\\]|\\[0-9a-fA-F]{2}|\\\\)*")
 |(?P<label>"(?:[^"])*":)
 |(?P<id>[%@]"(?:[^"])*"|[%@][-a-zA-Z$._0-9]+)
 |(?P<str>"(?:[^"\\]|\\.)*")
 |(?P<meta>!"[^"]*"|![-a-zA-Z$._0-9]*)
 |(?P<attr>\#\d+)
 |(?P<comdat>\$[-a-zA-Z$._0-9"]+)
 |(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9a-fA-F]+)
 |(?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*:|])
''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i] == ';': break
            raise IRError(f'tokenize: {s[i:i+40]!r} in {s[:160]!r}')
        i = m.end()
        k = m.lastgroup
        if k == 'ws': continue
        out.append((k, m.group()))
    return out

def unq(x):
    if len(x) > 1 and x[1] == '"': return x[0] + x[2:-1]
    return x

def cbytes(tok):
    s = tok[2:-1]; out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(0x5c); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

def unescape_str(tok):
    s = tok[1:-1]; out = []; i = 0
    while i < len(s):
        if s[i] == '\\' and i + 2 < len(s) + 1 and re.match(r'[0-9a-fA-F]{2}', s[i+1:i+3]):
            out.append(chr(int(s[i+1:i+3], 16))); i += 3
        elif s[i] == '\\' and s[i+1:i+2] == '\\': out.append('\\'); i += 2
        else: out.append(s[i]); i += 1
    return ''.join(out)

PARAM_ATTRS = {'noundef','zeroext','signext','inreg','nocapture','readonly','readnone','writeonly','returned',
  'nonnull','noalias','nofree','immarg','nest','noext','swiftself','writable','dead_on_unwind','inalloca',
  'allocalign','allocptr','dso_local','local_unnamed_addr','unnamed_addr','range'}
PARAM_ATTRS_ARG = {'byval','sret','elementtype','dereferenceable','dereferenceable_or_null','preallocated','byref','nofpclass','captures','initializes'}
CC = {'fastcc','coldcc','ccc','tailcc','arm_aapcscc','arm_aapcs_vfpcc'}
LINK = {'private','internal','available_externally','linkonce','weak','common','appending','extern_weak','linkonce_odr','weak_odr','external'}

class Instr:
    __slots__ = ('op','res','ty','a','x','text')
    def __init__(s, op, res, ty, a, x=None, text=''):
        s.op = op; s.res = res; s.ty = ty; s.a = a; s.x = x; s.text = text

class Block:
    __slots__ = ('name','instrs')
    def __init__(s, name): s.name = name; s.instrs = []

class Func:
    def __init__(s, name, ret, params, vararg):
        s.name = name; s.ret = ret; s.params = params; s.vararg = vararg; s.blocks = []; s.defined = False; s.file = None

class Global:
    def __init__(s, name, ty, init, const, tls, align, external, section=None):
        s.name = name; s.ty = ty; s.init = init; s.const = const; s.tls = tls; s.align = align
        s.external = external; s.section = section

class P:
    """token cursor"""
    def __init__(s, mod, toks, text=''):
        s.m = mod; s.t = toks; s.i = 0; s.text = text
    def peek(s, k=0): return s.t[s.i+k][1] if s.i+k < len(s.t) else None
    def kind(s, k=0): return s.t[s.i+k][0] if s.i+k < len(s.t) else None
    def next(s):
        v = s.t[s.i][1]; s.i += 1; return v
    def eat(s, v):
        if s.peek() == v: s.i += 1; return True
        return False
    def expect(s, v):
        if s.peek() != v: raise IRError(f'expected {v!r} got {s.peek()!r} in {s.text!r}')
        s.i += 1
    def skip_balanced(s):
        op = s.next(); cl = {'(':')','[':']','{':'}','<':'>'}[op]; d = 1
        while d:
            v = s.next()
            if v == op: d += 1
            elif v == cl: d -= 1
    # types
    def type(s):
        v = s.next()
        if v == 'void': t = VOID
        elif v == 'ptr':
            t = PTR
            if s.peek() == 'addrspace': s.next(); s.skip_balanced()
        elif v == 'label': t = LABEL
        elif v == 'metadata': t = META
        elif v == 'float': t = Ty('float', bits=32)
        elif v == 'double': t = Ty('float', bits=64)
        elif re.fullmatch(r'i\d+', v): t = INT(int(v[1:]))
        elif v == '[':
            n = int(s.next()); s.expect('x'); e = s.type(); s.expect(']'); t = Ty('array', elem=e, n=n)
        elif v == '<':
            if s.peek() == '{':
                s.next(); t = s.struct_body(True); s.expect('>')
            else:
                n = int(s.next()); s.expect('x'); e = s.type(); s.expect('>'); t = Ty('vector', elem=e, n=n)
        elif v == '{': t = s.struct_body(False)
        elif v[0] == '%':
            nm = unq(v)
            t = s.m.named.get(nm)
            if t is None: t = s.m.named[nm] = Ty('struct', name=nm)
        else: raise IRError(f'type? {v!r} in {s.text!r}')
        # function type  T (args...)
        if s.peek() == '(' and s.is_fnty():
            s.next(); args = []; va = False
            while not s.eat(')'):
                if s.eat('...'): va = True
                else: args.append(s.type())
                s.eat(',')
            t = Ty('fn', elem=t, fields=args, packed=va)
        while s.eat('*'): t = PTR
        return t
    def is_fnty(s):
        # lookahead: after '(' a type keyword, '...' or ')'
        k = s.peek(1)
        if k is None: return False
        if k in (')', '...'): return True
        return k in ('void','ptr','metadata','float','double','[','{','<') or re.fullmatch(r'i\d+', k) is not None and s.peek(2) in (',', ')')
    def struct_body(s, packed):
        f = []
        while not s.eat('}'):
            f.append(s.type()); s.eat(',')
        return Ty('struct', fields=f, packed=packed)
    def attrs(s):
        """skip param attributes; returns dict of interesting ones"""
        r = {}
        while True:
            v = s.peek()
            if v in PARAM_ATTRS: s.next()
            elif v == 'align':
                s.next()
                if s.peek() == '(':
                    s.next(); r['align'] = int(s.next()); s.expect(')')
                else: r['align'] = int(s.next())
            elif v in PARAM_ATTRS_ARG:
                s.next()
                if s.peek() == '(':
                    if v in ('byval','sret','elementtype'):
                        s.next(); r[v] = s.type(); s.expect(')')
                    else: s.skip_balanced()
            elif s.kind() == 'attr': s.next()
            elif s.kind() == 'str' and s.peek(1) != '(':
                s.next()
                if s.eat('='): s.next()
            else: return r
    # constants / operands
    def value(s, ty):
        k, v = s.t[s.i]
        if k == 'num':
            s.i += 1
            if ty.k == 'float': return ('undef', ty)
            return ('c', int(v, 0), ty)
        if v[0] == '%': s.i += 1; return ('r', unq(v), ty)
        if v[0] == '@': s.i += 1; return ('g', unq(v), ty)
        if v == 'true': s.i += 1; return ('c', 1, ty)
        if v == 'false': s.i += 1; return ('c', 0, ty)
        if v == 'null': s.i += 1; return ('c', 0, ty)
        if v in ('undef', 'poison'): s.i += 1; return ('undef', ty)
        if v == 'zeroinitializer': s.i += 1; return ('zero', ty)
        if v == 'none': s.i += 1; return ('undef', ty)
        if k == 'cstr': s.i += 1; return ('bytes', cbytes(v), ty)
        if v == '[' or v == '{' or (v == '<'):
            op = s.next(); packed = False
            if op == '<' and s.peek() == '{': s.next(); packed = True; op = '{'
            cl = {'[':']','{':'}','<':'>'}[op]
            el = []
            while not s.eat(cl):
                t = s.type(); s.attrs(); el.append(s.value(t)); s.eat(',')
            if packed: s.expect('>')
            return ('agg', el, ty)
        if v == 'getelementptr':
            s.next()
            while s.peek() in ('inbounds','nuw','nusw') : s.next()
            if s.peek() == 'inrange': s.next(); s.skip_balanced()
            s.expect('('); bt = s.type(); s.expect(',')
            pt = s.type(); base = s.value(pt); idx = []
            while s.eat(','):
                s.eat('inrange')
                it = s.type(); idx.append(s.value(it))
            s.expect(')')
            return ('cgep', bt, base, idx, ty)
        if v in ('ptrtoint','inttoptr','bitcast','trunc','zext','sext','addrspacecast'):
            s.next(); s.expect('('); t = s.type(); x = s.value(t); s.expect('to'); t2 = s.type(); s.expect(')')
            return ('ccast', v, x, t2)
        if v in ('add','sub','mul','xor','and','or','shl','lshr','ashr'):
            s.next()
            while s.peek() in ('nuw','nsw','exact'): s.next()
            s.expect('('); t = s.type(); a = s.value(t); s.expect(','); t2 = s.type(); b = s.value(t2); s.expect(')')
            return ('cbin', v, a, b, t)
        if v == 'blockaddress':
            s.next(); s.expect('('); f = unq(s.next()); s.expect(','); b = unq(s.next()); s.expect(')')
            return ('baddr', f, b, ty)
        if v == 'dso_local_equivalent' or v == 'no_cfi':
            s.next(); return s.value(ty)
        if v == 'asm': 
            return s.asmval()
        raise IRError(f'value? {v!r} in {s.text!r}')
    def asmval(s):
        s.expect('asm'); fl = []
        while s.peek() in ('sideeffect','alignstack','inteldialect','unwind'): fl.append(s.next())
        tmpl = unescape_str(s.next()); s.expect(','); cons = unescape_str(s.next())
        return ('asm', tmpl, cons, fl)

class Module:
    def __init__(s):
        s.named = {}; s.globals = {}; s.funcs = {}; s.dl = ''; s.triple = ''; s.aliases = {}
        s.little = True; s.psize = 8; s.ialign = {}
        s.ctors = []
    # ------------- layout
    def parse_dl(s, dl):
        s.dl = dl
        s.ialign = {1: 1, 8: 1, 16: 2, 32: 4, 64: 4, 128: 8}
        s.psize = 8; palign = 8
        for part in dl.split('-'):
            if part == 'e': s.little = True
            elif part == 'E': s.little = False
            elif part.startswith('p:') or re.match(r'p0?:', part):
                f = part.split(':'); s.psize = int(f[1]) // 8; palign = int(f[2]) // 8
            elif re.match(r'i\d+:', part):
                f = part.split(':'); s.ialign[int(f[0][1:])] = int(f[1]) // 8
        s.palign = palign
        if 64 in s.ialign and 'i64:' not in dl and s.psize == 8: s.ialign[64] = 8
    def size(s, t):
        # int and pointer types are shared between modules for different machines
        if t._sz is None or t._dl is not s: s.layout(t); t._dl = s
        return t._sz
    def align(s, t):
        if t._sz is None or t._dl is not s: s.layout(t); t._dl = s
        return t._al
    def layout(s, t):
        k = t.k
        if k == 'int':
            b = t.bits
            nb = (b + 7) // 8
            a = s.ialign.get(b)
            if a is None:
                c = [x for x in s.ialign if x >= b]
                a = s.ialign[min(c)] if c else s.ialign[max(s.ialign)]
            t._al = a; t._sz = (nb + a - 1) // a * a
        elif k == 'ptr': t._sz = s.psize; t._al = s.palign
        elif k == 'float': t._sz = t.bits // 8; t._al = t._sz
        elif k == 'array': t._al = s.align(t.elem); t._sz = t.n * s.size(t.elem)
        elif k == 'vector': t._sz = t.n * s.size(t.elem); t._al = t._sz
        elif k == 'struct':
            if t.fields is None: raise IRError(f'opaque struct {t.name}')
            off = 0; al = 1; offs = []
            for f in t.fields:
                a = 1 if t.packed else s.align(f)
                off = (off + a - 1) // a * a; offs.append(off); off += s.size(f); al = max(al, a)
            t._offs = offs; t._al = al; t._sz = (off + al - 1) // al * al
        elif k == 'fn': t._sz = t._al = 1
        else: raise IRError(f'layout {k}')
    def offs(s, t):
        if t._offs is None or t._dl is not s: s.layout(t); t._dl = s
        return t._offs

def logical_lines(text):
    """join multi-line constructs (switch tables, callbr/invoke)"""
    buf = None
    for ln in text.split('\n'):
        st = ln.rstrip()
        if buf is not None:
            buf += ' ' + st.strip()
            if not buf.lstrip().startswith('switch') and ' to label ' in buf:
                if ']' in buf[buf.rindex(' to label '):]: yield buf; buf = None
                continue
            if st.strip() == ']' or (st.strip().endswith(']') and not buf.lstrip().startswith('switch')) \
               or (buf.lstrip().startswith('switch') and st.strip().startswith(']')):
                yield buf; buf = None
            continue
        b = st.lstrip()
        if b.startswith('switch ') and not b.endswith(']') and '[' in b:
            buf = st; continue
        if 'callbr ' in b and ' to label ' not in b:
            buf = st; continue
        yield st

def parse_module(text, fname=''):
    m = Module()
    cur = None; blk = None
    md = re.search(r'target datalayout = "([^"]*)"', text)
    m.parse_dl(md.group(1) if md else 'e-i64:64')
    mt = re.search(r'target triple = "([^"]*)"', text)
    m.triple = mt.group(1) if mt else ''
    lines = logical_lines(text)
    # callbr may span two lines: "... to label %x [label ...]" on the next line
    for ln in lines:
        if not ln or ln[0] == ';': continue
        if cur is None:
            if ln.startswith('%') and ' = type ' in ln:
                nm, body = ln.split(' = type ', 1)
                nm = unq(nm.strip())
                if body.strip() == 'opaque': m.named.setdefault(nm, Ty('struct', name=nm)); continue
                p = P(m, tokenize(body), ln); t = p.type()
                d = m.named.setdefault(nm, Ty('struct', name=nm)); d.k = t.k; d.fields = t.fields; d.packed = t.packed; d.elem = t.elem; d.n = t.n
            elif ln[0] == '@': parse_global(m, ln)
            elif ln.startswith('declare ') or ln.startswith('define '):
                f = parse_fn_header(m, ln)
                if ln.startswith('define '):
                    cur = f; f.defined = True; f.file = fname; blk = None
            continue
        if ln == '}': cur = None; continue
        s = ln.strip()
        if not s or s[0] == ';': continue
        if ln[0] not in ' \t':
            mm = re.match(r'("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', ln)
            if not mm: raise IRError('label? ' + ln)
            nm = mm.group(1)
            if nm[0] == '"': nm = nm[1:-1]
            blk = Block('%' + nm); cur.blocks.append(blk); continue
        if blk is None:
            # unnamed entry block
            blk = Block('%' + str(len([p for p in cur.params]))); cur.blocks.append(blk)
        blk.instrs.append(parse_instr(m, s))
    return m

def parse_global(m, ln):
    p = P(m, tokenize(ln), ln)
    nm = unq(p.next()); p.expect('=')
    const = False; tls = False; ext = False
    while True:
        v = p.peek()
        if v in LINK:
            if v in ('external','extern_weak'): ext = True
            p.next()
        elif v in ('dso_local','dso_preemptable','unnamed_addr','local_unnamed_addr','hidden','protected','default','externally_initialized'): p.next()
        elif v == 'thread_local':
            tls = True; p.next()
            if p.peek() == '(': p.skip_balanced()
        elif v == 'addrspace': p.next(); p.skip_balanced()
        else: break
    v = p.next()
    if v == 'alias':
        t = p.type(); p.expect(','); t2 = p.type(); m.aliases[nm] = p.value(t2); return
    if v == 'constant': const = True
    elif v != 'global': raise IRError('global? ' + ln)
    t = p.type(); init = None
    if not ext: init = p.value(t)
    al = 0; sec = None
    while p.eat(','):
        w = p.next()
        if w == 'align': al = int(p.next())
        elif w == 'section': sec = unescape_str(p.next())
        elif w == 'comdat':
            if p.peek() == '(': p.skip_balanced()
        else:
            if w and w[0] == '!': 
                while p.peek() is not None and p.peek() != ',': p.next()
    m.globals[nm] = Global(nm, t, init, const, tls, al, ext, sec)

def parse_fn_header(m, ln):
    p = P(m, tokenize(ln), ln); p.next()
    while True:
        v = p.peek()
        if v in LINK or v in ('dso_local','dso_preemptable','hidden','protected','default','unnamed_addr','local_unnamed_addr') or v in CC: p.next()
        elif v == 'cc': p.next(); p.next()
        elif v in PARAM_ATTRS or v in PARAM_ATTRS_ARG or v == 'align': p.attrs()
        else: break
    rt = p.type(); p.attrs()
    nm = unq(p.next()); p.expect('(')
    params = []; va = False; k = 0
    while not p.eat(')'):
        if p.eat('...'): va = True
        else:
            t = p.type(); at = p.attrs()
            if p.kind() == 'id': pn = unq(p.next())
            else: pn = f'%{k}'
            params.append((pn, t, at)); k += 1
        p.eat(',')
    f = m.funcs.get(nm)
    if f is None or not f.defined:
        f = m.funcs[nm] = Func(nm, rt, params, va)
    return f

FASTF = {'nuw','nsw','exact','inbounds','disjoint','nneg','nusw','samesign','fast','nnan','ninf','nsz'}
BIN = {'add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr'}
CAST = {'zext','sext','trunc','ptrtoint','inttoptr','bitcast','addrspacecast','freeze'}

def parse_call(p, s, op):
    while p.peek() in CC or p.peek() in FASTF: p.next()
    if p.peek() == 'cc': p.next(); p.next()
    p.attrs()
    rt = p.type(); p.attrs()
    fnty = None
    if rt.k == 'fn': fnty = rt; rt = rt.elem
    if p.peek() == 'asm': callee = p.asmval()
    else:
        callee = p.value(PTR)
    p.expect('('); args = []
    while not p.eat(')'):
        t = p.type(); at = p.attrs()
        if t.k == 'metadata':
            # skip metadata operand
            d = 0
            while not (d == 0 and p.peek() in (',', ')')):
                v = p.next()
                if v in '([{': d += 1
                elif v in ')]}': d -= 1
            args.append((('undef', t), t, at))
        else: args.append((p.value(t), t, at))
        p.eat(',')
    return rt, callee, args

def parse_instr(m, s):
    p = P(m, tokenize(s), s)
    res = None
    if p.kind() == 'id' and p.peek(1) == '=':
        res = unq(p.next()); p.next()
    op = p.next()
    while op in ('tail','musttail','notail'): op = p.next()
    if op in BIN:
        while p.peek() in FASTF: p.next()
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Instr(op, res, t, [a, b], text=s)
    if op == 'freeze':
        t = p.type(); return Instr('freeze', res, t, [p.value(t)], text=s)
    if op in CAST:
        while p.peek() in FASTF: p.next()
        t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
        return Instr(op, res, t2, [a], t, text=s)
    if op == 'icmp':
        while p.peek() in FASTF: p.next()
        pred = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Instr('icmp', res, t, [a, b], pred, text=s)
    if op == 'load':
        fl = set()
        while p.peek() in ('volatile','atomic'): fl.add(p.next())
        t = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
        while p.peek() in ('monotonic','acquire','seq_cst','unordered') or p.peek() == 'syncscope':
            if p.peek() == 'syncscope': p.next(); p.skip_balanced()
            else: fl.add(p.next())
        return Instr('load', res, t, [a], fl, text=s)
    if op == 'store':
        fl = set()
        while p.peek() in ('volatile','atomic'): fl.add(p.next())
        t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
        while p.peek() in ('monotonic','release','seq_cst','unordered') or p.peek() == 'syncscope':
            if p.peek() == 'syncscope': p.next(); p.skip_balanced()
            else: fl.add(p.next())
        return Instr('store', None, t, [v, a], fl, text=s)
    if op == 'getelementptr':
        while p.peek() in FASTF: p.next()
        bt = p.type(); p.expect(','); pt = p.type(); base = p.value(pt); idx = []
        while p.eat(','):
            if p.peek() and p.peek()[0] == '!': break
            it = p.type(); idx.append((p.value(it), it))
        return Instr('gep', res, PTR, [base], (bt, idx), text=s)
    if op == 'alloca':
        while p.peek() in ('inalloca','swifterror'): p.next()
        t = p.type(); cnt = ('c', 1, INT(32)); al = 0
        while p.eat(','):
            if p.peek() == 'align': p.next(); al = int(p.next())
            elif p.peek()[0] == '!': break
            elif p.peek() == 'addrspace': p.next(); p.skip_balanced()
            else: ct = p.type(); cnt = p.value(ct)
        return Instr('alloca', res, PTR, [cnt], (t, al), text=s)
    if op == 'br':
        if p.peek() == 'label':
            p.next(); return Instr('br', None, None, [], [unq(p.next())], text=s)
        t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); l1 = unq(p.next()); p.expect(','); p.expect('label'); l2 = unq(p.next())
        return Instr('condbr', None, None, [c], [l1, l2], text=s)
    if op == 'switch':
        t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); d = unq(p.next()); p.expect('[')
        cases = []
        while not p.eat(']'):
            ct = p.type(); v = p.value(ct); p.expect(','); p.expect('label'); cases.append((v[1], unq(p.next())))
        return Instr('switch', None, t, [c], (d, cases), text=s)
    if op == 'indirectbr':
        raise IRError('indirectbr unsupported')
    if op == 'ret':
        t = p.type()
        if t.k == 'void': return Instr('ret', None, VOID, [], text=s)
        return Instr('ret', None, t, [p.value(t)], text=s)
    if op == 'unreachable': return Instr('unreachable', None, None, [], text=s)
    if op == 'phi':
        while p.peek() in FASTF: p.next()
        t = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); b = unq(p.next()); p.expect(']'); inc.append((v, b))
            if not p.eat(','): break
            if p.peek() != '[': break
        return Instr('phi', res, t, [], inc, text=s)
    if op == 'select':
        while p.peek() in FASTF: p.next()
        ct = p.type(); c = p.value(ct); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2)
        return Instr('select', res, t, [c, a, b], text=s)
    if op == 'call':
        rt, callee, args = parse_call(p, s, op)
        return Instr('call', res, rt, [a[0] for a in args], (callee, args), text=s)
    if op == 'callbr':
        rt, callee, args = parse_call(p, s, op)
        p.attrs()
        p.expect('to'); p.expect('label'); d = unq(p.next()); p.expect('['); ind = []
        while not p.eat(']'):
            p.expect('label'); ind.append(unq(p.next())); p.eat(',')
        return Instr('callbr', res, rt, [a[0] for a in args], (callee, args, d, ind), text=s)
    if op == 'extractvalue':
        t = p.type(); a = p.value(t); idx = []
        while p.eat(','):
            if p.peek()[0] == '!': break
            idx.append(int(p.next()))
        return Instr('extractvalue', res, t, [a], idx, text=s)
    if op == 'insertvalue':
        t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2); idx = []
        while p.eat(','):
            if p.peek()[0] == '!': break
            idx.append(int(p.next()))
        return Instr('insertvalue', res, t, [a, b], idx, text=s)
    if op == 'fence': 
        return Instr('fence', None, None, [], text=s)
    if op == 'cmpxchg':
        while p.peek() in ('weak','volatile'): p.next()
        pt = p.type(); a = p.value(pt); p.expect(','); t = p.type(); c = p.value(t); p.expect(','); t = p.type(); n = p.value(t)
        return Instr('cmpxchg', res, t, [a, c, n], text=s)
    if op == 'atomicrmw':
        p.eat('volatile'); k = p.next(); pt = p.type(); a = p.value(pt); p.expect(','); t = p.type(); v = p.value(t)
        return Instr('atomicrmw', res, t, [a, v], k, text=s)
    raise IRError(f'instruction {op!r}: {s}')
