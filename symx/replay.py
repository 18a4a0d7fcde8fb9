"""One harness instance: symbolic exploration, witness validation and counterexample replay."""
import time, os, re, json, subprocess, shutil
from . import build, ir, codegen, models, explore
HERE = build.HERE

class Job:
    def __init__(s, pid, I, work, tier):
        s.pid = pid; s.I = I; s.work = work; s.tier = tier; s.exe = {}
        s.src = os.path.join(build.HARN, I['src'])
        s.units = I.get('units', ['mempool', 'rseq', 'smp'])
        s.opts = dict(tier=1 if tier == 'thorough' else 0, params=I.get('params', {}))
        for k in ('ignore_aborts', 'seg_limit', 'samples'):
            if k in I: s.opts[k] = I[k]

    def defs(s): return ['-DVP_%s' % s.pid] + list(s.I.get('defs', []))

    def explore(s, budget):
        ll = build.lower([*build.lib_sources(s.units), s.src], os.path.join(s.work, 'ir'), flags=s.defs() + s.I.get('flags', []),
                         target=s.I.get('target'), sysinc=s.I.get('sysinc'))
        s.m = m = ir.parse_module(open(ll).read())
        asm = None
        if s.I.get('asm', True):
            from .asm import make
            asm = make(s.I.get('arch', 'x86_64'), s.I.get('asm_opts', {}))
        M = s.M = models.Models(asm)
        s.prog = codegen.Program(m, M)
        s.names = s.cover_scan()
        return explore.explore(s.prog, M, '@h_main', (), s.opts, budget=budget)

    def cover_scan(s):
        """names given to sx_cover() in code reachable from h_main"""
        out = set(); seen = set(); m = s.m; st = ['@h_main'] + [n for _, n in s.prog.ctors + s.prog.dtors]
        strs = {}
        while st:
            fn = st.pop()
            if fn in seen: continue
            seen.add(fn); f = m.funcs.get(fn)
            if f is None or not f.defined: continue
            for b in f.blocks:
                for i in b.instrs:
                    for g in refs(i):
                        if g in m.funcs: st.append(g)
                        if '@env_' + g[1:] in m.funcs: st.append('@env_' + g[1:])
                    if i.op == 'call' and i.x[0][0] == 'g' and i.x[0][1] == '@sx_cover':
                        a = i.x[1][0][0]
                        if a[0] == 'g': 
                            g = m.globals[a[1]]
                            if g.init[0] == 'bytes': out.add(g.init[1].rstrip(b'\0').decode())
        return out
    def cover_names(s):
        # "T:name": thorough tier only; "?param:name": only where that parameter is set
        pr = s.opts['params']
        return [n for n in s.names if not (n.startswith('T:') and s.tier != 'thorough') and not (n.startswith('?') and not pr.get(n[1:].split(':')[0]))]

    # ------------------------------------------------ native side
    def native(s, mode):
        if mode in s.exe: return s.exe[mode]
        w = os.path.join(s.work, 'nat-' + mode); os.makedirs(w, exist_ok=True)
        san = {'plain': [], 'asan': ['-fsanitize=address', '-fno-sanitize-recover=all'], 'tsan': ['-fsanitize=thread', '-DSX_TSAN']}[mode]
        cc = ['gcc', '-g', '-O1', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-fno-omit-frame-pointer', *build.BASE[:4], '-w', *san, *s.defs(), *s.I.get('flags', []),
              '-I' + build.REPO + '/include', '-I' + build.REPO + '/src', '-I' + build.HARN]
        try:
            objs = []
            for k, f in enumerate([s.src, os.path.join(HERE, 'native/rt.c')]):
                o = os.path.join(w, 'h%d.o' % k); build.run([*cc, '-c', f, '-o', o]); objs.append(o)
            env = set()
            for o in objs:
                for l in build.run(['nm', '--defined-only', o]).splitlines():
                    p = l.split()
                    if len(p) == 3 and p[1] in 'TtWw' and p[2].startswith('env_'): env.add(p[2][4:])
            dup = [l.split()[2] for l in build.run(['nm', '--defined-only', objs[0]]).splitlines() if ' T env_' in l]
            if dup:
                # the harness's own environment functions win over the runtime's
                build.run(['objcopy', *['--weaken-symbol=' + d for d in dup], objs[1]])
            for k, f in enumerate(build.lib_sources(s.units)):
                o = os.path.join(w, 'l%d.o' % k); build.run([*cc, '-c', f, '-o', o])
                build.run(['objcopy', *['--redefine-sym=%s=env_%s' % (e, e) for e in sorted(env)],
                           '--rename-section', '.init_array=sx_init_array', '--rename-section', '.fini_array=sx_fini_array', o])
                objs.append(o)
            exe = os.path.join(w, 'h')
            build.run(['gcc', '-no-pie', *san, *objs, '-o', exe, '-lpthread', '-ldl', *s.I.get('libs', [])])
        except build.BuildError as e:
            s.exe[mode] = None; s.builderr = str(e); return None
        s.exe[mode] = exe
        return exe

    def write_inputs(s, ins, path):
        with open(path, 'w') as f:
            f.write('tier %d\n' % s.opts['tier'])
            if s.opts.get('ignore_aborts'): f.write('ignore_aborts 1\n')
            for k, v in s.opts['params'].items(): f.write('param %s %d\n' % (k, v))
            for kind, name, val, n in ins: f.write('%s %s %d %d\n' % (kind, name.replace(' ', '_') or '-', val, n))

    def run_native(s, mode, inp, fire=()):
        exe = s.native(mode)
        if exe is None: return None, 'native build failed: ' + s.builderr[:300]
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:abort_on_error=0:exitcode=10:allocator_may_return_null=1:detect_stack_use_after_return=0',
                   TSAN_OPTIONS='exitcode=10:halt_on_error=1:report_signal_unsafe=0')
        try: p = subprocess.run([exe, inp, *map(str, fire)], capture_output=True, text=True, env=env, timeout=60, errors='replace')
        except subprocess.TimeoutExpired: return 10, 'SX-VIOLATION no progress (native run timed out)'
        out = p.stdout.strip().splitlines()
        d = out[-1] if out else ''
        if p.returncode == 10 and not d.startswith('SX-'):
            d = next((l for l in p.stderr.splitlines() if 'ERROR' in l or 'WARNING' in l), 'sanitizer report')
        return p.returncode, d or ('exit %d' % p.returncode)

    UNSUP = ('cow', 'havoc')
    def replayable(s, ins): return not s.I.get('no_native') and not any(k.startswith(s.UNSUP) for k, *_ in ins)

    def validate(s, samples, limit):
        ok = 0; bad = []
        if not limit: return 0, []
        for k, ins in enumerate(samples[:limit]):
            if not s.replayable(ins) or events(ins): continue
            p = os.path.join(s.work, 'sample%d' % k); s.write_inputs(ins, p)
            rc, d = s.run_native('plain', p)
            if rc == 0: ok += 1
            elif rc == 12: pass
            else:
                keep = p
                if rc == 10: keep = s.save(ins, dict(msg=d, kind='native', trace=[]), 'native')
                bad.append((rc, d, keep))
        return ok, bad

    def stepped(s, inp, kinds):
        """single-step the native helper and interrupt it at every combination of n steps"""
        n = len(kinds); total = None; best = (0, 'no position of the interruption reproduces it natively')
        import itertools
        end = time.time() + 90
        for span in (80, 300):
            for pos in itertools.combinations(range(1, span if n == 1 else 250), n):
                if time.time() > end: return best
                if total is not None and pos[-1] > total: continue
                rc, d = s.run_native('plain', inp, ['%d%s' % x for x in zip(pos, kinds)])
                if rc == 10: return 10, d + ' (interrupted at native step %s)' % ','.join(map(str, pos))
                if rc == 13: total = min(total or 10**9, int(d.split()[1])); 
                elif rc is None: return rc, d
            if total is not None or n > 1: break
        return best

    def save(s, ins, v, verdict):
        d = os.path.join(HERE, 'evidence', 'replay', s.pid); os.makedirs(d, exist_ok=True)
        b = os.path.splitext(s.I['src'])[0]
        path = os.path.join(d, b + '.json')
        json.dump(dict(property=s.pid, harness=s.I['src'], defs=s.defs(), params=s.opts['params'], message=v['msg'], kind=v['kind'],
                       inputs=ins, trace=v.get('trace', []), stack=v.get('stack', []), replay=verdict), open(path, 'w'), indent=1)
        s.write_inputs(ins, os.path.join(d, b + '.inputs'))
        return path

    def replay(s, v):
        ins = v['inputs']
        custom = s.I.get('replay')
        if custom: verdict, detail = custom(s, v)
        elif v['kind'] in ('asm', 'layout'): verdict, detail = 'unsupported', 'a fact about the code itself, not about one run of it'
        elif s.I.get('no_native'):
            # no emulator: the same instructions once more, on the concrete values of the counterexample
            r = explore.explore(s.prog, s.M, '@h_main', (), dict(s.opts, preset=ins), budget=60)
            verdict = {'violation': 'confirmed', 'ok': 'refuted'}.get(r['status'], 'unsupported')
            detail = 'concrete re-execution in the instruction model: ' + (r['violation']['msg'] if verdict == 'confirmed' else str(r.get('error')))
        elif not s.replayable(ins): verdict, detail = 'unsupported', 'this schedule cannot be forced natively; the counterexample lists it'
        elif events(ins):
            inp = os.path.join(s.work, 'cex'); s.write_inputs(ins, inp)
            rc, detail = s.stepped(inp, ['o' if k == 'observe' else '' for t, k, v, _ in ins if t == 'event' and v])
            verdict = 'confirmed' if rc == 10 else 'unsupported'
        else:
            inp = os.path.join(s.work, 'cex'); s.write_inputs(ins, inp)
            verdict, detail = 'refuted', ''
            modes = ['tsan', 'plain'] if v['kind'] == 'race' else ['plain', 'asan']
            for m in modes:
                rc, d = s.run_native(m, inp)
                detail = d
                if rc == 10: verdict = 'confirmed'; break
                if rc == 12 or rc is None: verdict = 'unsupported'
                if rc not in (0, 10, 11, 12, None): verdict = 'confirmed'; detail = 'native run died: ' + d; break
            if verdict == 'refuted' and (any(k in ('sched', 'regs') for k, *_ in ins) or v['kind'] == 'race'): verdict = 'unsupported'
        return s.save(ins, v, verdict), verdict, detail

def events(ins): return sum(1 for k, _, v, _ in ins if k == 'event' and v)

def refs(i):
    """function names referenced by an instruction"""
    out = []
    def walk(x):
        if isinstance(x, (tuple, list)):
            if len(x) >= 2 and x[0] == 'g' and isinstance(x[1], str): out.append(x[1])
            for y in x: walk(y)
    walk(i.a); walk(i.x)
    return out
