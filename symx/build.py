"""Lower /repo's current sources plus a harness to one LLVM IR module."""
import subprocess, os, tempfile, shutil
REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(HERE, 'harness')

class BuildError(Exception): pass

def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-4000:]))
    return p.stdout

SRC = {'mempool': 'src/rseq-mempool.c', 'rseq': 'src/rseq.c', 'smp': 'src/smp.c'}

def lib_sources(units):
    """the library's translation units: named ones, plus any file added to src/ that they may need"""
    out = [os.path.join(REPO, SRC[u]) for u in units]
    known = set(SRC.values())
    for f in sorted(os.listdir(os.path.join(REPO, 'src'))):
        if f.endswith('.c') and 'src/' + f not in known: out.append(os.path.join(REPO, 'src', f))
    return out

BASE = ['-std=gnu11', '-D_GNU_SOURCE', '-DHAVE_LIBNUMA=1', '-w', '-fno-discard-value-names', '-fno-strict-aliasing']

def lower(srcs, work, flags=(), target=None, passes='always-inline,function(sroa,simplifycfg)', sysinc=None):
    """returns path of the linked .ll"""
    os.makedirs(work, exist_ok=True)
    lls = []
    for k, s in enumerate(srcs):
        o = os.path.join(work, '%d.0.ll' % k); o2 = os.path.join(work, '%d.ll' % k)
        cmd = ['clang', '-S', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', *BASE, *flags]
        if s.endswith('.cc'): cmd = [{'-std=gnu11': '-std=gnu++17', 'clang': 'clang++'}.get(x, x) for x in cmd] + ['-fno-exceptions', '-fno-rtti']
        if target: cmd += ['--target=' + target]
        if sysinc: cmd += ['-ffreestanding', '-nostdinc', '-isystem', os.path.join(HARN, sysinc), '-isystem', clang_inc(), '-idirafter', '/usr/include', '-idirafter', '/usr/include/x86_64-linux-gnu']
        cmd += ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-I' + HARN, s, '-o', o]
        run(cmd)
        run(['opt', '-S', '-passes=' + passes, o, '-o', o2])
        lls.append(o2)
    out = os.path.join(work, 'all.ll')
    if len(lls) == 1: return lls[0]
    run(['llvm-link', '-S', *lls, '-o', out])
    return out

_ci = None
def clang_inc():
    global _ci
    if _ci is None: _ci = os.path.join(run(['clang', '-print-resource-dir']).strip(), 'include')
    return _ci
