#!/usr/bin/env python3-vt
"""Development aid: apply textual mutants to a scratch copy of /repo and run checks on it.
mutants file: python list M of (props, file, old, new[, nth]) or (props, [(file, old, new[, nth]), ...])"""
import sys, os, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:] 
from concurrent.futures import ThreadPoolExecutor
def one(k, m):
    props = m[0]; edits = m[1] if isinstance(m[1], list) else [m[1:]]; f, old, new = edits[0][:3]
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        for x in ('include', 'src'): shutil.copytree(os.environ.get('MUT_REPO', '/repo') + '/' + x, d + '/' + x)
        for e in edits:
            nth = e[3] if len(e) > 3 else None
            p = os.path.join(d, e[0]); s = open(p).read()
            if e[1] not in s: return '%d: PATTERN MISSING %r' % (k, e[1][:50])
            if nth is None: s = s.replace(e[1], e[2])
            else:
                parts = s.split(e[1])
                if nth + 1 >= len(parts): return '%d: nth' % k
                s = e[1].join(parts[:nth + 1]) + e[2] + e[1].join(parts[nth + 1:])
            open(p, 'w').write(s)
        out = []
        for pr in props.split():
            r = subprocess.run(['python3-vt', HERE + '/check.py', pr], env=dict(os.environ, VP_REPO=d), capture_output=True, text=True)
            ls = r.stdout.strip().splitlines()
            why = [l for l in ls if l.startswith(('symbolic counter', 'replay against', 'ERROR', 'native viol'))]
            out.append('%s rc=%d %s' % (pr, r.returncode, ' | '.join(w[:150] for w in why) or (ls[-1][:150] if ls else r.stderr[-300:])))
        return '%d %s: %r -> %r\n    %s' % (k, f, old[:40], new[:40], '\n    '.join(out))
    finally: shutil.rmtree(d)
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(lambda a: one(*a), [(k, m) for k, m in enumerate(ns['M']) if not only or str(k) in only]): print(r, flush=True)
