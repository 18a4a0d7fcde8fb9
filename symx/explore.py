"""Parallel exhaustive exploration of all feasible paths of one harness instance."""
import multiprocessing as mp, time, traceback, sys, os
from .engine import Engine, Inconclusive, Stats
from . import ops

def _worker(conn, prog, models, entry, args, opts):
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(10000)
    while True:
        try: task = conn.recv()
        except EOFError: return
        if task is None: return
        E = Engine(prog, models, opts)
        stack = [task]; done = 0; t0 = time.time(); viol = None; err = None; sample = None
        try:
            while stack and (time.time() - t0 < opts.get('slice', 0.7)):
                p = stack.pop()
                out, info, pend = E.run_path(p, entry, args)
                stack.extend(pend); done += 1
                if sample is None and out == 'end': sample = E.witness()
                if out == 'violation': viol = info; break
        except Inconclusive as e:
            err = 'inconclusive: ' + str(e) + ' [in %s]' % ' <- '.join(f.fn.name for f in reversed(E.frames))
        except Exception as e:
            err = 'engine error: ' + repr(e) + '\n' + traceback.format_exc()[-3000:]
            try: err += ' [in %s]' % ' <- '.join(f.fn.name for f in reversed(E.frames))
            except Exception: pass
        conn.send((stack, E.stats, viol, err, sample))

def explore(prog, models, entry, args=(), opts=None, jobs=8, budget=600, log=None):
    """returns dict(status='ok'|'violation'|'error', stats, violation, error)"""
    opts = dict(opts or {})
    st = Stats(); t0 = time.time()
    work = [()]
    ctx = mp.get_context('fork')
    # first slice in-process keeps tiny explorations cheap
    E = Engine(prog, models, opts)
    samples = []
    try:
        tt = time.time()
        while work and time.time() - tt < 0.5:
            out, info, pend = E.run_path(work.pop(), entry, args)
            if out == 'end' and len(samples) < 2: samples.append(E.witness())
            if out == 'violation':
                st.merge(E.stats); return dict(status='violation', stats=st, violation=info, samples=samples, wall=time.time() - t0)
            work.extend(pend)
    except Inconclusive as e:
        st.merge(E.stats)
        return dict(status='error', stats=st, error='inconclusive: ' + str(e) + ' [in %s]' % ' <- '.join(f.fn.name for f in reversed(E.frames)), samples=samples, wall=time.time() - t0)
    st.merge(E.stats)
    if not work: return dict(status='ok', stats=st, samples=samples, wall=time.time() - t0)
    ws = []
    for i in range(jobs):
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, prog, models, entry, args, opts), daemon=True)
        p.start(); b.close(); ws.append([p, a, False])
    res = None
    try:
        from multiprocessing.connection import wait
        while True:
            for w in ws:
                if not w[2] and work:
                    w[1].send(work.pop()); w[2] = True
            busy = [w for w in ws if w[2]]
            if not busy: break
            for c in wait([w[1] for w in busy], timeout=1.0):
                w = next(x for x in ws if x[1] is c)
                try: stack, s2, viol, err, sample = c.recv()
                except EOFError:
                    res = dict(status='error', error='worker died'); break
                w[2] = False; st.merge(s2); work.extend(stack)
                if sample and len(samples) < opts.get('samples', 6): samples.append(sample)
                if viol: res = dict(status='violation', violation=viol); break
                if err: res = dict(status='error', error=err); break
            if res: break
            if time.time() - t0 > budget:
                res = dict(status='error', error='time budget of %d s exhausted with %d open prefixes' % (budget, len(work))); break
    finally:
        for w in ws:
            try:
                if w[2] is False: w[1].send(None)
            except Exception: pass
        for w in ws:
            if w[2]: w[0].terminate()
        for w in ws: w[0].join(5)
    if res is None: res = dict(status='ok')
    res['stats'] = st; res['samples'] = samples; res['wall'] = time.time() - t0
    return res
