#!/usr/bin/env python3-vt
"""check.py <property id>: decide one property on /repo's current working tree."""
import sys, os, json, time, shutil, tempfile, subprocess
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from symx import build, ir, codegen, models, explore, replay
import props

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = props.PROPS[pid]
    work = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage={}, assumptions=P.get('assumptions', []), wall_s=0, violations=0)
    rc = 2
    try:
        rc = run(P, pid, tier, work, ev, t0)
    finally:
        ev['wall_s'] = round(time.time() - t0, 2)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)

def run(P, pid, tier, work, ev, t0):
    tot = dict(states=0, transitions=0, queries=0, assertions=0, assertion_queries=0, solver_s=0.0, infeasible=0,
               asm_instructions=0, interruptions=0)
    funcs = set(); covers = {}; samples = []; validated = 0; inst = []; mism = []; need = set(); hit = set()
    budget = int(os.environ.get('VP_BUDGET', 0)) or P.get('budget', {}).get(tier, 600 if tier == 'quick' else 5400)
    insts = [i for i in P['instances'] if tier == 'thorough' or not i.get('thorough')]
    for k, I in enumerate(insts):
        w = os.path.join(work, str(k)); os.makedirs(w)
        job = replay.Job(pid, I, w, tier)
        try: r = job.explore(max(30, budget - (time.time() - t0)))
        except build.BuildError as e:
            print('ERROR: cannot lower the sources: %s' % e); return 2
        st = r['stats']
        tot['states'] += st.paths; tot['transitions'] += st.segs + st.asm_instrs; tot['queries'] += st.queries
        tot['assertions'] += st.asserts; tot['assertion_queries'] += st.assert_queries; tot['solver_s'] += st.solver_s
        tot['infeasible'] += st.infeasible; tot['asm_instructions'] += st.asm_instrs; tot['interruptions'] += st.events
        funcs |= {f for f in st.funcs if not f.startswith('@h_')}
        for n, c in st.covers.items(): covers[n] = covers.get(n, 0) + c
        inst.append(dict(harness=I['src'], params=I.get('params', {}), defs=I.get('defs', []), paths=st.paths, queries=st.queries,
                         solver_s=round(st.solver_s, 2), wall_s=round(r['wall'], 2), status=r['status']))
        if os.environ.get('VP_VERBOSE'): print(inst[-1], flush=True)
        if r['status'] == 'violation':
            v = r['violation']
            print('symbolic counterexample in %s: %s [%s]' % (I['src'], v['msg'], v['kind']))
            if v['stack']: print('  call stack: ' + ' <- '.join(reversed(v['stack'])))
            for t in v['trace'][-12:]: print('  ' + t)
            path, verdict, detail = job.replay(v)
            print('replay against the real code: %s (%s)' % (verdict, detail))
            ev['violations'] = 1
            ev['coverage'] = dict(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=0,
                                  samples=[v['inputs'][:60]], violation=v['msg'], replay=verdict)
            if verdict in ('confirmed', 'unsupported'):
                print('VIOLATION property=%s replay=%s' % (pid, path)); return 1
            print('ERROR: the counterexample was not reproduced; no verdict'); return 2
        if r['status'] == 'error':
            print('ERROR: %s: %s' % (I['src'], r['error'])); return 2
        # vacuity: every reachability witness of the harness must be hit by some instance
        need |= set() if I.get('nocover') else {(I['src'], c) for c in job.cover_names()}; hit |= {(I['src'], c) for c in st.covers}
        # encoding validation: concrete witnesses of explored paths run against the native build
        ok, bad = job.validate([s for s in r['samples'] if s], I.get('validate', 4))
        validated += ok; mism += bad
        samples += [[list(x[:3]) for x in s[:40]] for s in r['samples'][:2] if s]
        for b in bad: print('note: native run of an explored path: ' + b[1])
    if need - hit:
        print('ERROR: unreached witnesses %s' % sorted(need - hit)); return 2
    tot['solver_s'] = round(tot['solver_s'], 2)
    ev['coverage'] = dict(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=validated,
        samples=samples[:8] or [['no symbolic input']], exhaustive=True, paths_explored=tot['states'], solver_queries=tot['queries'],
        assertions_checked=tot['assertions'], assertion_queries=tot['assertion_queries'], solver_seconds=tot['solver_s'],
        asm_instructions_executed=tot['asm_instructions'], interruption_points=tot['interruptions'],
        functions_encoded=sorted(f[1:] for f in funcs), bounds=P['bounds'], reachability_witnesses=covers, instances=inst,
        native_divergences=[b[1] for b in mism][:10])
    if P.get('not_covered'): ev['coverage']['outside_bounds'] = P['not_covered']
    print('%s holds within bounds: %d paths, %d solver queries (%.1f s), %d assertions, %d witnesses replayed natively, %.1f s' % (
        pid, tot['states'], tot['queries'], tot['solver_s'], tot['assertions'], validated, time.time() - t0))
    return 0

if __name__ == '__main__': main()
