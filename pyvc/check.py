"""python3-vt -m pyvc.check <property> [--tier quick|thorough] [--only PATTERN] [--verbose]

Decides one property: every obligation its contracts generate from /repo's current source is discharged.
exit 0  held;  exit 1  VIOLATION line;  exit 2  the machinery itself failed
"""
from __future__ import annotations
import argparse
import contextlib
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import random
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(5000)

import z3                                                       # noqa: E402
from . import core, loader, verify, solve, replay, contract, baseline    # noqa: E402
from .contract import REGISTRY, Contract, Lemma                # noqa: E402

SOFT = {'fresh', 'canonical', 'identity'}      # facts about the representation: an alarm needs a failing run
LEVEL = {'C19': ('other', 'obligations discharged for hulls of three and of four points in every position (and, without bound, for the predicates and the starting point); for 5 to 26 points the same contracts are decided by concrete runs: bounded, not proved')}
TIERS = {
    'quick': dict(budget=20.0, solve_total=240.0, light=(60, 1.5), deep=(4000, 20.0), deep_total=240.0, stage1=200, runs=(1500, 6.0), again=150.0),
    'thorough': dict(budget=120.0, solve_total=1500.0, light=(3000, 20.0), deep=(60000, 120.0), deep_total=900.0, stage1=400, runs=(40000, 60.0), again=900.0),
}


def load_contracts():
    import contracts
    for m in sorted(pkgutil.iter_modules(contracts.__path__), key=lambda m: m.name):
        importlib.import_module('contracts.' + m.name)


def input_model(p):
    """values of the inputs that take this path"""
    try:
        p.solver.set('timeout', 400)
        if p.solver.check() != z3.sat:
            return None
        m = p.solver.model()
        out = {}
        for n, c in p.inputs.items():
            v = m.eval(c, model_completion=True)
            v = solve.val(v)
            if v is not None:
                out[n] = v
        return out
    except z3.Z3Exception:
        return None


EXEC = set()


def executed_start():
    """records which functions of the package run (sys.monitoring, one event per function)"""
    m = sys.monitoring
    EXEC.clear()
    root = loader.src_root()
    try:
        m.use_tool_id(3, 'pyvc')
    except ValueError:
        pass

    def start(code, off):
        if code.co_filename.startswith(root):
            EXEC.add(os.path.basename(code.co_filename)[:-3] + '.' + code.co_qualname)
        return m.DISABLE
    m.register_callback(3, m.events.PY_START, start)
    m.set_events(3, m.events.PY_START)
    m.restart_events()


def executed_stop():
    sys.monitoring.set_events(3, 0)
    return {f for f in EXEC if '<' not in f}


def stage1(arg):
    """obligations of one contract (in a worker process)"""
    cid, cpu, budget = arg
    c = by_id(cid)
    out = {'id': cid, 'jobs': [], 'proved': [], 'unsupported': [], 'hidden': [], 'paths': 0, 'completed': 0, 'seeds': [],
           'summaries': [], 'error': None, 'time': 0.0, 'fns': []}
    t0 = time.time()
    executed_start()
    old = signal.signal(signal.SIGVTALRM, replay._alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try:
        if getattr(c, 'runs', False):
            r = verify.Result(c)
            r.completed = 1
        elif isinstance(c, Lemma):
            r = verify.verify_lemma(c)
        else:
            r = verify.verify(c, WORLD, on_path=lambda p: out['seeds'].append(input_model(p)) if len(out['seeds']) < 24 else None)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        out.update(paths=r.paths, completed=r.completed, unsupported=sorted(set(r.unsupported)), hidden=sorted(set(r.hidden)),
                   summaries=sorted(r.used_summaries))
        for i, (name, pc, goal, kind, meta) in enumerate(r.obligations):
            if getattr(c, 'kinds', None) and kind not in c.kinds:
                continue
            if solve.trivially(pc, goal):
                out['proved'].append((name, kind, 'z3-simplify'))
            elif meta.get('proved'):
                out['proved'].append((name, kind, 'z3-default'))
            elif solve.linearly(pc, goal):
                out['proved'].append((name, kind, 'z3-linear'))
            else:
                j = solve.make_job((cid, i), pc, goal, max(budget, c.timeout or 0), meta)
                j.update(name=name, kind=kind, pure=meta['pure'], inputs=list(meta['inputs']), hash=baseline.obligation_hash(pc, goal))
                out['jobs'].append(j)
    except replay.Hang:
        out['unsupported'].append('symbolic execution exceeded its time limit')
    except core.Control as e:
        out['unsupported'].append(f'{type(e).__name__}: {e}')
    except Exception as e:
        out['unsupported'].append(f'{type(e).__name__}: {e}')
        out['error'] = traceback.format_exc(limit=6)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        out['fns'] = sorted(executed_stop())
    out['seeds'] = [s for s in out['seeds'] if s]
    out['time'] = time.time() - t0
    return out


def stage3(arg):
    """concrete runs of one contract"""
    with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null):
        return stage3_(arg)


def stage3_(arg):
    cid, models, limit, seconds, seed = arg
    c = by_id(cid)
    rng = random.Random(f'{seed}/{cid}')
    seeds = []
    for m in models:
        try:
            seeds.append(replay.from_model(c, m))
        except Exception:
            pass
    seeds += [replay.undump(s) if isinstance(s, dict) else s for s in c.seeds]
    try:
        f, vals, tried = replay.search(c, REALW, HPW, seeds, rng, seconds, limit)
        if f:
            try:
                vals, f = replay.shrink(c, REALW, HPW, vals, f)
            except Exception:
                pass
            return {'id': cid, 'clause': f.clause, 'detail': f.detail, 'kind': f.kind, 'input': replay.dump(vals),
                    'shown': repr(vals), 'tried': tried, 'error': None}
        return {'id': cid, 'clause': None, 'tried': tried, 'error': None}
    except Exception:
        return {'id': cid, 'clause': None, 'tried': 0, 'error': traceback.format_exc(limit=6)}


def by_id(cid):
    for c in REGISTRY:
        if c.id == cid:
            return c
    raise KeyError(cid)


def pool_map(fn, args, workers=8, limit=None):
    """results in order; None where the time limit struck"""
    out = [None] * len(args)
    if not args:
        return out
    ctx = mp.get_context('fork')
    t0 = time.time()
    with ctx.Pool(min(workers, len(args)), maxtasksperchild=20) as pool:
        rs = [pool.apply_async(fn, (a,)) for a in args]
        for i, r in enumerate(rs):
            try:
                left = None if limit is None else max(0.5, limit - (time.time() - t0))
                out[i] = r.get(timeout=left)
            except mp.TimeoutError:
                pass
        pool.terminate()
    return out


def known_findings(prop):
    p = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop and k['status'] == 'known']


def main(argv=None):
    global WORLD, REALW, HPW
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only', default='')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--baseline', action='store_true', help='record what is discharged (maintenance)')
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in TIERS else 'quick'
    T = TIERS[tier]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    load_contracts()
    cs = [c for c in REGISTRY if a.prop in c.props and (c.id in a.only[1:].split(',') if a.only[:1] == '=' else a.only in c.id) and not getattr(c, 'known', False)
          and (tier == 'thorough' or not getattr(c, 'thorough', False))]
    if not cs:
        print(f'no contracts for {a.prop}', file=sys.stderr)
        return 2
    # contracts of callees that stand for their bodies are decided by the same run
    todo = list(cs)
    while todo:
        c = todo.pop()
        if getattr(c, 'kinds', None):
            continue
        for u in list(getattr(c, 'uses', ())) + list(getattr(c, 'facts', ())):
            k = by_id(u)
            if k not in cs:
                cs.append(k)
                todo.append(k)
    notes = []
    WORLD = None
    try:
        WORLD = loader.World('sym').load_all()
    except (core.Control, Exception) as e:
        notes.append(f'the package could not be loaded symbolically: {type(e).__name__}: {e}')
    REALW = loader.RealWorld()
    try:
        REALW.load_all()
    except Exception as e:
        print(f'importing the package failed: {type(e).__name__}: {e}')
        return emit_violation(a.prop, 'import', {'contract': None, 'obligation': 'the package imports', 'detail': str(e)}, '')
    HPW = None
    try:
        HPW = loader.World('hp').load_all()
    except (core.Control, Exception) as e:
        notes.append(f'no high-precision twin: {type(e).__name__}: {e}')
        HPW = None
    if HPW is None:
        HPW = REALW

    # 1. obligations
    if WORLD is not None:
        cs = sorted(cs, key=lambda c: -getattr(c, 'weight', 1))
        s1 = pool_map(stage1, [(c.id, T['stage1'], T['budget']) for c in cs], limit=T['stage1'] * 1.5)
    else:
        s1 = [None] * len(cs)
    for i, c in enumerate(cs):
        if s1[i] is None:
            s1[i] = {'id': c.id, 'jobs': [], 'proved': [], 'unsupported': notes[:1] or ['no answer in time'], 'hidden': [], 'paths': 0,
                     'completed': 0, 'seeds': [], 'summaries': [], 'error': None, 'time': 0, 'fns': []}
    t1 = time.time()
    # 2. discharge
    jobs = [j for s in s1 for j in s['jobs']]
    res = solve.run_jobs(jobs, T['solve_total'])
    t2 = time.time()
    # 3. verdicts and concrete runs
    per = {s['id']: {'s1': s, 'bad': [], 'by': {}, 'time': 0.0} for s in s1}
    backends, solver_time, n_ob, n_dis = {}, 0.0, 0, 0
    for s in s1:
        n_ob += len(s['proved'])
        n_dis += len(s['proved'])
        for _, _, by in s['proved']:
            backends[by] = backends.get(by, 0) + 1
    for j in jobs:
        r = res[j['id']]
        n_ob += 1
        solver_time += r['time']
        per[j['id'][0]]['time'] += r['time']
        if r['status'] == 'proved':
            n_dis += 1
            backends[r['by']] = backends.get(r['by'], 0) + 1
        else:
            per[j['id'][0]]['bad'].append((j, r))
    # obligations of changed code get a second, longer attempt
    base, src = baseline.load(a.prop), baseline.sources()

    def accepted(c):
        """the code this contract executes is the code the verifier has accepted"""
        b = base.get(c.id)
        return b is None or getattr(c, 'lenient', False) or b['source'] == baseline.source_hash(per[c.id]['s1']['fns'], src)

    def new(c, j):
        return not accepted(c) and j['kind'] not in SOFT and j['hash'] not in base[c.id]['obligations']
    again = [(j, r) for c in cs for j, r in per[c.id]['bad'] if r['status'] != 'refuted' and new(c, j)]
    if again and not a.baseline:
        for j, r in again:
            j['budget'] *= 3
        res2 = solve.run_jobs([j for j, _ in again], T['again'])
        for j, r in again:
            r2 = res2[j['id']]
            solver_time += r2['time']
            q = per[j['id'][0]]
            if r2['status'] == 'proved':
                n_dis += 1
                backends[r2['by']] = backends.get(r2['by'], 0) + 1
                q['bad'] = [x for x in q['bad'] if x[0] is not j]
            else:
                q['bad'] = [(x, r2 if x is j and r2['status'] == 'refuted' else y) for x, y in q['bad']]
    tasks, deep_n = [], 0
    suspicious = {}
    for c in cs:
        if isinstance(c, Lemma):
            continue
        q = per[c.id]
        s = q['s1']
        why = bool(q['bad'] or s['unsupported'] or s['hidden'] or (s['completed'] == 0 and not c.raises))
        suspicious[c.id] = why
        deep_n += why
    each = min(T['deep'][1], max(4.0, T['deep_total'] * 8 / max(8, deep_n)))
    for c in cs:
        if isinstance(c, Lemma):
            continue
        q = per[c.id]
        models = [r['model'] for j, r in q['bad'] if r.get('model')][:10]
        models += q['s1']['seeds'][:24 if suspicious[c.id] else 8]
        lim, sec = (T['deep'][0], each) if suspicious[c.id] else T['light']
        if c.runs:
            lim, sec = T['runs']
        tasks.append((c.id, models, lim, sec, seed))
    tasks.sort(key=lambda t: -t[3])
    s3 = {r['id']: r for r in pool_map(stage3, tasks, limit=T['deep_total'] + 120) if r}
    t3 = time.time()

    violations, soft, open_ = [], [], []
    for c in cs:
        q = per[c.id]
        r3 = s3.get(c.id)
        if r3 and r3.get('error'):
            notes.append(f'{c.id}: concrete run failed inside the harness: {r3["error"].splitlines()[-1]}')
            if a.verbose:
                print(r3['error'])
        if r3 and r3['clause']:
            failed = [j['name'] for j, r in q['bad']]
            violations.append({'contract': c.id, 'obligation': failed[0] if failed else f'{c.id}: {r3["clause"]}',
                               'all_failed_obligations': failed, 'clause': r3['clause'], 'detail': r3['detail'], 'input': r3['input'],
                               'shown': r3['shown'], 'functions': c.fns})
            continue
        hard = [(j, r) for j, r in q['bad'] if r['status'] == 'refuted' and j['kind'] not in SOFT and j['kind'] != 'step' and j['pure']]
        if hard:
            j, r = hard[0]
            violations.append({'contract': c.id, 'obligation': j['name'], 'all_failed_obligations': [j['name'] for j, _ in hard],
                               'input': None, 'solver_model': r['model'], 'functions': c.fns,
                               'solver_output': f"sat ({r['by']})", 'smt2': j['variants'][-1][1][:20000]})
            continue
        fresh_ = [(j, r) for j, r in q['bad'] if new(c, j)]
        cannot = [u for u in q['s1']['unsupported']] if not accepted(c) else []
        if fresh_ or cannot:
            names = [j['name'] for j, _ in fresh_] + [f'{c.id}: {u}' for u in cannot]
            violations.append({'contract': c.id, 'obligation': names[0], 'all_failed_obligations': names, 'input': None, 'functions': c.fns,
                               'solver_output': f"{fresh_[0][1]['status']}" if fresh_ else cannot[0],
                               'smt2': fresh_[0][0]['variants'][-1][1][:20000] if fresh_ else None})
            continue
        for j, r in q['bad']:
            (soft if j['kind'] in SOFT and r['status'] == 'refuted' else open_).append(f"{j['name']} [{r['status']}]")
        for u in q['s1']['unsupported']:
            open_.append(f'{c.id}: {u}')
        for u in q['s1']['hidden']:
            soft.append(f'{c.id}: {u}')
        if q['s1']['completed'] == 0 and not q['s1']['unsupported'] and not c.raises and not q['bad']:
            notes.append(f'{c.id}: no path reached the postcondition')
            open_.append(f'{c.id}: vacuous')

    # known findings: the recorded witness still fails
    for k in known_findings(a.prop):
        w = by_id(k['contract'])
        f = replay.evaluate(w, REALW, replay.undump(k['input']) if k.get('input') else replay.NS(), False, None, poison=False)
        if f:
            print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    if a.baseline:
        baseline.save(a.prop, {c.id: {'source': baseline.source_hash(per[c.id]['s1']['fns'], src), 'obligations': sorted({j['hash'] for j in per[c.id]['s1']['jobs']})}
                               for c in cs if not per[c.id]['s1']['unsupported'] and not getattr(c, 'runs', False)
                               and all(j['kind'] in SOFT for j, _ in per[c.id]['bad'])})
    proved_c = [c for c in cs if not per[c.id]['bad'] and not per[c.id]['s1']['unsupported'] and not per[c.id]['s1']['hidden']]
    unb = [c for c in proved_c if not c.bounded]
    fns_all = sorted({f for c in cs for f in c.fns})
    fns_proved = sorted({f for c in unb for f in c.fns})
    tried = sum(r['tried'] for r in s3.values())
    bounded_ob = sum(len(per[c.id]['s1']['proved']) + len(per[c.id]['s1']['jobs']) for c in cs if c.bounded)
    bounded_open = sum(len(per[c.id]['bad']) for c in cs if c.bounded)
    ev = {
        'property': a.prop, 'tier': tier, 'seed': seed, 'level': LEVEL.get(a.prop, ('proof', ''))[0],
        'coverage': {
            'obligations': n_ob - bounded_ob, 'discharged': n_dis - bounded_ob + bounded_open, 'obligations_of_bounded_contracts': bounded_ob,
            'explanation': LEVEL.get(a.prop, ('', 'deductive: every obligation generated from the current source is put to the solvers'))[1],
            'checker_cmd': f'python3-vt -m pyvc.check {a.prop} --tier {tier}',
            'trusted_base': TRUSTED,
            'functions_under_contract': fns_all,
            'functions_executed_symbolically': sorted({f for s in s1 for f in s['fns']}),
            'contracts': len([c for c in cs if isinstance(c, Contract)]), 'lemmas': len([c for c in cs if isinstance(c, Lemma)]),
            'contracts_discharged': len(proved_c),
            'contracts_discharged_without_bound': len(unb),
            'functions_discharged_without_bound': fns_proved,
            'bounded_contracts': [{'contract': c.id, 'bound': c.bounded} for c in cs if c.bounded],
            'paths': sum(s['paths'] for s in s1),
            'discharged_by': backends, 'solver_seconds': round(solver_time, 3),
            'undischarged': open_[:60], 'undischarged_count': len(open_),
            'representation_notes': soft[:40],
            'callee_contracts_used': sorted({u for s in s1 for u in s['summaries']}),
            'cross_check_runs_on_cpython': tried,
            'stage_seconds': [round(t1 - t0, 2), round(t2 - t1, 2), round(t3 - t2, 2)],
            'notes': notes,
        },
        'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 3), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{a.prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if a.verbose:
        for s in sorted(s1, key=lambda s: -s['time'])[:5]:
            print('  gen', s['id'], round(s['time'], 2), 'paths', s['paths'])
        for cid, q in sorted(per.items(), key=lambda x: -x[1]['time'])[:5]:
            print('  solve', cid, round(q['time'], 2))
        for s in s1:
            if s['error']:
                print(s['error'])
        for x in soft:
            print('  soft', x)
        for x in notes:
            print('  note', x)
    for x in open_[:200 if a.verbose else 20]:
        print(f'  open: {x}')
    print(f'{a.prop}: {n_dis}/{n_ob} obligations discharged, {len(proved_c)}/{len(cs)} contracts ({len(unb)} without bound), '
          f'{tried} concrete runs, {time.time() - t0:.1f}s {[round(t1 - t0, 1), round(t2 - t1, 1), round(t3 - t2, 1)]}')
    if n_ob == 0 and WORLD is not None and not open_ and not violations:
        print('no obligations were generated', file=sys.stderr)
        return 2
    code = 0
    for k, v in enumerate(violations):
        code = emit_violation(a.prop, k, v, '' if v.get('input') is not None else ' no-failing-input-found')
    return code


def emit_violation(prop, k, v, suffix):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}-{k}.json')
    v = dict(v, property=prop, replay_cmd=f'python3-vt -m pyvc.replay {path}')
    with open(path, 'w') as f:
        json.dump(v, f, indent=1, default=str)
    print(f"  {v.get('obligation')}" + (f"\n    {v['clause']} -- {v['detail']}\n    input {v['shown']}" if v.get('clause') else ''))
    print(f'VIOLATION property={prop} replay={path}{suffix}')
    return 1


TRUSTED = [
    'pyvc: the obligation generator in /verif/pyvc (AST rewriting of / ** and float literals, symbolic numbers, path exploration)',
    'CPython 3.12 running the rewritten modules of /repo/src/pyrusgeom',
    'z3 (simplifier, nlsat, nla) and cvc5',
    'axioms for sin/cos/atan2/acos/asin/exp/log listed in DESIGN.md',
]
ASSUMPTIONS = [
    'machine floating point is treated as real arithmetic (float literals as the decimals they spell); '
    'inputs are finite numbers',
    'objects passed to operations were built by the public constructors and mutators (whose contracts re-establish the '
    'representation they start from)',
    'functions without a contract of their own are verified through their callers (their bodies are executed symbolically there)',
]

if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
