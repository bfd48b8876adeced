"""python3-vt tools/vacuity.py [SECONDS]: is any contract true only because its assumptions contradict each other?

For every contract and every path that reaches the postcondition, the obligation `False` is given to the same back ends under the
assumptions of that path (precondition, path condition, axioms, callee contracts, loop invariants). A contract all of whose paths prove
`False` says nothing; a path that does is either infeasible or a mistake in the assumptions and is listed for reading.
"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import multiprocessing as mp
import z3
from pyvc import check, verify, solve, loader, core
from pyvc.contract import REGISTRY, Lemma


def one(arg):
    cid, budget = arg
    c = check.by_id(cid)
    try:
        r = verify.verify(c, check.WORLD)
    except BaseException as e:
        return cid, 0, [], f'{type(e).__name__}: {e}'
    last = {}
    for name, pc, goal, kind, meta in r.obligations:
        if kind == 'ensures' or kind == 'frame':
            last[id(meta['inputs'])] = (pc, meta)
    dead, n = 0, 0
    for pc, meta in list(last.values())[:60]:
        n += 1
        f = z3.BoolVal(False)
        if solve.trivially(pc, f) or solve.linearly(pc, f):
            dead += 1
            continue
        s = z3.Solver()
        s.set('timeout', int(budget * 1000))
        s.add(*pc)
        if s.check() == z3.unsat:
            dead += 1
    return cid, n, dead, ''


def main():
    budget = float(sys.argv[1]) if len(sys.argv) > 1 else 2.0
    check.load_contracts()
    ids = [c.id for c in REGISTRY if not isinstance(c, Lemma) and not getattr(c, 'runs', False) and not c.raises]
    check.WORLD = loader.World('sym').load_all()
    bad = 0
    with mp.Pool(5, maxtasksperchild=4) as pool:
        for cid, n, dead, err in pool.imap_unordered(one, [(i, budget) for i in ids]):
            if err:
                print(cid, 'error', err)
            elif n and dead == n:
                bad += 1
                print(cid, 'VACUOUS', n, flush=True)
            elif dead:
                print(cid, f'{dead} of {n} paths infeasible', flush=True)
    print(len(ids), 'contracts,', bad, 'vacuous')
    return bad > 0


if __name__ == '__main__':
    sys.exit(main())
