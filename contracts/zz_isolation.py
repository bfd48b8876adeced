"""C24: the frame and ownership part of every other contract, on its own.

For every contract whose arguments or result are objects this derives a contract with the same function, arguments and
precondition whose obligations are only: arguments not named as mutated are unchanged, and the result (or the mutated
object) shares no mutable state with the arguments or with the library.
"""
from pyvc.contract import contract, Contract, REGISTRY
from pyvc.shapes import *

P = 'C24'
SKIP_MODULES = ()


def objects(c):
    return any(isinstance(s, (Obj, ListOf)) for _, s in c.args)


for c in list(REGISTRY):
    if not isinstance(c, Contract) or c.known or c.thorough or c.lenient or not objects(c) or c.raises:
        continue
    d = contract('iso.' + c.id, P, c.fns, c.args, c.call, result=c.result, requires=c.requires, ghosts=c.ghosts, mut=c.mut, fresh=c.fresh, returns=c.returns,
                 bounded=c.bounded, weight=c.weight, search=c.search, rel=c.rel, runs=c.runs, max_paths=c.max_paths, uses=c.uses, history=False)
    d.kinds = ('frame', 'fresh')
    d.seeds = c.seeds
