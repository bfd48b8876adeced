"""Contracts: a sidecar specification of one operation of the real code."""
from __future__ import annotations
from .shapes import ANY

REGISTRY = []


class Contract:
    def __init__(self, id, prop, fns, args, call, ensures=None, result=ANY, requires=None, ghosts=(), mut=(),
                 fresh=True, exact=False, raises=None, bounded=None, seeds=(), returns=None, weight=1, summary=None,
                 note=None, timeout=None, allow_exc=(), tags=(), axioms=None, settle=True, history=True, thorough=False,
                 search=None, max_paths=3000, split=(), known=False, rel=None, uses=(), facts=(), runs=False, invariants=None, ignore=None, yields=None, lenient=False):
        self.id = id
        self.props = [prop] if isinstance(prop, str) else list(prop)
        self.fns = [fns] if isinstance(fns, str) else list(fns)
        self.args = list(args)
        self.ghosts = list(ghosts)
        self.call = call
        self.ensures = ensures
        self.result = result
        self.requires = requires
        self.mut = set(mut)
        self.fresh = fresh
        self.exact = exact
        self.raises = raises
        self.bounded = bounded
        self.seeds = list(seeds)
        self.returns = returns          # name of the argument returned by reference
        self.weight = weight
        self.summary = summary
        self.note = note
        self.timeout = timeout
        self.allow_exc = allow_exc
        self.tags = tags
        self.axioms = axioms
        self.history = history
        self.thorough = thorough
        self.search = search
        self.max_paths = max_paths
        self.split = split
        self.rel = rel            # path of the point the other points are parametrised from
        self.uses = list(uses)    # callee contracts used in place of the callees' bodies
        self.facts = list(facts)  # further contracts about the same callees, instantiated with the caller's ghosts of the same name
        self.runs = runs          # bounded stand-in: only concrete runs, no obligations
        self.kinds = None         # only obligations of these kinds
        self.invariants = invariants    # templates tried on the variables of loops over lists of any length
        self.yields = yields      # a generator: clauses about its k-th element x, yields(a, k, x)
        self.ignore = ignore or {}      # callee contract -> clauses not used
        self.lenient = lenient    # expensive: running out of time is reported as open, never as an alarm
        self.known = known        # the witness of a recorded finding: only replayed

    def __repr__(self):
        return f'<contract {self.id}>'


class Lemma:
    """a mathematical fact over the contracts (no code): proved like an obligation"""

    def __init__(self, id, prop, build, timeout=None):
        self.id = id
        self.props = [prop] if isinstance(prop, str) else list(prop)
        self.build = build
        self.fns = []
        self.bounded = None
        self.timeout = timeout


SUMMARIES = {}


def summary(cid, fn, bind):
    """contract cid may stand for calls of fn; bind(*call arguments) gives the contract's arguments by name, or None"""
    SUMMARIES[cid] = (fn, bind)


def contract(id, prop, fns, args, call, **k):
    if any(c.id == id for c in REGISTRY):
        raise ValueError(f'duplicate contract {id}')
    c = Contract(id, prop, fns, args, call, **k)
    REGISTRY.append(c)
    return c


def lemma(id, prop, build, **k):
    c = Lemma(id, prop, build, **k)
    REGISTRY.append(c)
    return c
