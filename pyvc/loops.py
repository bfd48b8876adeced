"""Sequences of any length, and loops over them decided by invariants.

A list of unknown length is a SymSeq: a length term and, per index term, an element. A `for` over such a sequence (and,
in a contract about lists of any length, a `while`) is cut in the usual way: it does not run at all, or it runs for the
first time from the state before it, or an arbitrary later iteration runs from any state that satisfies the invariants,
or it has ended in such a state. After the iteration that runs, the invariants are obligations and the path ends there.

The invariants are found, not given by variable name: every template of the contract is tried on every local variable
the loop assigns; those that do not hold initially or are not kept are dropped until all the rest are proved.
"""
from __future__ import annotations
import ast
import builtins
import copy
import sys
import z3
from . import core, shims
from .core import SR, SI, SB, Unsupported, PathEnd, cur, mk_int


def ival(x):
    """integer term"""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SI):
        return x.i
    if isinstance(x, SB):
        return x.as_int().i
    raise TypeError(f'list indices must be integers or slices, not {type(x).__name__}')


def si(e):
    return mk_int(z3.simplify(e))


# ------------------------------------------------------------------ indices

def canon(t, soft=False):
    """the known index equal to t on this path, or t itself from now on; decided by branching, except for soft ones
    (witnesses), whose equality with others is left to the solver"""
    p = cur()
    t = z3.simplify(t)
    idx = p.memo.setdefault('indices', [])
    for u in idx:
        if u.eq(t):
            return u
    softs, free = p.memo.setdefault('soft', set()), p.memo.setdefault('soft variables', set())
    if soft:
        free.add(t.get_id())
        p.memo.setdefault('keep', []).append(t)
    elif free and any(v.get_id() in free for v in int_vars(t)):
        soft = True
    for u in list(idx):
        if soft or u.get_id() in softs:
            if p.implied(t == u):
                # rather one the code looks at than a witness
                return next((h for h in idx if h.get_id() not in softs and not h.eq(u) and p.implied(t == h)), u) if u.get_id() in softs else u
        elif p.branch(t == u):
            return u
    if soft:
        softs.add(t.get_id())
    for u in idx:
        if u.eq(t):
            return u
    idx.append(t)
    for f in list(p.memo.get('everywhere', ())):
        f(t)
    return t


def int_vars(t):
    if z3.is_const(t):
        return [t] if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else []
    return [v for c in t.children() for v in int_vars(c)]


def indices():
    return list(cur().memo.get('indices', ()))


def primary():
    """the indices that matter: those the code looks at, the witnesses, and the arbitrary index"""
    return list(cur().memo.get('primary', ()))


def note(t):
    p = cur()
    ts = p.memo.setdefault('primary', [])
    if not any(u.eq(t) for u in ts):
        ts.append(t)
        for f in list(p.memo.get('every', ())):
            f(t)
    return t


def on_every_index(f, around):
    """f(t) for every index that comes up; around: f looks at neighbours, so only for those that matter"""
    p = cur()
    p.memo.setdefault('every' if around else 'everywhere', []).append(f)
    for t in primary() if around else indices():
        f(t)


def J():
    """the arbitrary index the contract talks about"""
    p = cur()
    if 'J' not in p.memo:
        p.memo['J'] = z3.Int('J')
        p.assume(p.memo['J'] >= 0, 'index')
        note(p.memo['J'])
    return SI(p.memo['J'])


def Upto(i, f):
    """f(k) for every index k < i"""
    p = cur()
    k = J()
    if p.implied(k.i >= ival(i)):
        return True
    e = f(k)
    return e if p.implied(k.i < ival(i)) else core.s_or(core.mk_bool(k.i >= ival(i)), e)


# ------------------------------------------------------------------ sequences

def seen(t):
    c = cur().memo.setdefault('code', [])
    if not any(u.eq(t) for u in c):
        c.append(t)
    return note(t)


def element(x, n, get):
    """x is an element of the list with this length and these elements"""
    if isinstance(getattr(x, '__dict__', None), dict):
        cur().memo.setdefault('elements', {})[id(x)] = (x, n, get)
    return x


def element_of(x):
    return cur().memo.get('elements', {}).get(id(x))


class SymSeq:
    """a list of unknown length"""

    def __init__(self, n, get, tail=(), generic=None):
        self._ahead = False             # skips the first element of another list
        self._n, self._get, self._tail, self._generic = n, get, list(tail), generic
        self.opaque = None              # what is known about an element comes with it (Each)

    def snapshot(self):
        n, get, tail = self._n, self._get, list(self._tail)
        if not tail:
            return n, get
        m = si(ival(n) + len(tail))

        def g(t):
            for k, x in enumerate(tail):
                if cur().branch(t == ival(n) + k):
                    return x
            return get(t)
        return m, g

    @property
    def size(self):
        return self.snapshot()[0]

    def at(self, t):
        """element at an index known to be in range"""
        return self.snapshot()[1](canon(ival(t) if not z3.is_expr(t) else t))

    def map(self, f):
        n, get = self.snapshot()
        cache = {}

        def g(t):
            t = canon(t)
            k = t.get_id()
            if k not in cache:
                cache[k] = (t, f(get(t)))
            return cache[k][1]
        gen = self._generic
        out = SymSeq(n, g, generic=(lambda: f(gen())) if gen else None)
        out.opaque = self.opaque if not self._tail else None
        return out

    def generic(self):
        """an element at a place nobody else looks at"""
        if self._generic:
            return self._generic()
        return None

    # ---- the list interface
    def __getitem__(self, k):
        n, get = self.snapshot()
        if isinstance(k, slice):
            if k.step not in (None, 1):
                if k.step == -1 and k.start is None and k.stop is None:
                    return SymSeq(n, lambda t: get(canon(ival(n) - 1 - t)), generic=self._generic)
                raise Unsupported('slice with a step')
            lo, hi = self._bound(k.start, 0, n), self._bound(k.stop, n, n)
            out = SymSeq(si(z3.If(ival(hi) > ival(lo), ival(hi) - ival(lo), z3.IntVal(0))), lambda t: get(canon(t + ival(lo))), generic=self._generic)
            out._ahead = z3.simplify(ival(lo)).eq(z3.IntVal(1))
            return out
        i = ival(k)
        if cur().branch(i < 0):
            i = i + ival(n)
        if not cur().branch(z3.And(i >= 0, i < ival(n))):
            raise IndexError('list index out of range')
        return element(get(seen(canon(i))), n, get)

    @staticmethod
    def _bound(k, default, n):
        if k is None:
            return default
        i = ival(k)
        if cur().branch(i < 0):
            i = i + ival(n)
            if cur().branch(i < 0):
                return 0
        return n if cur().branch(i > ival(n)) else si(i)

    def append(self, x):
        self._tail.append(x)

    def copy(self):
        return SymSeq(self._n, self._get, self._tail, self._generic)

    __copy__ = copy

    def __add__(self, o):
        n, get = self.snapshot()
        if isinstance(o, list):
            return SymSeq(self._n, self._get, self._tail + o, self._generic)
        if isinstance(o, SymSeq):
            m, og = o.snapshot()

            def g(t):
                if cur().branch(t < ival(n)):
                    return get(t)
                return og(canon(t - ival(n)))
            return SymSeq(si(ival(n) + ival(m)), g)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, list):
            return SymSeq(len(o), lambda t: pick(o, t)) + self
        return NotImplemented

    def __bool__(self):
        return cur().branch(ival(self.size) > 0)

    def __iter__(self):
        raise Unsupported('a list of unknown length used as a whole')

    def __len__(self):
        raise Unsupported('length of a list of unknown length')

    def __contains__(self, x):
        raise Unsupported('membership in a list of unknown length')

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported('comparison of lists of unknown length')

    __hash__ = None

    def __setitem__(self, k, v):
        raise Unsupported('assignment to an element of a list of unknown length')

    __delitem__ = __setitem__

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'list.{name} on a list of unknown length')


def pick(xs, t):
    for k, x in enumerate(xs):
        if cur().branch(t == k):
            return x
    if cur().solver.check() == z3.unsat:
        raise PathEnd('infeasible path')
    raise Unsupported(f'index {t} of {len(xs)}')


def fingerprint(s):
    """equal for sequences with the same elements: their terms at an index nothing is known about"""
    p = cur()
    if s.opaque is not None:
        return ('opaque', s.opaque)
    if 'probe' not in p.memo:
        p.memo['probe'] = canon(p.fresh_int('probe'), True)
    from .shapes import leaves
    t = p.memo['probe']
    ks = [z3.simplify(ival(s.size)).sexpr()]
    for _, x in leaves(s.at(t)):
        ks.append(core.bexpr(x).sexpr() if isinstance(x, (bool, SB)) else z3.simplify(core.num(x).e).sexpr())
    return tuple(ks)


class SymIter:
    """something to loop over: length and i-th item"""

    def __init__(self, n, item, ahead=False):
        self.n, self.item, self._ahead = n, item, ahead

    def __iter__(self):
        raise Unsupported('iteration over a range of unknown length')


def view(it):
    """(length, item) of an iterable of unknown length, None for an ordinary one"""
    if isinstance(it, SymSeq):
        n, get = it.snapshot()
        return n, lambda i: element(get(seen(canon(i))), n, get)
    if isinstance(it, SymIter):
        return it.n, it.item
    return None


def as_view(it):
    v = view(it)
    if v:
        return v
    xs = builtins.list(it)
    return len(xs), lambda i: pick(xs, i)


def b_len(x):
    if isinstance(x, SymSeq):
        return x.size
    if isinstance(x, SymIter):
        return x.n
    return builtins.len(x)


def b_range(*a):
    if not any(isinstance(x, SI) for x in a):
        return builtins.range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if not isinstance(st, int) or st not in (1, -1):
        raise Unsupported('range with a step')
    n = si(ival(hi) - ival(lo)) if st == 1 else si(ival(lo) - ival(hi))
    return SymIter(n, lambda i: si(ival(lo) + i if st == 1 else ival(lo) - i), st == 1 and z3.simplify(ival(lo)).eq(z3.IntVal(1)))


def b_enumerate(it, start=0):
    v = view(it)
    if not v:
        return builtins.enumerate(it, start)
    return SymIter(v[0], lambda i: (si(i + ival(start)), v[1](i)), it._ahead)


def b_zip(*its, strict=False):
    if not any(view(x) for x in its):
        return builtins.zip(*its)
    vs = [as_view(x) for x in its]
    n = ival(vs[0][0])
    for m, _ in vs[1:]:
        n = z3.If(ival(m) < n, ival(m), n)
    return SymIter(si(n), lambda i: tuple(f(i) for _, f in vs), any(getattr(x, '_ahead', False) for x in its))


def b_reversed(it):
    v = view(it)
    if not v:
        return builtins.reversed(it)
    return SymIter(v[0], lambda i: v[1](canon(ival(v[0]) - 1 - i)))


class ListMeta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, (builtins.list, SymSeq))

    def __call__(cls, *a):
        if a and builtins.isinstance(a[0], SymSeq):
            return a[0].copy()
        if a and builtins.isinstance(a[0], SymIter):
            it = a[0]
            return SymSeq(it.n, it.item)
        return builtins.list(*a) if a else vc_list('list()')

    def __eq__(cls, o):
        return o is cls or o is builtins.list

    def __hash__(cls):
        return hash(builtins.list)

    def __getitem__(cls, k):
        return builtins.list[k]


class List(metaclass=ListMeta):
    copy = staticmethod(lambda x: x.copy())
    append = staticmethod(lambda x, y: x.append(y))


def b_isinstance(o, c):
    if builtins.isinstance(c, tuple):
        return any([b_isinstance(o, k) for k in c])
    if builtins.isinstance(o, SymSeq):
        import collections.abc as cabc
        return c is List or c is builtins.list or c is object or c in (cabc.Sequence, cabc.MutableSequence, cabc.Iterable, cabc.Sized, cabc.Collection)
    if c is List:
        return builtins.isinstance(o, builtins.list)
    return shims.b_isinstance(o, c)


def b_type(*a):
    if len(a) == 1 and builtins.isinstance(a[0], (SymSeq, builtins.list)):
        return List
    return shims.b_type(*a)


# written as loops, so that they are decided like the loops of the code (see helpers())
SOURCE = '''
def b_sum(xs, start=0):
    total = start
    for x in xs:
        total = total + x
    return total


def b_min(xs, default):
    first = True
    best = 0.0
    for x in xs:
        if first or x < best:
            best = x
        first = False
    if first:
        if default:
            return default[0]
        raise ValueError('min() arg is an empty sequence')
    return best


def b_max(xs, default):
    first = True
    best = 0.0
    for x in xs:
        if first or x > best:
            best = x
        first = False
    if first:
        if default:
            return default[0]
        raise ValueError('max() arg is an empty sequence')
    return best


def b_min_key(xs, best, key):
    for x in xs:
        if key(x) < key(best):
            best = x
    return best


def b_max_key(xs, best, key):
    for x in xs:
        if key(x) > key(best):
            best = x
    return best


def b_any(xs):
    for x in xs:
        if x:
            return True
    return False


def b_all(xs):
    for x in xs:
        if not x:
            return False
    return True
'''


def comp(kind, it, f):
    """[f(x) for x in it]"""
    v = view(it)
    if v is None:
        if kind == 'gen':
            return (f(x) for x in it)
        return [f(x) for x in it]
    n, item = v
    if isinstance(it, SymSeq):
        if it._generic is not None and kind == 'list':
            p = cur()
            if p.branch(ival(n) > 0):
                f(it.generic())
        out = it.map(f)
        out._ahead = it._ahead
        return out
    cache = {}

    def g(t):
        t = canon(t)
        if t.get_id() not in cache:
            cache[t.get_id()] = (t, f(item(t)))
        return cache[t.get_id()][1]
    out = SymSeq(n, g)
    out._ahead = it._ahead
    return out


# ------------------------------------------------------------------ cutting loops

class Poison:
    """a variable whose value after arbitrarily many iterations is not modelled"""

    def _bad(self, *a, **k):
        raise Unsupported(f'use of {self.__dict__["name"]!r}, which a loop assigns')

    def __init__(self, name):
        self.__dict__['name'] = name

    __getattr__ = __call__ = __getitem__ = __iter__ = __len__ = __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = _bad
    __mul__ = __rmul__ = __neg__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __hash__ = __contains__ = __abs__ = _bad


class VList(list):
    """a list the code builds; after arbitrarily many iterations of a loop that only appends to it, what stands in it is
    known by its rules (Build), followed by the elements appended since"""

    def __init__(self, site):
        super().__init__()
        self.site, self.rules, self.runs = site, None, None
        cur().memo.setdefault('lists', []).append(self)

    def open(self, rules, count):
        list.clear(self)
        self.rules, self.runs = rules, count

    def now(self):
        """the elements known one by one"""
        return tuple(list.__iter__(self))

    def append(self, x):
        list.append(self, x)

    def extend(self, xs):
        if view(xs) or isinstance(xs, VList) and xs.rules is not None:
            raise Unsupported('a list of unknown length appended')
        list.extend(self, xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __getitem__(self, k):
        if self.rules is None:
            return list.__getitem__(self, k) if not isinstance(k, SI) else pick_in(self, k)
        one = next((r for r in self.rules if r.one), None)
        if one is None or isinstance(k, slice):
            raise Unsupported('element of a list built by a loop')
        i, n = ival(k), ival(self.runs) + list.__len__(self)
        if cur().branch(i < 0):
            i = i + n
        if not cur().branch(z3.And(i >= 0, i < n)):
            raise IndexError('list index out of range')
        for j, x in enumerate(self.now()):
            if cur().branch(i == ival(self.runs) + j):
                return x
        return one.step(SI(seen(canon(i))))[0]

    def __add__(self, o):
        if self.rules is None:
            return builtins.list(self.now()) + o
        raise Unsupported('a list of unknown length used as a whole')

    def __radd__(self, o):
        if self.rules is None:
            return o + builtins.list(self.now())
        raise Unsupported('a list of unknown length used as a whole')

    __hash__ = None


def pick_in(xs, k):
    i, n = ival(k), len(xs)
    if cur().branch(i < 0):
        i = i + n
    if not cur().branch(z3.And(i >= 0, i < n)):
        raise IndexError('list index out of range')
    return pick(xs.now(), i)


def _closed(name):
    f = getattr(builtins.list, name)

    def g(self, *a, **k):
        if self.rules is not None:
            raise Unsupported(f'list.{name} on a list built by a loop')
        return f(self, *a, **k)
    return g


for _n in ('__len__', '__iter__', '__contains__', '__reversed__', '__mul__', '__rmul__', '__imul__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__setitem__', '__delitem__',
           'pop', 'insert', 'remove', 'clear', 'sort', 'reverse', 'index', 'copy', '__repr__'):
    setattr(VList, _n, _closed(_n))


class Build:
    """rule for a list: the k-th iteration appends step(k), compared by same(element, expected) -> formula or {name: formula};
    one: always one element, which is the expected one"""

    def __init__(self, name, step, same, one=False):
        self.name, self.step, self.same, self.one = name, step, same, one


class Maybe:
    """an element that may be missing"""

    def __init__(self, what):
        self.what = what


def Built(r, name, n):
    """r is the list the rule describes after n iterations"""
    if not isinstance(r, VList) or r.rules is None:
        return core.mk_bool(ival(n) == 0) if len(r) == 0 else False
    if not any(b.name == name for b in r.rules) or r.now():
        return False
    return core.mk_bool(ival(r.runs) == ival(n))


def vc_list(site):
    return VList(site) if vc_unbounded() else []


class Some:
    """there is an index w, 0 <= w < i (or below), with f(w)"""

    def __init__(self, f, below=None):
        self.f, self.below = f, below


class State:
    """what is known about the loops of one contract, across paths and rounds"""

    def __init__(self, templates):
        self.rules = [t for t in templates if isinstance(t, Build)]
        self.templates = [t for t in templates if not isinstance(t, Build)]     # [(name, kind, f(x, i))]
        self.kinds = {}                 # (loop, variable) -> kind
        self.dropped = set()            # (loop, variable, template)
        self.lists = set()              # (loop, site): lists the loop appends to
        self.dirty = False
        self.checked = {}               # obligation name -> (loop, variable, template)
        self.seen = {}                  # (loop, variable) -> 'item k' | 'other': what it held after an iteration

    def holds(self, key, var, what):
        old = self.seen.setdefault((key, var), what)
        if old != what:
            self.seen[(key, var)] = 'other'
            self.dirty = self.dirty or old != 'other'
        return self.seen[(key, var)]

    def kind(self, key, var, values):
        k = join(values)
        old = self.kinds.get((key, var))
        if old is not None:
            k = widen(old, k)
        if k != old:
            self.kinds[(key, var)] = k
            self.dirty = self.dirty or old is not None
        return k


def kind_of(v):
    if isinstance(v, (bool, SB)):
        return 'bool'
    if isinstance(v, (int, SI)):
        return 'int'
    if isinstance(v, (float, SR)):
        return 'real'
    return 'poison' if isinstance(v, Poison) else 'same'


def widen(a, b):
    if a == b:
        return a
    if {a, b} == {'int', 'real'}:
        return 'real'
    return 'poison'


def join(vs):
    k = kind_of(vs[0])
    for v in vs[1:]:
        k = widen(k, kind_of(v))
        if k == 'same' and v is not vs[0]:
            k = 'poison'
    return k


INT_FORMS = [('counts', lambda x, i: x == i), ('counts from 1', lambda x, i: x == i + 1), ('stays 0', lambda x, i: x == 0), ('behind by one', lambda x, i: x == i - 1),
             ('not negative', lambda x, i: x >= 0)]
BOOL_FORMS = [('true', lambda x, i: x), ('false', lambda x, i: core.s_not(x))]


def sizes():
    def walk(v, pre):
        if isinstance(v, SymSeq):
            yield pre, v
        elif hasattr(v, '__dict__'):
            for k, x in vars(v).items():
                yield from walk(x, f'{pre}.{k}' if pre else k)
    return list(walk(cur().views, ''))


def related(st, key, kind, names):
    """templates about a variable and a whole number"""
    return [(f'{n} {y}', lambda x, i, f=f, y=y: f(x, cur().memo['values'][y], i)) for n, k, f in st.templates if k == (kind, 'int') for y in names if st.kinds.get((key, y)) == 'int']


def candidates(st, key, var, kind, ahead=False, names=()):
    out = []
    if var is None:
        out = [(n, f) for n, k, f in st.templates if k is None]
        m = cur().memo
        if 'yields' in m:
            y0 = m['yields before', key]
            out += [('one element per iteration', lambda x, i: core.mk_bool(ival(m['yields']) == ival(y0) + ival(i))), ('no element', lambda x, i: core.mk_bool(ival(m['yields']) == ival(y0)))]
    elif kind == 'int':
        out = INT_FORMS + [(f'at most the length of {n}', lambda x, i, s=s: x <= s.size) for n, s in sizes()] + [(n, f) for n, k, f in st.templates if k in ('int', 'real')]
    elif kind == 'real':
        out = [(n, f) for n, k, f in st.templates if k == 'real'] + related(st, key, kind, names)
    elif kind == 'element':
        out = [(n, f) for n, k, f in st.templates if k == 'element'] + related(st, key, kind, names)
    elif kind == 'bool':
        out = BOOL_FORMS + [(n, f) for n, k, f in st.templates if k == 'bool']
    if ahead:
        out = out + [(n + ', one ahead', lambda x, i, f=f: f(x, si(ival(i) + 1))) for n, k, f in st.templates if k == kind]
    return [(n, f) for n, f in out if (key, var, n) not in st.dropped]


def snap(o):
    from . import verify
    out = {}
    for i, x in verify.graph(o).items():
        out[i] = (x, shallow(x))
    return out


def shallow(x):
    def leaf(v):
        if isinstance(v, SR):
            return ('r', v.q) if v.q is not None else ('e', v.e.get_id(), v.e)
        if isinstance(v, SI):
            return ('i', v.i.get_id(), v.i)
        if isinstance(v, SB):
            return ('b', v.e.get_id(), v.e)
        if isinstance(v, (int, float, str, bool, type(None))):
            return v
        return ('o', id(v))
    if isinstance(x, VList):
        return (id(x.rules), str(x.runs)) + tuple(leaf(v) for v in x.now())
    if isinstance(x, SymSeq):
        return (id(x._get), str(x._n), tuple(id(y) for y in x._tail))
    if isinstance(x, (list, set)):
        return tuple(leaf(v) for v in x)
    if isinstance(x, dict):
        return tuple((k, leaf(v)) for k, v in x.items())
    return tuple((k, leaf(v)) for k, v in vars(x).items())


def parts(x):
    return x if isinstance(x, tuple) else (x,)


class Cut:
    cut = True

    def __init__(self, key, names):
        cur().approx = True
        seen = cur().memo.setdefault('loops run', {})
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > 1:
            key = f'{key}, run {seen[key]}'
        self.key, self.names = key, names
        if 'yields' in cur().memo:
            cur().memo['yields before', key] = cur().memo['yields']
        self.st = cur().loops
        self.mode = None
        self.i = None
        self.pre = None
        self.heap = None
        self.ahead = False
        self.items = ()

    # ---- invariants
    def assume(self, vals, i):
        p = cur()
        p.memo['values'] = vals
        for var in [None] + list(self.names):
            k = self.st.kinds.get((self.key, var)) if var else None
            for name, f in candidates(self.st, self.key, var, k, self.ahead, self.names):
                e = f(vals.get(var), SI(i) if z3.is_expr(i) else i)
                if isinstance(e, Some):
                    w = p.fresh_int('w')
                    p.assume(z3.And(w >= 0, w < (ival(e.below) if e.below is not None else i)), 'invariant')
                    e = e.f(SI(note(canon(w, True))))
                p.assume(core.bexpr(e), 'invariant')

    def check(self, vals, i, when):
        p = cur()
        p.memo['values'] = vals
        for var in [None] + list(self.names):
            v = vals.get(var)
            k = None
            if var:
                pre = [self.pre[var]] if var in self.pre else []
                if not pre:
                    continue
                at = next((n for n, x in enumerate(self.items) if x is v and not isinstance(x, (SR, SI, SB, int, float, bool))), None)
                what = self.st.holds(self.key, var, 'other' if at is None else f'item {at}')
                if what != 'other':
                    if self.st.kinds.get((self.key, var)) != what:
                        self.st.kinds[(self.key, var)] = what
                        self.st.dirty = True
                    continue
                if str(self.st.kinds.get((self.key, var))).startswith('item'):
                    self.st.kinds[(self.key, var)] = 'poison'
                k = self.element(var, pre[0], v) or self.st.kind(self.key, var, pre + [vals.get(var, Poison(var))])
                if k == 'poison':
                    continue
                if k in ('int', 'real', 'bool'):
                    v = core.num(v) if k == 'real' else v
            for name, f in candidates(self.st, self.key, var, k, self.ahead, self.names):
                label = f'{p.contract.id}: invariant of the loop {self.key}: {var + " " if var else ""}{name} ({when})'
                self.st.checked[label] = (self.key, var, name)
                try:
                    e = f(v, i)
                    if isinstance(e, Some):
                        m = ival(i) if e.below is None else ival(e.below)
                        e = core.s_or(False, *[core.s_and(core.mk_bool(z3.And(u >= 0, u < m)), e.f(SI(u))) for u in primary()])
                except (TypeError, AttributeError):
                    self.st.dropped.add((self.key, var, name))
                    self.st.dirty = True
                    continue
                p.oblige(label, e, 'invariant')

    def element(self, var, pre, v):
        """the variable holds one of the elements of one list, before the loop and after each iteration"""
        e, f, old = element_of(pre), element_of(v), self.st.kinds.get((self.key, var))
        if not e or not f or e[2] is not f[2] or old not in (None, 'same', 'element') or (v is pre and old != 'element'):
            return None
        if old != 'element':
            self.st.kinds[(self.key, var)] = 'element'
            self.st.dirty = True
        return 'element'

    def watch(self, *roots):
        self.heap = snap(roots)
        self.lists, self.opened = {}, {}
        for x in cur().memo.get('lists', ()):
            self.heap[id(x)] = (x, shallow(x))
            site, k = x.site, 0
            while site in self.lists:
                k += 1
                site = f'{x.site}, {k}'
            self.lists[site] = (x, x.rules is None and not x.now())

    def unchanged(self):
        for site, (x, empty) in self.lists.items():
            if empty and shallow(x) != self.heap[id(x)][1]:
                if (self.key, site) not in self.st.lists:
                    self.st.lists.add((self.key, site))
                    self.st.dirty = True
                self.heap.pop(id(x))
        for i, (x, s) in self.heap.items():
            if shallow(x) != s:
                raise Unsupported(f'a loop ({self.key}) changes a {type(x).__name__}')

    def rules(self, site):
        return [r for r in self.st.rules if (self.key, site, r.name) not in self.st.dropped]

    def check_lists(self, i, when):
        """what this iteration, the i-th, appended"""
        p = cur()
        for site, (x, empty) in self.lists.items():
            if (self.key, site) not in self.st.lists:
                continue
            if x.rules is not self.opened.get(site):
                raise Unsupported('a list built by nested loops')
            for r in self.rules(site):
                def oblige(e, what=''):
                    label = f'{p.contract.id}: invariant of the loop {self.key}: {site} {r.name}{what} ({when})'
                    self.st.checked[label] = (self.key, site, r.name)
                    p.oblige(label, e, 'invariant')
                want, got = r.step(i), x.now()
                if len(got) < len(want):
                    want = [e for e in want if not (isinstance(e, Maybe))]
                want = [e.what if isinstance(e, Maybe) else e for e in want]
                oblige(len(want) == len(got), ', number')
                if len(want) == len(got):
                    try:
                        for e, y in zip(want, got):
                            d = r.same(y, e)
                            for k, f in (d.items() if isinstance(d, dict) else [('', d)]):
                                oblige(f, f', {k}' if k else '')
                    except (TypeError, AttributeError, Unsupported):
                        oblige(False)

    def havoc(self, last=None, i=None):
        p = cur()
        vals = {}
        for site, (x, empty) in self.lists.items():
            if (self.key, site) in self.st.lists:
                self.opened[site] = self.rules(site)
                x.open(self.opened[site], i)
        if 'yields' in p.memo:
            p.memo['yields'] = SI(p.fresh_int('yielded'))
        for var in self.names:
            k = self.st.kinds.get((self.key, var))
            if str(k).startswith('item'):
                vals[var] = parts(last)[int(k[5:])]
                continue
            if k == 'element':
                e = element_of(self.pre[var]) if var in self.pre else None
                if e:
                    w = p.fresh_int('w')
                    p.assume(z3.And(w >= 0, w < ival(e[1])), 'invariant')
                    vals[var] = element(e[2](note(canon(w, True))), e[1], e[2])
                    continue
            k = self.st.kind(self.key, var, [self.pre[var]]) if var in self.pre else 'poison'
            if k == 'real':
                v = SR(p.fresh(var))
                p.finite_term(v.e)
                vals[var] = v
            elif k == 'int':
                vals[var] = SI(p.fresh_int(var))
            elif k == 'bool':
                vals[var] = SB(p.fresh_bool(var))
            elif k == 'same':
                vals[var] = self.pre[var]
            else:
                vals[var] = Poison(var)
        return vals

    def values(self, loc, vals):
        return tuple(vals[v] if v in vals else loc.get(v, Poison(v)) for v in self.names)


class ForCut(Cut):
    def __init__(self, key, names, n, item, ahead=False):
        super().__init__(key, names)
        self.n, self.item = n, item
        self.vals = None
        self.ahead = ahead

    def __iter__(self):
        p = cur()
        n = ival(self.n)
        frame = sys._getframe(1)
        self.pre = {k: v for k, v in frame.f_locals.items() if not k.startswith('__lp')}
        self.watch(tuple(self.pre.values()))
        if p.branch(n <= 0):
            self.mode = 'none'
            return
        if p.choose('first iteration'):
            self.mode = 'first'
            x = self.item(canon(z3.IntVal(0)))
            self.items = parts(x)
            yield x
            self.unchanged()
            self.check_lists(0, 'after the first iteration')
            self.check(sys._getframe(1).f_locals, 1, 'after the first iteration')
            raise PathEnd('loop')
        i = p.fresh_int('i')
        p.assume(z3.And(i >= 1, i <= n), 'loop')
        self.i = i
        last = not p.branch(i < n)
        if last:
            p.assume(i == n, 'loop')
            i = n
        keep = any(str(self.st.kinds.get((self.key, v))).startswith('item') for v in self.names)
        self.vals = self.havoc(self.item(canon(z3.simplify(i - 1))) if keep else None, si(i))
        self.assume(self.vals, i)
        if last:
            self.mode = 'exit'
            return
        self.mode = 'step'
        x = self.item(canon(i))
        self.items = parts(x)
        yield x
        self.unchanged()
        self.check_lists(SI(i), 'kept')
        self.check(sys._getframe(1).f_locals, SI(z3.simplify(i + 1)), 'kept')
        raise PathEnd('loop')

    def enter(self, loc):
        return self.values(loc, self.vals or {})

    leave = enter


class WhileCut(Cut):
    def __init__(self, key, names):
        super().__init__(key, names)
        self.i = 0
        self.ahead = True

    def top(self, loc):
        p = cur()
        loc = {k: v for k, v in loc.items() if not k.startswith('__lp')}
        if self.mode is None:
            self.pre = loc
            self.watch(tuple(loc.values()))
            if p.choose('first iteration'):
                self.mode = 'first'
                return self.values(loc, {})
            self.mode = 'step'
            i = p.fresh_int('i')
            p.assume(i >= 1, 'loop')
            self.i = i
            vals = self.havoc(i=SI(i))
            self.assume(vals, i)
            return self.values(loc, vals)
        self.unchanged()
        if self.mode == 'first':
            self.check_lists(0, 'after the first iteration')
            self.check(loc, 1, 'after the first iteration')
        else:
            self.check_lists(SI(self.i), 'kept')
            self.check(loc, SI(z3.simplify(self.i + 1)), 'kept')
        raise PathEnd('loop')


class Plain:
    cut = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


def vc_loop(it, key, names):
    v = view(it)
    if v is None:
        return Plain(it)
    if cur().loops is None:
        raise Unsupported('a loop of unknown length')
    return ForCut(key, names, *v, getattr(it, '_ahead', False))


def vc_while(key, names):
    return WhileCut(key, names)


def vc_unbounded():
    return core.CUR is not None and core.CUR.loops is not None


# ------------------------------------------------------------------ rewriting

def stored(body):
    out = []
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out and not n.id.startswith('__lp'):
                out.append(n.id)
    return out


class LoopRewriter(ast.NodeTransformer):
    def __init__(self, key, body):
        self.key = key
        self.k = self.lists = 0
        self.stored = set(stored(body))

    def visit_FunctionDef(self, n):
        return n                        # nested functions are rewritten on their own

    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    def tup(self, names, ctx):
        return ast.Tuple([ast.Name(x, ctx()) for x in names], ctx())

    def visit_For(self, n):
        self.generic_visit(n)
        self.k += 1
        lp = f'__lp{self.k}'
        names = [x for x in stored(n.body) if x not in stored([ast.Assign([n.target], ast.Constant(0))])]
        out = [x for x in names] + stored([ast.Assign([n.target], ast.Constant(0))])
        mk = ast.Assign([ast.Name(lp, ast.Store())], ast.Call(ast.Name('__vc_loop__', ast.Load()), [n.iter, ast.Constant(f'{self.key}#{self.k}'), ast.Constant(tuple(names))], []))
        n.iter = ast.Name(lp, ast.Load())
        if names:
            n.body = ast.parse(f'if {lp}.cut:\n    ({", ".join(names)},) = {lp}.enter(locals())').body + n.body
            n.orelse = ast.parse(f'if {lp}.cut and {lp}.mode == "exit":\n    ({", ".join(names)},) = {lp}.leave(locals())').body + n.orelse
        return [mk, n]

    def visit_While(self, n):
        self.generic_visit(n)
        self.k += 1
        lp = f'__lp{self.k}'
        if n.orelse:
            return n
        names = stored(n.body) + [x.target.id for x in ast.walk(n.test) if isinstance(x, ast.NamedExpr)]
        c = copy.deepcopy(n)
        new = ast.parse(f'if __vc_unbounded__():\n    {lp} = __vc_while__({self.key + "#" + str(self.k)!r}, {tuple(names)!r})\n    while True:\n        '
                        + (f'({", ".join(names)},) = ' if names else '') + f'{lp}.top(locals())\n        if not (0):\n            break\nelse:\n    pass').body[0]
        w = new.body[1]
        w.body[1].test.operand = c.test
        w.body += c.body
        new.orelse = [n]
        return new

    def _comp(self, n, kind):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and not n.generators[0].is_async and not has_yield(n.elt):
            g = n.generators[0]
            bound = set(stored([ast.Assign([g.target], ast.Constant(0))]))
            # variables of the function are captured by value: the elements may be computed later
            keep = sorted({x.id for x in ast.walk(n.elt) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.stored} - bound)
            more = ([ast.arg(x) for x in keep], [ast.Name(x, ast.Load()) for x in keep])
            if isinstance(g.target, ast.Name):
                lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)] + more[0], None, [], [], None, more[1]), n.elt)
                return ast.Call(ast.Name('__vc_comp__', ast.Load()), [ast.Constant(kind), g.iter, lam], [])
            names = stored([ast.Assign([g.target], ast.Constant(0))])
            if isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts):
                lam = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, more[0], more[1], None, []), n.elt)
                star = ast.parse('lambda __t: (0)(*__t)', mode='eval').body
                star.body.func = lam
                return ast.Call(ast.Name('__vc_comp__', ast.Load()), [ast.Constant(kind), g.iter, star], [])
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if n.elts or not isinstance(n.ctx, ast.Load):
            return n
        self.lists += 1
        return ast.Call(ast.Name('__vc_list__', ast.Load()), [ast.Constant(f'{self.key}[{self.lists}]')], [])

    def visit_ListComp(self, n):
        return self._comp(n, 'list')

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen')


def has_yield(n):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n))


class Loops:
    """the hooks loader.World calls"""

    def scan(self, tree, name):
        pass

    def rewrite_function(self, n, modname, scope):
        r = LoopRewriter(f'{modname.rpartition(".")[2]}.{scope}', n.body)
        body = []
        for s in n.body:
            x = r.visit(s)
            body += x if isinstance(x, list) else [x]
        n.body = body
        return n

    def helpers(self):
        h = dict(__vc_loop__=vc_loop, __vc_while__=vc_while, __vc_unbounded__=vc_unbounded, __vc_comp__=comp, __vc_list__=vc_list)
        return h

    def builtins(self):
        from .loader import Rewriter
        tree = ast.parse(SOURCE)
        tree = Rewriter(SOURCE, self, 'builtins').visit(tree)
        ast.fix_missing_locations(tree)
        ns = dict(self.helpers(), __vc_f__=shims.vc_f)
        exec(compile(tree, '<builtins as loops>', 'exec'), ns)

        def b_sum(xs, start=0):
            return ns['b_sum'](xs, start)

        def pickmm(loop, plain):
            def f(*a, **k):
                if len(a) == 1 and view(a[0]):
                    if k.get('key'):
                        n, item = view(a[0])
                        if cur().branch(ival(n) <= 0):
                            if 'default' in k:
                                return k['default']
                            raise ValueError(f'{loop[2:]}() arg is an empty sequence')
                        return ns[loop + '_key'](a[0], item(canon(z3.IntVal(0))), k['key'])
                    k.pop('key', None)
                    if not isinstance(a[0], SymSeq) or k:
                        return ns[loop](a[0], (k['default'],) if k else ())
                    x = a[0]            # the same list again: the same number
                    done = cur().memo.setdefault(loop, [])
                    for y, get, n, tail, r in done:
                        if y is x and get is x._get and n is x._n and tail == x._tail:
                            return r
                    r = ns[loop](x, ())
                    done.append((x, x._get, x._n, list(x._tail), r))
                    return r
                return plain(*a, **k)
            return f
        return dict(len=b_len, range=b_range, enumerate=b_enumerate, zip=b_zip, reversed=b_reversed, list=List, isinstance=b_isinstance, type=b_type,
                    sum=b_sum, min=pickmm('b_min', shims.b_min), max=pickmm('b_max', shims.b_max),
                    any=lambda xs: ns['b_any'](xs) if view(xs) else builtins.any(xs), all=lambda xs: ns['b_all'](xs) if view(xs) else builtins.all(xs))
