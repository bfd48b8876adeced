"""The specification language: ordinary Python expressions over views.

Symbolically every number is a core.SR and every comparison a formula; on concrete inputs every number is a
CF - a 60-digit value with an error bound - and every comparison is True, False or None ("within the error
bound, undecided"), so a rounding difference is never reported as a failed clause.
"""
from __future__ import annotations
from fractions import Fraction
import mpmath
import z3
from . import core, shims, loops
from .core import SR, SI, SB, num

MPF = mpmath.mpf


class Ctx:
    """how concrete evaluation treats rounding"""
    T = MPF('1e-9')
    exact = False
    scale = MPF(1)


class CF:
    __slots__ = ('v', 'e')

    def __init__(self, v, e=0):
        self.v = v
        self.e = e

    def __repr__(self):
        return f'{mpmath.nstr(self.v, 17)}'

    def __format__(self, s):
        return repr(self)

    def __neg__(self):
        return CF(-self.v, self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return CF(abs(self.v), self.e)

    def __add__(self, o):
        o = cf(o)
        return CF(self.v + o.v, self.e + o.e)
    __radd__ = __add__

    def __sub__(self, o):
        o = cf(o)
        return CF(self.v - o.v, self.e + o.e)

    def __rsub__(self, o):
        return cf(o) - self

    def __mul__(self, o):
        o = cf(o)
        return CF(self.v * o.v, abs(self.v) * o.e + abs(o.v) * self.e + self.e * o.e)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = cf(o)
        if abs(o.v) <= o.e or o.v == 0:
            return CF(MPF(0), MPF('inf'))
        lo = abs(o.v) - o.e
        extra = 0 if Ctx.exact and self.e == 0 and o.e == 0 else abs(self.v / o.v) * Ctx.T
        return CF(self.v / o.v, (self.e + abs(self.v / o.v) * o.e) / lo + extra)

    def __rtruediv__(self, o):
        return cf(o) / self

    def __pow__(self, n):
        r = CF(MPF(1))
        for _ in range(n):
            r = r * self
        return r

    def _d(self, o):
        o = cf(o)
        d = self.v - o.v
        e = self.e + o.e
        return d, e

    def __lt__(self, o):
        d, e = self._d(o)
        return True if d < -e else False if d > e or (e == 0 and d == 0) else None

    def __le__(self, o):
        d, e = self._d(o)
        return False if d > e else True if d < -e or (e == 0 and d == 0) else None

    def __gt__(self, o):
        return cf(o) < self

    def __ge__(self, o):
        return cf(o) <= self

    def __eq__(self, o):
        d, e = self._d(o)
        if abs(d) > e:
            return False
        return True if e == 0 else None

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None


def cf(x):
    if isinstance(x, CF):
        return x
    if isinstance(x, bool):
        return CF(MPF(int(x)))
    if isinstance(x, (int, float, MPF)):
        return CF(MPF(x))
    if isinstance(x, str):
        return CF(MPF(x))
    if isinstance(x, Fraction):
        return CF(MPF(x.numerator) / x.denominator)
    raise TypeError(f'not a number: {x!r}')


class CInt(int):
    """a concrete integer leaf (exact)"""


def cin(x):
    """an input leaf, concretely"""
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int) and isinstance(x, CInt):
        return x
    v = MPF(x)
    return CF(v, 0 if Ctx.exact else Ctx.T * abs(v))


def cout(x):
    """a number the code returned"""
    if isinstance(x, bool) or x is None:
        return x
    v = MPF(x)
    if mpmath.isnan(v):
        raise NaNResult()
    if Ctx.exact or mpmath.isinf(v):
        return CF(v, 0)
    return CF(v, Ctx.T * max(abs(v), Ctx.scale))


class NaNResult(Exception):
    pass


def symbolic(*xs):
    return any(isinstance(x, (SR, SI, SB)) for x in xs)


def Q(text):
    """an exact decimal constant, usable in both modes"""
    if core.CUR is not None:
        return SR(q=Fraction(text))
    return CF(MPF(text))


# ----------------------------------------------------------- connectives

def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    if any(isinstance(x, SB) for x in xs):
        if any(x is False for x in xs):
            return False
        return core.s_and(*xs)
    if any(x is False for x in xs):
        return False
    if any(x is None for x in xs):
        return None
    return True


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    if any(x is True for x in xs):
        return True
    if any(isinstance(x, SB) for x in xs):
        return core.s_or(*xs)
    if any(x is None for x in xs):
        return None
    return False


def Not(x):
    if x is None:
        return None
    return core.s_not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, SB) or isinstance(b, SB):
        return core.mk_bool(core.bexpr(a) == core.bexpr(b))
    if a is None or b is None:
        return None
    return a == b


def Ite(c, a, b):
    """numeric if-then-else"""
    if isinstance(c, SB):
        return core.ite(c, a, b)
    if c is None:
        x, y = cf(a), cf(b)
        lo, hi = min(x.v - x.e, y.v - y.e), max(x.v + x.e, y.v + y.e)
        return CF((lo + hi) / 2, (hi - lo) / 2)
    return a if c else b


def Abs(x):
    if symbolic(x):
        return core.s_abs(x)
    return abs(cf(x))


def Min(*xs):
    if symbolic(*xs):
        r = xs[0]
        for x in xs[1:]:
            r = core.s_min2(r, x)
        return num(r)
    r = cf(xs[0])
    for x in xs[1:]:
        x = cf(x)
        r = CF(min(r.v, x.v), max(r.e, x.e))
    return r


def Max(*xs):
    if symbolic(*xs):
        r = xs[0]
        for x in xs[1:]:
            r = core.s_max2(r, x)
        return num(r)
    r = cf(xs[0])
    for x in xs[1:]:
        x = cf(x)
        r = CF(max(r.v, x.v), max(r.e, x.e))
    return r


def Sqrt(x):
    """square root of a number known to be >= 0"""
    if symbolic(x):
        x = num(x)
        if x.q is not None:
            r = core.isqrt_exact(x.q)
            if r is not None:
                return SR(q=r)
        return SR(core.sqrt_term(x.e))
    x = cf(x)
    v = x.v if x.v > 0 else MPF(0)
    r = mpmath.sqrt(v)
    e = x.e
    if e == 0:
        err = Ctx.T * r
    elif v > 4 * e:
        err = e / mpmath.sqrt(v - e) + Ctx.T * r
    else:
        err = mpmath.sqrt(v + e) + Ctx.T
    return CF(r, err)


def Sq(x):
    return x * x


# ----------------------------------------------------------- angles (degrees)

def Cosd(x):
    if symbolic(x):
        return shims.mkr(core.trig(num(x))[0])
    x = cf(x)
    return CF(mpmath.cos(x.v * mpmath.pi / 180), x.e * MPF('0.02') + Ctx.T)


def Sind(x):
    if symbolic(x):
        return shims.mkr(core.trig(num(x))[1])
    x = cf(x)
    return CF(mpmath.sin(x.v * mpmath.pi / 180), x.e * MPF('0.02') + Ctx.T)


def AddAngles(x, y):
    """ground instance of the addition theorem for x + y (degrees); nothing to do concretely"""
    if not symbolic(x, y):
        return
    x, y = num(x), num(y)
    p = core.cur()
    cx, sx = core.trig(x)
    cy, sy = core.trig(y)
    cz, sz = core.trig(x + y)
    p.assume(z3.And(cz == cx * cy - sx * sy, sz == sx * cy + cx * sy), 'ax-trig-addition')


def Pi():
    if core.CUR is not None:
        return SR(core.PI.e)
    return CF(mpmath.mpf(mpmath.pi), Ctx.T)


def Theta(x, y):
    """direction angle of a vector in degrees, in (-180, 180]; 0 for the zero vector"""
    if symbolic(x, y):
        r = shims.m_atan2(num(y), num(x))
        return r.rad if r.rad is not None else r
    x, y = cf(x), cf(y)
    r = mpmath.sqrt(x.v ** 2 + y.v ** 2)
    d = mpmath.atan2(y.v, x.v) * 180 / mpmath.pi
    e = x.e + y.e
    if r <= e:
        return CF(d, MPF(400)) if e > 0 else CF(MPF(0))
    return CF(d, e / (r - e) * 60 + Ctx.T * 200)


def Same360(a, b):
    """a and b are the same direction: a - b is a whole number of turns"""
    if symbolic(a, b):
        d = num(a) - num(b)
        if d.q is not None:
            return (d.q / 360).denominator == 1
        return core.mk_bool(z3.IsInt(d.e / 360))
    a, b = cf(a), cf(b)
    d = a.v - b.v
    k = mpmath.nint(d / 360)
    m = abs(d - 360 * k)
    e = a.e + b.e
    if m > e:
        return False
    return True if e == 0 else None


def IsInt(x):
    if symbolic(x):
        if isinstance(x, SI):
            return True
        x = num(x)
        if x.q is not None:
            return x.q.denominator == 1
        return core.mk_bool(z3.IsInt(x.e))
    x = cf(x)
    m = abs(x.v - mpmath.nint(x.v))
    if m > x.e:
        return False
    return True if x.e == 0 else None


def RInt(x):
    """nearest whole number, halves away from zero"""
    if symbolic(x):
        x = num(x)
        h = core.rv(Fraction(1, 2))
        tab = core.cur().memo.setdefault('rint', [])
        for t, r in tab:
            if t.eq(x.e):
                return SR(r)
        r = core.cur().fresh('rint')
        d = z3.If(x.e >= 0, z3.ToReal(z3.ToInt(x.e + h)), -z3.ToReal(z3.ToInt(h - x.e)))
        core.cur().assume(r == d, 'def-rint')
        core.cur().assume(z3.If(x.e >= 0, z3.And(r <= x.e + h, r > x.e - h), z3.And(r >= x.e - h, r < x.e + h)), 'def-rint')
        for t, q in tab:
            core.cur().assume(z3.Implies(t == x.e, q == r), 'def-rint')
        tab.append((x.e, r))
        return SR(r)
    x = cf(x)
    k = mpmath.floor(abs(x.v) + MPF(1) / 2) * (1 if x.v >= 0 else -1)
    tie = abs(abs(x.v - mpmath.nint(x.v)) - MPF(1) / 2)
    if x.e == 0 or tie > x.e:
        return CF(k)
    return CF(k, MPF(1))


def Congruent(a, b, m):
    """a - b is an integer multiple of the constant m"""
    return IsInt((a - b) * Q(1) * Q(f'1') / m) if not symbolic(a, b) else core.mk_bool(
        z3.IsInt((num(a) - num(b)).e / core.rv(Fraction(m))))


def Exp(x):
    if symbolic(x):
        return shims.m_exp(x)
    x = cf(x)
    v = mpmath.exp(x.v)
    return CF(v, v * (mpmath.expm1(x.e) + Ctx.T))


def Log(x):
    if symbolic(x):
        return SR(shims.explog(core.cur(), None, z3.simplify(num(x).e, som=True))[0])
    x = cf(x)
    return CF(mpmath.log(x.v), x.e / max(abs(x.v) - x.e, MPF('1e-300')) + Ctx.T)


def Pow(b, n):
    """b ** n for a natural number n"""
    if symbolic(b, n):
        r = core.power(num(b), n)
        return num(r)
    n = int(n)
    return cf(b) ** n


EPSILON = '1e-6'


def Have(name, goal, given=None):
    """an intermediate step: an obligation of its own (from the given facts only, which are obligations too), available to what follows"""
    if core.CUR is None or core.cur().in_summary:
        return
    p = core.cur()
    cid = p.contract.id
    if given is not None:
        for i, g in enumerate(given):
            p.oblige(f'{cid}: step {name}, premise {i + 1}', g, 'step')
    p.oblige(f'{cid}: step {name}', goal, 'step', given=given)
    p.assume(core.bexpr(goal), 'step')


def Fact(name, f, *terms):
    """f(*terms) -> (premises, conclusion) proved for all numbers in place of the terms, then available for the terms themselves"""
    if core.CUR is None or core.cur().in_summary:
        return
    p = core.cur()
    p.plain = True
    prem, goal = f(*[SR(p.fresh('any')) for _ in terms])
    p.plain = False
    p.oblige(f'{p.contract.id}: fact {name}', goal, 'step', given=prem)
    prem, goal = f(*[num(t) for t in terms])
    p.assume(core.bexpr(Implies(And(*prem), goal)), 'fact')


def Call(cid, **views):
    """ghost call: the result a callee's contract promises for these arguments (the very result the code got, if it made the same call)"""
    return core.cur().call(cid, views)


def Quot(n, d):
    """the quotient n / d, d not 0: the very one the code computed if it divided the same polynomials"""
    if not symbolic(n, d):
        return cf(n) / d
    n, d = num(n).e, num(d).e
    for k, v in list(core.cur().memo.items()):
        if isinstance(k, tuple) and k[0] == 'div' and core.is_zero(v[2] - d) and core.is_zero(v[1] - n):
            return SR(v[0])
    return SR(core.div_terms(n, d))


def Proving():
    """true while obligations are generated, false in concrete runs"""
    return core.CUR is not None


# ----------------------------------------------------------- lists of any length

def Len(v):
    return loops.b_len(v)


def At(v, k):
    """element k, known to be in range"""
    if isinstance(v, loops.SymSeq):
        return v.at(loops.ival(k))
    return v[k]


def Next(v, k):
    """the index after k, around the end"""
    if isinstance(v, loops.SymSeq):
        k, n = loops.ival(k), loops.ival(v.size)
        return 0 if core.cur().branch(k + 1 == n) else loops.si(k + 1)
    return (k + 1) % len(v)


class Every:
    """f(k) for every index k of v: an obligation at an arbitrary index, or a fact about every index that comes up (around: f looks at neighbours)"""

    def __new__(cls, v, f, around=False):
        if isinstance(v, loops.SymSeq):
            o = object.__new__(cls)
            o.v, o.f, o.around = v, f, around
            return o
        return And(*[f(k) for k in range(len(v))])

    def goal(self):
        k = loops.J()
        return self.f(k) if core.cur().branch(k.i < loops.ival(self.v.size)) else True

    def assume(self):
        def fact(t):
            p = core.cur()
            if not p.implied(z3.Not(z3.And(t >= 0, t < loops.ival(self.v.size)))):
                e = core.bexpr(self.f(SI(t)))
                p.assume(z3.Implies(z3.And(t >= 0, t < loops.ival(self.v.size)), e), 'callee-ensures')
        loops.on_every_index(fact, self.around)


class Each:
    """f(k, element) for every element of the list a callee returns: known when the element is looked at"""

    def __init__(self, v, f):
        self.v, self.f = v, f

    def assume(self):
        p = core.cur()
        v, f = self.v, self.f
        v.opaque = p.memo['opaque'] = p.memo.get('opaque', 0) + 1
        get, done = v._get, set()

        def g(t):
            x = get(t)
            t = loops.canon(t)
            if t.get_id() not in done:
                done.add(t.get_id())
                p = core.cur()
                old, p.in_summary = p.in_summary, True
                e = core.bexpr(f(SI(t), x))
                p.in_summary = old
                p.assume(z3.Implies(z3.And(t >= 0, t < loops.ival(v.size)), e), 'callee-ensures')
            return x
        v._get = g


def Exists(v, f, code=False):
    """f(k) for some index k of v, where it is to be shown (code: one the code looked at); in a callee's contract, a place where it holds"""
    if isinstance(v, loops.SymSeq):
        n = loops.ival(v.size)
        p = core.cur()
        if p.in_summary:
            w = p.fresh_int('w')
            p.assume(z3.Implies(n > 0, z3.And(w >= 0, w < n)), 'index')
            t = loops.note(loops.canon(w, True))
            return And(core.mk_bool(z3.And(t >= 0, t < n)), f(SI(t)))
        out = [False]
        for t in (p.memo.get('code', ()) if code else loops.primary()):
            if not p.implied(z3.Not(z3.And(t >= 0, t < n))):
                out.append(And(core.mk_bool(z3.And(t >= 0, t < n)), f(SI(t))))
        return Or(*out)
    return Or(*[f(k) for k in range(len(v))])


class Fold:
    """acc(0) = init, acc(k + 1) = step(acc(k), k)"""

    def __init__(self, name, init, step):
        self.name, self.init, self.step = name, init, step

    def at(self, k):
        p = core.cur()
        tab = p.memo.setdefault(('fold', self.name), [])
        if not tab:
            tab.append((loops.canon(z3.IntVal(0)), self.init))
        t = loops.canon(loops.ival(k))
        found = [x for u, x in tab if u.eq(t)]
        if found:
            x = found[0]
        else:
            x = SB(p.fresh_bool(self.name)) if isinstance(self.init, (bool, SB)) else SR(p.fresh(self.name))
            tab.append((t, x))
        eq = (lambda a, b: core.bexpr(a) == core.bexpr(b)) if isinstance(x, (bool, SB)) else (lambda a, b: num(a).e == num(b).e)
        done = p.memo.setdefault(('folded', self.name), set())
        for u, y in list(tab):
            if u.eq(t):
                continue
            if not found and not p.implied(t != u):
                p.assume(z3.Implies(t == u, eq(x, y)), 'def-' + self.name)
            for (lo, a), (hi, b) in (((u, y), (t, x)), ((t, x), (u, y))):
                key = (lo.get_id(), hi.get_id())
                if key not in done and p.implied(hi == lo + 1):
                    done.add(key)
                    p.assume(eq(b, self.step(a, SI(lo))), 'def-' + self.name)
        return x


def Induct(name, n, claim):
    """claim(k) for every k in 0 .. n, by induction; then available for k = n"""
    if core.CUR is None or core.cur().in_summary:
        return
    p = core.cur()
    cid = p.contract.id
    p.oblige(f'{cid}: {name}, by induction: start', claim(0), 'step')
    k = p.fresh_int('k')
    n = loops.ival(n)
    p.assume(z3.Implies(n > 0, z3.And(k >= 0, k < n)), 'index')
    t = loops.canon(k)
    p.oblige(f'{cid}: {name}, by induction: step', Implies(And(core.mk_bool(n > 0), claim(SI(t))), claim(SI(z3.simplify(t + 1)))), 'step')
    p.assume(core.bexpr(claim(SI(n))), 'step')
