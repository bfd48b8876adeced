"""Stand-ins for `math` and the builtins, in two arithmetics.

sym : exact reals, as z3 terms (core.SR); used to generate obligations
hp  : 60-digit floating point (mpmath); used to confirm that a failing input is not a rounding artefact
"""
from __future__ import annotations
import builtins
import math
import types
from fractions import Fraction
import z3
import mpmath
from . import core
from .core import SR, SI, SB, Unsupported, cur, num, ensure_num, rv

MPF = mpmath.mpf
mpmath.mp.dps = 60


def as_num(v):
    """what math.* does with its argument: a number, or anything with __float__"""
    n = num(v)
    if n is not None:
        return n
    if isinstance(v, str) or v is None:
        raise TypeError(f'must be real number, not {type(v).__name__}')
    f = getattr(type(v), '__float__', None)
    if f is None:
        raise TypeError(f'must be real number, not {type(v).__name__}')
    return ensure_num(f(v))


def as_deg(x):
    """degrees of an angle given in radians"""
    if x.rad is not None:
        return x.rad
    if x.q is not None and x.q == 0:
        return x
    return SR(inv=x)


# ------------------------------------------------------------------ symbolic math module

def m_sqrt(x):
    return core.s_sqrt(as_num(x))


def m_fabs(x):
    return core.s_abs(as_num(x))


def m_pow(a, b):
    a = as_num(a)
    b = b if isinstance(b, (int, SI)) else as_num(b)
    return num(core.power(a, b))


def m_cos(x):
    return mkr(core.trig(as_deg(as_num(x)))[0])


def m_sin(x):
    return mkr(core.trig(as_deg(as_num(x)))[1])


def m_tan(x):
    c, s = core.trig(as_deg(as_num(x)))
    c, s = mkr(c), mkr(s)
    if bool(c == 0):
        return SR(cur().fresh('tan_pole'))
    return s / c


def mkr(e):
    s = z3.simplify(e)
    if z3.is_rational_value(s):
        return SR(q=Fraction(s.numerator_as_long(), s.denominator_as_long()))
    return SR(e)


def register_angle(key, c, s, extra):
    """a fresh angle (degrees) with known cosine and sine"""
    p = cur()
    if key in p.memo:
        return p.memo[key][0]
    d = p.fresh('ang')
    p.trigs.append((z3.simplify(d, som=True), c, s))
    p.trig_args.append(SR(d))
    for e in extra(d):
        p.assume(e, 'ax-inverse-trig')
    r = SR(d)
    p.memo[key] = (r, c, s)
    trig_link(p, d, c, s)
    return r


def trig_link(p, d, c, s):
    """ground instances: equal / opposite unit vectors are equal / opposite angles mod 360"""
    for (u, c2, s2) in list(p.trigs):
        if u.eq(z3.simplify(d, som=True)):
            continue
        k = z3.Int(f'turn!{len(p.pc)}')
        p.assume(z3.Implies(z3.And(c == c2, s == s2), d - u == 360 * z3.ToReal(k)), 'ax-trig-injective')
        k2 = z3.Int(f'turnh!{len(p.pc)}')
        p.assume(z3.Implies(z3.And(c == -c2, s == -s2), d - u == 180 + 360 * z3.ToReal(k2)), 'ax-trig-injective')


def m_acos(v):
    v = as_num(v)
    if bool(core.s_or(v > 1, v < -1)):
        raise ValueError('math domain error')
    if v.q is not None and v.q in (1, 0, -1):
        return SR(rad=SR(q=Fraction({1: 0, 0: 90, -1: 180}[int(v.q)])))
    s = core.sqrt_term(1 - v.e * v.e)
    d = register_angle(('acos', core.tid(z3.simplify(v.e, som=True))), v.e, s,
                       lambda d: [d >= 0, d <= 180, (d < 90) == (v.e > 0), (d > 90) == (v.e < 0),
                                  (d == 0) == (v.e == 1), (d == 180) == (v.e == -1)])
    return SR(rad=d)


def m_asin(v):
    v = as_num(v)
    if bool(core.s_or(v > 1, v < -1)):
        raise ValueError('math domain error')
    if v.q is not None and v.q in (1, 0, -1):
        return SR(rad=SR(q=Fraction({1: 90, 0: 0, -1: -90}[int(v.q)])))
    c = core.sqrt_term(1 - v.e * v.e)
    d = register_angle(('asin', core.tid(z3.simplify(v.e, som=True))), c, v.e,
                       lambda d: [d >= -90, d <= 90, (d > 0) == (v.e > 0), (d < 0) == (v.e < 0),
                                  (d == 90) == (v.e == 1), (d == -90) == (v.e == -1)])
    return SR(rad=d)


def m_atan(v):
    v = as_num(v)
    if v.q is not None and v.q == 0:
        return SR(q=Fraction(0))
    p = cur()
    key = ('atan', core.tid(z3.simplify(v.e, som=True)))
    if key in p.memo:
        return SR(rad=p.memo[key][0])
    c, s = p.fresh('cosd'), p.fresh('sind')
    p.assume(z3.And(c > 0, s == v.e * c, c * c + s * s == 1), 'ax-inverse-trig')
    d = register_angle(key, c, s, lambda d: [d > -90, d < 90, (d > 0) == (v.e > 0), (d < 0) == (v.e < 0)])
    return SR(rad=d)


def m_atan2(y, x):
    y, x = as_num(y), as_num(x)
    if y.q is not None and x.q is not None:
        if y.q == 0:
            return SR(rad=SR(q=Fraction(0 if x.q >= 0 else 180)))
        if x.q == 0:
            return SR(rad=SR(q=Fraction(90 if y.q > 0 else -90)))
    if bool(core.s_and(x == 0, y == 0)):
        return SR(q=Fraction(0))
    p = cur()
    key = ('atan2', core.tid(z3.simplify(y.e, som=True)), core.tid(z3.simplify(x.e, som=True)))
    if key in p.memo:
        return SR(rad=p.memo[key][0])
    ye, xe = y.e, x.e
    r = core.sqrt_term(xe * xe + ye * ye)
    c, s = p.fresh('cosd'), p.fresh('sind')
    p.assume(r > 0, 'ax-inverse-trig')
    p.assume(z3.And(r * c == xe, r * s == ye), 'ax-inverse-trig')
    p.assume(c * c + s * s == 1, 'ax-inverse-trig')
    d = register_angle(key, c, s, lambda d: [
        d > -180, d <= 180,
        (ye > 0) == z3.And(d > 0, d < 180), (ye < 0) == (d < 0),
        z3.Implies(z3.And(ye == 0, xe > 0), d == 0), z3.Implies(z3.And(ye == 0, xe < 0), d == 180),
        (xe > 0) == z3.And(d > -90, d < 90), (xe < 0) == z3.Or(d > 90, d < -90)])
    p.memo[key + ('keep',)] = (y.e, x.e)
    return SR(rad=d)


def m_exp(x):
    x = as_num(x)
    if x.q is not None and x.q == 0:
        return SR(q=Fraction(1))
    p = cur()
    t = z3.simplify(x.e, som=True)
    return SR(explog(p, t, None)[1])


def m_log(x, base=None):
    x = as_num(x)
    if bool(x <= 0):
        raise ValueError('math domain error')
    if x.q is not None and x.q == 1:
        r = SR(q=Fraction(0))
    else:
        p = cur()
        r = SR(explog(p, None, z3.simplify(x.e, som=True))[0])
    if base is not None:
        return r / m_log(base)
    return r


def explog(p, t, v):
    """pairs (t, v) with v = exp(t); monotone, exp(0) = 1"""
    tab = p.memo.setdefault('explog', [])
    for (a, b) in tab:
        if t is not None and a.eq(t) or v is not None and b.eq(v):
            return a, b
    a = t if t is not None else p.fresh('log')
    b = v if v is not None else p.fresh('exp')
    p.assume(b > 0, 'ax-exp')
    p.assume((a > 0) == (b > 1), 'ax-exp')
    p.assume((a < 0) == (b < 1), 'ax-exp')
    for (a2, b2) in tab:
        p.assume((a < a2) == (b < b2), 'ax-exp')
        p.assume((a == a2) == (b == b2), 'ax-exp')
    tab.append((a, b))
    return a, b


def m_hypot(*xs):
    t = SR(q=Fraction(0))
    for x in xs:
        x = as_num(x)
        t = t + x * x
    return core.s_sqrt(t)


def m_dist(p, q):
    return m_hypot(*[as_num(a) - as_num(b) for a, b in zip(p, q)])


def m_floor(x):
    return core.s_floor(x if isinstance(x, (int, SI)) else as_num(x))


def m_ceil(x):
    if isinstance(x, (int, SI)):
        return x
    return -core.s_floor(-as_num(x))


def m_trunc(x):
    return core.s_trunc(x if isinstance(x, (int, SI)) else as_num(x))


def m_isclose(a, b, *, rel_tol=None, abs_tol=0):
    a, b = as_num(a), as_num(b)
    rel = num(rel_tol) if rel_tol is not None else SR(q=Fraction('1e-9'))
    return core.s_abs(a - b) <= core.s_max2(rel * core.s_max2(core.s_abs(a), core.s_abs(b)), num(abs_tol))


def m_copysign(a, b):
    a, b = as_num(a), as_num(b)
    m = core.s_abs(a)
    if bool(b >= 0):
        return m
    return -m


def m_radians(x):
    return as_num(x) * DEG2RAD


def m_degrees(x):
    return as_deg(as_num(x))


def m_fsum(xs):
    t = SR(q=Fraction(0))
    for x in xs:
        t = t + as_num(x)
    return t


def m_prod(xs, start=1):
    t = start
    for x in xs:
        t = t * x
    return t


def m_remainder(a, b):
    a, b = as_num(a), as_num(b)
    q = core.s_round(a / b)
    return a - b * num(q)


def m_isinf(x):
    n = as_num(x)
    if cur().used_inf:
        INF = z3.Real('INF')
        return core.mk_bool(z3.Or(n.e >= INF, n.e <= -INF))
    return False


DEG2RAD = core.PI / SR(q=Fraction(180))


def make_math():
    m = types.ModuleType('math')
    m.__dict__.update(
        sqrt=m_sqrt, fabs=m_fabs, pow=m_pow, cos=m_cos, sin=m_sin, tan=m_tan, acos=m_acos, asin=m_asin,
        atan=m_atan, atan2=m_atan2, exp=m_exp, log=m_log, hypot=m_hypot, dist=m_dist, floor=m_floor, ceil=m_ceil,
        trunc=m_trunc, isclose=m_isclose, copysign=m_copysign, radians=m_radians, degrees=m_degrees,
        fmod=lambda a, b: core.c_fmod(as_num(a), as_num(b)), fsum=m_fsum, prod=m_prod, remainder=m_remainder,
        pi=core.PI, tau=core.PI * 2, isnan=lambda x: (as_num(x), False)[1],
        isinf=m_isinf, isfinite=lambda x: core.s_not(m_isinf(x)))

    def getattr_(name):
        if name == 'inf':
            return cur().inf()
        if name == 'e':
            return m_exp(1)
        raise Unsupported(f'math.{name}')
    m.__getattr__ = getattr_
    return m


# ------------------------------------------------------------------ symbolic builtins

class FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, SR))

    def __call__(cls, x=0):
        if isinstance(x, str):
            t = x.strip().lower()
            if t.lstrip('+-') in ('inf', 'infinity'):
                return -cur().inf() if t.startswith('-') else cur().inf()
            return SR(q=Fraction(x))
        return as_num(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class Float(metaclass=FloatMeta):
    @staticmethod
    def is_integer(x):
        return as_num(x).is_integer()


class IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.int, SI, SB))

    def __call__(cls, x=0, *a):
        if isinstance(x, str) or a:
            return builtins.int(x, *a)
        if isinstance(x, builtins.bool):
            return builtins.int(x)
        if isinstance(x, SB):
            return x.as_int()
        if isinstance(x, (builtins.int, SI)):
            return x
        n = num(x)
        if n is None:
            f = getattr(type(x), '__int__', None)
            if f is None:
                raise TypeError(f"int() argument must be a string or a number, not '{type(x).__name__}'")
            return f(x)
        return core.s_trunc(n)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class Int(metaclass=IntMeta):
    pass


class BoolMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.bool, SB))

    def __call__(cls, x=False):
        if isinstance(x, SB):
            return x
        return builtins.bool(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.bool

    def __hash__(cls):
        return hash(builtins.bool)


class Bool(metaclass=BoolMeta):
    pass


def b_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, (builtins.float, SR)):
            return Float
        if isinstance(x, (builtins.bool, SB)):
            return Bool
        if isinstance(x, (builtins.int, SI)):
            return Int
        return builtins.type(x)
    return builtins.type(*a)


def b_isinstance(o, c):
    if isinstance(c, tuple):
        return any([b_isinstance(o, k) for k in c])
    if c is Float or c is builtins.float:
        return FloatMeta.__instancecheck__(Float, o)
    if c is Int or c is builtins.int:
        return IntMeta.__instancecheck__(Int, o)
    if c is Bool or c is builtins.bool:
        return BoolMeta.__instancecheck__(Bool, o)
    if isinstance(o, (SR, SI)):
        import numbers
        if c in (numbers.Number, numbers.Real, numbers.Complex):
            return True
        if c in (numbers.Integral, numbers.Rational):
            return isinstance(o, SI)
    return builtins.isinstance(o, c)


def _symbolic(xs):
    return any(isinstance(x, (SR, SI, SB)) for x in xs)


def b_min(*a, key=None, default=None, **kw):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs:
        if default is not None:
            return default
        raise ValueError('min() arg is an empty sequence')
    if key is None and all(isinstance(x, (SR, SI, int, float)) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = core.s_min2(r, x)
        return r
    best, bk = xs[0], (key(xs[0]) if key else xs[0])
    for x in xs[1:]:
        k = key(x) if key else x
        if k < bk:
            best, bk = x, k
    return best


def b_max(*a, key=None, default=None, **kw):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs:
        if default is not None:
            return default
        raise ValueError('max() arg is an empty sequence')
    if key is None and all(isinstance(x, (SR, SI, int, float)) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = core.s_max2(r, x)
        return r
    best, bk = xs[0], (key(xs[0]) if key else xs[0])
    for x in xs[1:]:
        k = key(x) if key else x
        if k > bk:
            best, bk = x, k
    return best


def b_abs(x):
    if isinstance(x, (SR,)):
        return core.s_abs(x)
    return builtins.abs(x)


def b_round(x, n=None):
    if isinstance(x, SR):
        if n is None:
            return core.s_round(x)
        m = SR(q=Fraction(10) ** n)
        return num(core.s_round(x * m)) / m
    if isinstance(x, SI):
        return x
    return builtins.round(x, n) if n is not None else builtins.round(x)


def b_pow(a, b, m=None):
    if m is None:
        return vc_pow(a, b)
    return builtins.pow(a, b, m)


def b_divmod(a, b):
    return a // b, a % b


def b_sum(xs, start=0):
    t = start
    for x in xs:
        t = t + x
    return t


def b_hash(x):
    if isinstance(x, tuple) or isinstance(x, (SR, SI)):
        leaves = []

        def flat(v):
            if isinstance(v, tuple):
                for w in v:
                    flat(w)
            elif isinstance(v, (SR, SI, float, int, bool)):
                leaves.append(num(v).e)
            elif isinstance(v, SB):
                leaves.append(num(v).e)
            else:
                leaves.append(rv(Fraction(b_hash(v) % 1000003)) if not hasattr(type(v), '__dict__') or isinstance(v, str)
                              else num(b_hash(v)).e)
        flat(x)
        f = z3.Function(f'HASH{len(leaves)}', *([z3.RealSort()] * len(leaves)), z3.IntSort())
        return SI(f(*leaves))
    f = type(x).__hash__
    if f is None:
        raise TypeError(f'unhashable type: {type(x).__name__}')
    return f(x)


def b_str(x='', *a):
    if isinstance(x, (SR, SI, SB)):
        return repr(x)
    return builtins.str(x, *a)


def b_sorted(xs, *, key=None, reverse=False):
    return builtins.sorted(xs, key=key, reverse=reverse)


# helpers the rewritten source calls

def vc_div(a, b):
    if isinstance(a, (int, SI, SB)) and isinstance(b, (int, SI, SB)):
        return num(a) / num(b)
    return a / b


def vc_idiv(a, b):
    if isinstance(a, (int, SI, SB)) and isinstance(b, (int, SI, SB)):
        return num(a) / num(b)
    import operator
    return operator.itruediv(a, b)


def vc_pow(a, b):
    if isinstance(a, (int, SI, SR, float, SB)) and isinstance(b, (int, SI, SR, float, SB)):
        if isinstance(a, int) and isinstance(b, int) and b >= 0:
            return a ** b
        return core.power(a, b)
    return a ** b


def vc_f(text):
    return core.f_literal(text)


# ------------------------------------------------------------------ high-precision shims

class HFloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, MPF))

    def __call__(cls, x=0):
        if isinstance(x, str):
            return MPF(x)
        return h_num(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class HFloat(metaclass=HFloatMeta):
    pass


def h_num(v):
    if isinstance(v, MPF):
        return v
    if isinstance(v, (int, float)):
        return MPF(v)
    f = getattr(type(v), '__float__', None)
    if f is None or isinstance(v, str):
        raise TypeError(f'must be real number, not {type(v).__name__}')
    return h_num(f(v))


def h_type(*a):
    if len(a) == 1:
        if isinstance(a[0], (builtins.float, MPF)):
            return HFloat
        return builtins.type(a[0])
    return builtins.type(*a)


def h_isinstance(o, c):
    if isinstance(c, tuple):
        return any([h_isinstance(o, k) for k in c])
    if c is HFloat or c is builtins.float:
        return isinstance(o, (builtins.float, MPF))
    if isinstance(o, MPF):
        import numbers
        if c in (numbers.Number, numbers.Real, numbers.Complex):
            return True
    return builtins.isinstance(o, c)


def _dom(f):
    def g(*a):
        r = f(*[h_num(x) for x in a])
        if isinstance(r, mpmath.mpc):
            raise ValueError('math domain error')
        return r
    return g


def make_math_hp():
    m = types.ModuleType('math')
    mp = mpmath
    def log(x, base=None):
        x = h_num(x)
        if x <= 0:
            raise ValueError('math domain error')
        r = mp.log(x)
        return r if base is None else r / log(base)

    def pw(a, b):
        a, b = h_num(a), h_num(b)
        if b == int(b):
            return a ** int(b)
        return mp.power(a, b)

    def fmod(a, b):
        a, b = h_num(a), h_num(b)
        if b == 0:
            raise ValueError('math domain error')
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    m.__dict__.update(
        sqrt=_dom(mp.sqrt), fabs=_dom(abs), pow=pw, cos=_dom(mp.cos), sin=_dom(mp.sin),
        tan=_dom(mp.tan), acos=_dom(mp.acos), asin=_dom(mp.asin), atan=_dom(mp.atan), atan2=_dom(mp.atan2),
        exp=_dom(mp.exp), log=log, hypot=lambda *a: mp.sqrt(sum((h_num(x) ** 2 for x in a), MPF(0))),
        floor=lambda x: int(mp.floor(h_num(x))), ceil=lambda x: int(mp.ceil(h_num(x))),
        trunc=lambda x: int(h_num(x)), fmod=fmod, radians=lambda x: h_num(x) * mp.pi / 180,
        degrees=lambda x: h_num(x) * 180 / mp.pi, pi=mp.mpf(mp.pi), tau=2 * mp.mpf(mp.pi), inf=MPF('inf'),
        copysign=lambda a, b: abs(h_num(a)) if h_num(b) >= 0 else -abs(h_num(a)),
        dist=lambda p, q: mp.sqrt(sum(((h_num(a) - h_num(b)) ** 2 for a, b in zip(p, q)), MPF(0))),
        fsum=lambda xs: sum((h_num(x) for x in xs), MPF(0)), prod=math.prod,
        isclose=lambda a, b, *, rel_tol=1e-9, abs_tol=0: abs(h_num(a) - h_num(b)) <= max(
            rel_tol * max(abs(h_num(a)), abs(h_num(b))), abs_tol),
        isnan=lambda x: bool(mp.isnan(h_num(x))), isinf=lambda x: bool(mp.isinf(h_num(x))),
        isfinite=lambda x: bool(mp.isfinite(h_num(x))), e=mp.mpf(mp.e))
    return m


def hp_div(a, b):
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return MPF(a) / b
    return a / b


def hp_idiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return hp_div(a, b)
    import operator
    return operator.itruediv(a, b)


def hp_pow(a, b):
    if isinstance(a, int) and isinstance(b, int) and b < 0:
        return MPF(a) ** b
    return a ** b


def hp_f(text):
    if float(text) == math.pi:
        return mpmath.mpf(mpmath.pi)
    return MPF(text)
