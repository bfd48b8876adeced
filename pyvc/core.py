"""Symbolic values, path exploration and obligations."""
from __future__ import annotations
import math
from fractions import Fraction
import z3

# --------------------------------------------------------------------------- control


class Control(BaseException):
    """Base of the engine's own control flow (never caught by `except Exception`)."""


class PathEnd(Control):
    """The path is finished (infeasible, or a loop back-edge was reached)."""


class Unsupported(Control):
    """The code left the fragment the generator models."""


class DecisionLimit(Unsupported):
    """Too many symbolic decisions on a single path (unbounded unrolling)."""


CUR = None          # the Path being executed


def cur():
    if CUR is None:
        raise Unsupported('symbolic value used outside a path')
    return CUR


# --------------------------------------------------------------------------- numbers

ZERO = Fraction(0)
PI_Z = z3.Real('PI')


def rv(q):
    q = Fraction(q)
    return z3.RealVal(f'{q.numerator}/{q.denominator}') if q.denominator != 1 else z3.RealVal(q.numerator)


class SR:
    """A real number: exact rational (q), or z3 term, possibly tagged as an angle in radians.

    rad=d  : the value is d*pi/180 (d in degrees)
    inv=k  : the value is k*180/pi
    """
    __slots__ = ('q', '_e', 'rad', 'inv')

    def __init__(self, e=None, q=None, rad=None, inv=None):
        self.q = q
        self._e = e
        self.rad = rad
        self.inv = inv

    @property
    def e(self):
        if self._e is None:
            if self.q is not None:
                self._e = rv(self.q)
            elif self.rad is not None:
                cur().need_pi()
                self._e = self.rad.e * PI_Z / 180
            elif self.inv is not None:
                # k*180/pi : introduce through division
                cur().need_pi()
                self._e = div_terms(self.inv.e * 180, PI_Z)
        return self._e

    @property
    def plain(self):
        return self.rad is None and self.inv is None

    def __repr__(self):
        if self.q is not None:
            return f'<{self.q}>'
        return f'<{self.e}>'

    def __format__(self, spec):
        return repr(self)

    # arithmetic -----------------------------------------------------------
    def __neg__(self):
        if self.q is not None:
            return SR(q=-self.q)
        if self.rad is not None:
            return SR(rad=-self.rad)
        if self.inv is not None:
            return SR(inv=-self.inv)
        return SR(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __add__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return add(self, o)

    def __radd__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return add(o, self)

    def __sub__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return add(self, -o)

    def __rsub__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return add(o, -self)

    def __mul__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return mul(self, o)

    def __rmul__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return mul(o, self)

    def __truediv__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return div(self, o)

    def __rtruediv__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return div(o, self)

    def __pow__(self, o, mod=None):
        return power(self, o)

    def __rpow__(self, o):
        return power(num(o), self)

    def __mod__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return py_mod(self, o)

    def __rmod__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return py_mod(o, self)

    def __floordiv__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return py_floordiv(self, o)

    def __rfloordiv__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        return py_floordiv(o, self)

    # comparison -----------------------------------------------------------
    def __lt__(self, o):
        return compare('lt', self, o)

    def __le__(self, o):
        return compare('le', self, o)

    def __gt__(self, o):
        return compare('gt', self, o)

    def __ge__(self, o):
        return compare('ge', self, o)

    def __eq__(self, o):
        return compare('eq', self, o)

    def __ne__(self, o):
        r = compare('eq', self, o)
        if r is NotImplemented:
            return r
        return s_not(r)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if self.q is not None:
            return hash(self.q)
        raise Unsupported('hash of a symbolic number')

    def __float__(self):
        raise Unsupported('float() of a symbolic number in an unmodelled operation')

    def __int__(self):
        raise Unsupported('int() of a symbolic number in an unmodelled operation')

    def __index__(self):
        if self.q is not None:
            raise TypeError("'float' object cannot be interpreted as an integer")
        raise Unsupported('symbolic number as index')

    def __round__(self, n=None):
        if n is None:
            return s_round(self)
        raise Unsupported('round with digits')

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return -s_floor(-self)

    def __trunc__(self):
        return s_trunc(self)

    def is_integer(self):
        if self.q is not None:
            return self.q.denominator == 1
        return SB(z3.IsInt(self.e))


class SI:
    """A symbolic integer."""
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i

    @property
    def e(self):
        return z3.ToReal(self.i)

    def __repr__(self):
        return f'<int {self.i}>'

    def __format__(self, spec):
        return repr(self)

    def _bin(self, o, f, g):
        if isinstance(o, SB):
            o = o.as_int()
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return mk_int(f(self.i, z3.IntVal(o)))
        if isinstance(o, SI):
            return mk_int(f(self.i, o.i))
        return g(num(self), o)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return mk_int(-self.i)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(z3.If(self.i >= 0, self.i, -self.i))

    def __truediv__(self, o):
        return num(self) / o

    def __rtruediv__(self, o):
        return num(o) / num(self)

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mk_int(self.i % o)
        if isinstance(o, SI):
            if bool(SB(o.i == 0)):
                raise ZeroDivisionError('integer modulo by zero')
            if bool(SB(o.i > 0)):
                # the usual case of an index going round: one turn more or less
                for d in (0, -1, 1):
                    e = z3.simplify(self.i + d * o.i)
                    if bool(SB(z3.And(e >= 0, e < o.i))):
                        return mk_int(e)
                return mk_int(self.i % o.i)
            raise Unsupported('modulo by a negative symbolic integer')
        return num(self) % o

    def __rmod__(self, o):
        if isinstance(o, int):
            return SI(z3.IntVal(o)) % self
        return num(o) % num(self)

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mk_int(self.i / o)
        return num(self) // o

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(num(o), self)

    def _cmp(self, op, o):
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return mk_bool(CMP[op](self.i, z3.IntVal(o)))
        if isinstance(o, SI):
            return mk_bool(CMP[op](self.i, o.i))
        return compare(op, num(self), o)

    def __lt__(self, o):
        return self._cmp('lt', o)

    def __le__(self, o):
        return self._cmp('le', o)

    def __gt__(self, o):
        return self._cmp('gt', o)

    def __ge__(self, o):
        return self._cmp('ge', o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp('eq', o)

    def __ne__(self, o):
        return s_not(self == o)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        raise Unsupported('hash of a symbolic integer')

    def __index__(self):
        raise Unsupported('symbolic integer used as a concrete index')

    def __float__(self):
        raise Unsupported('float() of symbolic int')

    def __int__(self):
        raise Unsupported('int() of symbolic int')

    def __round__(self, n=None):
        return self

    def is_integer(self):
        return True


class SB:
    """A symbolic truth value; using it as a condition forks the path."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def as_int(self):
        return SI(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __repr__(self):
        return f'<bool {self.e}>'

    def __and__(self, o):
        return s_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return s_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return mk_bool(z3.Xor(self.e, bexpr(o)))
    __rxor__ = __xor__

    def __invert__(self):
        raise Unsupported('~ of a boolean')

    def __eq__(self, o):
        if isinstance(o, (bool, SB)):
            return mk_bool(self.e == bexpr(o))
        if isinstance(o, (int, SI, SR)):
            return self.as_int() == o
        return False

    def __ne__(self, o):
        return s_not(self == o)

    def __hash__(self):
        raise Unsupported('hash of symbolic bool')

    def __add__(self, o):
        return self.as_int() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        return self.as_int() * o
    __rmul__ = __mul__

    def __neg__(self):
        return -self.as_int()

    def __lt__(self, o):
        return self.as_int() < o

    def __gt__(self, o):
        return self.as_int() > o

    def __le__(self, o):
        return self.as_int() <= o

    def __ge__(self, o):
        return self.as_int() >= o

    def __mod__(self, o):
        return self.as_int() % o

    def __format__(self, spec):
        return repr(self)


CMP = {
    'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
    'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
    'eq': lambda a, b: a == b,
}


def mk_bool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SB(e)


def mk_int(e):
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    return SI(s)


def tid(e):
    """identity of a term, which is kept alive for the rest of the path"""
    cur().kept.append(e)
    return e.get_id()


def bexpr(b):
    if isinstance(b, SB):
        return b.e
    if isinstance(b, bool):
        return z3.BoolVal(b)
    if z3.is_expr(b):
        return b
    raise Unsupported(f'not a boolean: {b!r}')


def s_not(a):
    if isinstance(a, bool):
        return not a
    return SB(z3.Not(a.e))


def s_and(*xs):
    return mk_bool(z3.And(*[bexpr(x) for x in xs]))


def s_or(*xs):
    return mk_bool(z3.Or(*[bexpr(x) for x in xs]))


def f_literal(text):
    """a float literal of the source, read as the exact decimal it denotes"""
    f = float(text)
    if f == math.pi:
        return PI
    return SR(q=Fraction(text))


def num(v):
    """coerce to SR; None when v is not a number"""
    if isinstance(v, SR):
        return v
    if isinstance(v, bool):
        return SR(q=Fraction(int(v)))
    if isinstance(v, int):
        return SR(q=Fraction(v))
    if isinstance(v, SI):
        return SR(v.e)
    if isinstance(v, SB):
        return SR(v.as_int().e)
    if isinstance(v, Fraction):
        return SR(q=v)
    if isinstance(v, float):
        if math.isinf(v):
            return cur().inf() if v > 0 else -cur().inf()
        if math.isnan(v):
            raise Unsupported('nan')
        if v == math.pi:
            return PI
        return SR(q=Fraction(repr(v)))
    return None


def ensure_num(v):
    n = num(v)
    if n is None:
        raise TypeError(f'must be real number, not {type(v).__name__}')
    return n


def add(a, b):
    if a.q is not None and b.q is not None:
        return SR(q=a.q + b.q)
    if a.q == 0:
        return b
    if b.q == 0:
        return a
    if a.rad is not None and b.rad is not None:
        return SR(rad=a.rad + b.rad)
    if a.inv is not None and b.inv is not None:
        return SR(inv=a.inv + b.inv)
    return SR(a.e + b.e)


def mul(a, b):
    if a.q is not None and b.q is not None:
        return SR(q=a.q * b.q)
    for x, y in ((a, b), (b, a)):
        if x.q is not None:
            if x.q == 0:
                return SR(q=ZERO)
            if x.q == 1:
                return y
            if x.q == -1:
                return -y
    if a.plain and b.plain:
        return SR(a.e * b.e)
    if a.rad is not None and b.inv is not None:
        return a.rad * b.inv
    if a.inv is not None and b.rad is not None:
        return a.inv * b.rad
    if a.plain and b.rad is not None:
        return SR(rad=a * b.rad)
    if b.plain and a.rad is not None:
        return SR(rad=a.rad * b)
    if a.plain and b.inv is not None:
        return SR(inv=a * b.inv)
    if b.plain and a.inv is not None:
        return SR(inv=a.inv * b)
    return SR(a.e * b.e)


def div(a, b):
    if b.q is not None:
        if b.q == 0:
            raise ZeroDivisionError('float division by zero')
        if a.q is not None:
            return SR(q=a.q / b.q)
        return mul(a, SR(q=1 / b.q))
    if b.rad is not None:
        if a.rad is not None:
            return div(a.rad, b.rad)
        if a.plain:
            return SR(inv=div(a, b.rad))
    if b.inv is not None:
        if a.inv is not None:
            return div(a.inv, b.inv)
        if a.plain:
            return SR(rad=div(a, b.inv))
    if b.plain:
        if a.rad is not None:
            return SR(rad=div(a.rad, b))
        if a.inv is not None:
            return SR(inv=div(a.inv, b))
    if bool(b == 0):
        raise ZeroDivisionError('float division by zero')
    return SR(div_terms(a.e, b.e))


def is_zero(e):
    """the polynomial e is identically 0"""
    e = z3.simplify(e, som=True)
    return z3.is_rational_value(e) and e.numerator_as_long() == 0


def div_terms(x, y):
    """x / y with y != 0 on the path: a fresh quotient defined by quotient * y == x"""
    p = cur()
    key = ('div', tid(x), tid(y))
    if key not in p.memo:
        r = p.fresh('quot')
        p.assume(r * y == x, 'def-quotient')
        p.memo[key] = (r, x, y)
    return p.memo[key][0]


def power(a, b):
    """a ** b"""
    if isinstance(b, (SR,)) and b.q is not None and b.q.denominator == 1:
        b = int(b.q)
    elif isinstance(b, float) and b == int(b):
        b = int(b)
    a = num(a)
    if isinstance(b, int) and not isinstance(b, bool):
        if b == 0:
            return SR(q=Fraction(1))
        if b < 0:
            return div(SR(q=Fraction(1)), power(a, -b))
        if b <= 8:
            r = a
            for _ in range(b - 1):
                r = r * a
            return r
    if isinstance(b, SR) and b.q == Fraction(1, 2):
        return s_sqrt(a)
    if isinstance(b, SI):
        return SR(cur().pow_term(a.e, b.i))
    raise Unsupported('power with this exponent')


def compare(op, a, b):
    b = num(b)
    if b is None:
        return NotImplemented
    if a.q is not None and b.q is not None:
        return {'lt': a.q < b.q, 'le': a.q <= b.q, 'gt': a.q > b.q,
                'ge': a.q >= b.q, 'eq': a.q == b.q}[op]
    if a.rad is not None and b.rad is not None:
        return compare(op, a.rad, b.rad)
    if a.rad is not None and b.q == 0:
        return compare(op, a.rad, b)
    if b.rad is not None and a.q == 0:
        return compare(op, a, b.rad)
    if CUR is not None and CUR.rel:
        return mk_bool(z3.simplify(CMP[op](a.e - b.e, rv(0)), som=True))
    return mk_bool(CMP[op](a.e, b.e))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    a, b = num(a), num(b)
    if a.rad is not None and b.rad is not None:
        return SR(rad=ite(c, a.rad, b.rad))
    return SR(z3.If(bexpr(c), a.e, b.e))


def s_abs(x):
    x = num(x)
    if x.q is not None:
        return SR(q=abs(x.q))
    if x.rad is not None:
        return SR(rad=s_abs(x.rad))
    if CUR is not None:
        if CUR.implied(x.e >= 0):
            return x
        if CUR.implied(x.e <= 0):
            return -x
    return SR(z3.If(x.e >= 0, x.e, -x.e))


def s_min2(a, b):
    """Python's min(a, b): a unless b < a"""
    if isinstance(a, (int, SI)) and isinstance(b, (int, SI)):
        if isinstance(a, int) and isinstance(b, int):
            return min(a, b)
        ai, bi = (z3.IntVal(x) if isinstance(x, int) else x.i for x in (a, b))
        return mk_int(z3.If(bi < ai, bi, ai))
    x, y = num(a), num(b)
    if x.q is not None and y.q is not None:
        return b if y.q < x.q else a
    return SR(z3.If(y.e < x.e, y.e, x.e))


def s_max2(a, b):
    if isinstance(a, (int, SI)) and isinstance(b, (int, SI)):
        if isinstance(a, int) and isinstance(b, int):
            return max(a, b)
        ai, bi = (z3.IntVal(x) if isinstance(x, int) else x.i for x in (a, b))
        return mk_int(z3.If(bi > ai, bi, ai))
    x, y = num(a), num(b)
    if x.q is not None and y.q is not None:
        return b if y.q > x.q else a
    return SR(z3.If(y.e > x.e, y.e, x.e))


def isqrt_exact(q):
    n, d = q.numerator, q.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


def s_sqrt(x):
    x = ensure_num(x)
    if x.q is not None:
        if x.q < 0:
            raise ValueError('math domain error')
        r = isqrt_exact(x.q)
        if r is not None:
            return SR(q=r)
    elif bool(x < 0):
        raise ValueError('math domain error')
    return SR(sqrt_term(x.e))


def sqrt_term(t):
    p = cur()
    key = ('sqrt', tid(z3.simplify(t, som=True)))
    if key not in p.memo:
        r = p.fresh('sqrt')
        p.assume(r >= 0, 'def-sqrt')
        p.assume(r * r == t, 'def-sqrt')
        p.memo[key] = (r, t, z3.simplify(t, som=True))
    return p.memo[key][0]


def s_floor(x):
    if isinstance(x, (int, SI)):
        return x
    x = ensure_num(x)
    if x.q is not None:
        return math.floor(x.q)
    p = cur()
    key = ('floor', tid(x.e))
    if key not in p.memo:
        k = p.fresh_int('floor')
        p.assume(z3.And(z3.ToReal(k) <= x.e, x.e < z3.ToReal(k) + 1), 'def-floor')
        p.memo[key] = (k, x.e)
    return SI(p.memo[key][0])


def s_trunc(x):
    if isinstance(x, (int, SI)):
        return x
    x = ensure_num(x)
    if x.q is not None:
        return math.trunc(x.q)
    if bool(x >= 0):
        return s_floor(x)
    return -s_floor(-x)


def s_round(x):
    """round half to even"""
    if isinstance(x, (int, SI)):
        return x
    x = ensure_num(x)
    if x.q is not None:
        return round(x.q)
    p = cur()
    k = p.fresh_int('round')
    d = x.e - z3.ToReal(k)
    p.assume(z3.And(d >= rv(Fraction(-1, 2)), d <= rv(Fraction(1, 2)),
                    z3.Implies(z3.Or(d == rv(Fraction(1, 2)), d == rv(Fraction(-1, 2))), k % 2 == 0)),
             'def-round')
    return SI(k)


def py_floordiv(a, b):
    if bool(b == 0):
        raise ZeroDivisionError('float floor division by zero')
    return num(s_floor(div(a, b)))


def py_mod(a, b):
    """Python float %: result has the sign of b"""
    if b.q is not None and b.q == 0 or (b.q is None and bool(b == 0)):
        raise ZeroDivisionError('float modulo')
    if a.q is not None and b.q is not None:
        return SR(q=a.q % b.q)
    p = cur()
    key = ('mod', tid(a.e), tid(b.e))
    if key not in p.memo:
        k = p.fresh_int('modq')
        r = a.e - b.e * z3.ToReal(k)
        if b.q is not None:
            lo, hi = (r >= 0, r < b.e) if b.q > 0 else (r <= 0, r > b.e)
            p.assume(z3.And(lo, hi), 'def-mod')
        else:
            p.assume(z3.If(b.e > 0, z3.And(r >= 0, r < b.e), z3.And(r <= 0, r > b.e)), 'def-mod')
        p.memo[key] = (r, a.e, b.e)
    return SR(p.memo[key][0])


def c_fmod(a, b):
    """math.fmod: truncated quotient, result has the sign of a"""
    a, b = ensure_num(a), ensure_num(b)
    if b.q is not None and b.q == 0 or (b.q is None and bool(b == 0)):
        raise ValueError('math domain error')
    if a.q is not None and b.q is not None:
        r = abs(a.q) % abs(b.q)
        return SR(q=r if a.q >= 0 else -r)
    p = cur()
    key = ('fmod', tid(a.e), tid(b.e))
    if key not in p.memo:
        k = p.fresh_int('fmodq')
        r = a.e - b.e * z3.ToReal(k)
        ab = z3.If(b.e >= 0, b.e, -b.e) if b.q is None else rv(abs(b.q))
        p.assume(z3.If(a.e >= 0, z3.And(r >= 0, r < ab), z3.And(r <= 0, r > -ab)), 'def-fmod')
        p.memo[key] = (r, a.e, b.e)
    return SR(p.memo[key][0])


PI = SR(rad=SR(q=Fraction(180)))


# --------------------------------------------------------------------------- trigonometry
# COSD / SIND : cosine and sine of an angle in degrees; each distinct argument gets a pair of
# real constants, related by the (ground instances of the) axioms listed in `trig_axioms`.

SPECIAL = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}


def lin_const(t):
    """value of a constant z3 real term, or None"""
    s = z3.simplify(t, som=True)
    if z3.is_rational_value(s):
        return Fraction(s.numerator_as_long(), s.denominator_as_long())
    return None


def period_shift(t):
    """t (degrees) == 90*j + 360*(integer combination)?  return j mod 4, else None"""
    s = z3.simplify(t, som=True)
    terms = s.children() if z3.is_add(s) else [s]
    j = Fraction(0)
    for u in terms:
        if z3.is_rational_value(u):
            j += Fraction(u.numerator_as_long(), u.denominator_as_long())
            continue
        coef, base = Fraction(1), u
        if z3.is_mul(u) and z3.is_rational_value(u.arg(0)) and u.num_args() == 2:
            coef, base = Fraction(u.arg(0).numerator_as_long(), u.arg(0).denominator_as_long()), u.arg(1)
        if not (z3.is_app(base) and base.decl().kind() == z3.Z3_OP_TO_REAL):
            return None
        if (coef / 360).denominator != 1:
            return None
    if (j / 90).denominator != 1:
        return None
    return int(j / 90) % 4


def trig(deg):
    """(cos, sin) z3 terms of an angle given in degrees (SR)"""
    p = cur()
    if deg.q is not None:
        r = deg.q % 360
        if r in SPECIAL:
            c, s = SPECIAL[r]
            return rv(c), rv(s)
    t = z3.simplify(deg.e, som=True)
    for (u, c, s) in p.trigs:
        if u.eq(t):
            return c, s
        j = period_shift(t - u)
        if j is not None:
            return [(c, s), (-s, c), (-c, -s), (s, -c)][j]
        j = period_shift(t + u)          # t = j*90 - u
        if j is not None:
            return [(c, -s), (s, c), (-c, s), (-s, -c)][j]
    c, s = p.fresh('cosd'), p.fresh('sind')
    p.trigs.append((t, c, s))
    p.assume(c * c + s * s == 1, 'ax-pythagoras')
    quadrants(p, t, c, s)
    p.trig_args.append(deg)
    return c, s


def quadrants(p, t, c, s):
    """signs of cosine and sine of t in [-180, 180] degrees"""
    p.assume(z3.And(z3.Implies(z3.And(t > -90, t < 90), c > 0), z3.Implies(z3.And(t >= -180, t < -90), c < 0),
                    z3.Implies(z3.And(t > 90, t <= 180), c < 0), z3.Implies(z3.And(t > 0, t < 180), s > 0),
                    z3.Implies(z3.And(t > -180, t < 0), s < 0), z3.Implies(z3.Or(t == 0, t == 180, t == -180), s == 0),
                    z3.Implies(z3.Or(t == 90, t == -90), c == 0)), 'ax-trig-quadrants')


LINEAR = {}
FLAT = {}
MONO = {}


def flat(e):
    """e with every product of variables replaced by a variable of its own (weaker than e: what follows linearly does follow);
    also the list of the variables that stand for squares"""
    k = e.get_id()
    if k not in FLAT:
        f = z3.simplify(e, som=True, arith_lhs=True, expand_power=True)
        pairs, squares, seen, st = [], [], set(), [f]
        while st:
            t = st.pop()
            if t.get_id() in seen or not z3.is_app(t):
                continue
            seen.add(t.get_id())
            n = t.decl().kind()
            if n in (z3.Z3_OP_MUL, z3.Z3_OP_POWER) and t.sort().kind() == z3.Z3_REAL_SORT:
                fs = factors(t)
                vs = sorted((u for u in fs if not is_const(u)), key=lambda u: u.get_id())
                if len(vs) > 1:
                    key = tuple(u.get_id() for u in vs)
                    if key not in MONO:
                        MONO[key] = (z3.Real(f'mon!{len(MONO)}'), vs)
                    v = MONO[key][0]
                    if len(key) % 2 == 0 and all(key[i] == key[i + 1] for i in range(0, len(key), 2)):
                        squares.append(v)
                    for u in fs:
                        if is_const(u):
                            v = u * v
                    pairs.append((t, v))
                    continue
            st.extend(t.children())
        FLAT[k] = (e, z3.substitute(f, *pairs) if pairs else f, squares)
    return FLAT[k][1:]


def is_const(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def factors(t):
    n = t.decl().kind()
    if n == z3.Z3_OP_MUL:
        return [u for c in t.children() for u in factors(c)]
    if n == z3.Z3_OP_POWER and is_const(t.arg(1)) and t.arg(1).denominator_as_long() == 1 and 0 < t.arg(1).numerator_as_long() < 13:
        return factors(t.arg(0)) * t.arg(1).numerator_as_long()
    return [t]


def linear(e):
    """no product or quotient of two variable terms, no uninterpreted function"""
    k = e.get_id()
    if k in LINEAR:
        return LINEAR[k][1]
    r = _linear(e)
    LINEAR[k] = (e, r)
    return r


def _linear(e):
    if z3.is_quantifier(e):
        return False
    if not z3.is_app(e):
        return True
    cs = e.children()
    d = e.decl().kind()
    if d == z3.Z3_OP_UNINTERPRETED and cs:
        return False
    if d in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER, z3.Z3_OP_REM):
        if sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in cs) > 1 or d == z3.Z3_OP_POWER:
            return False
    return all(linear(c) for c in cs)


class Path:
    """One execution path: decisions taken, assumptions collected, obligations raised."""
    FEAS_MS = (250, 30)     # time for a feasibility check; once 12 of them gave no answer
    unknowns = 0

    def __init__(self, prefix, name=''):
        self.prefix = prefix
        self.taken = []
        self.alts = []
        self.kept = []
        self.in_summary = False
        self.plain = False      # do not simplify by what is known on the path
        self.pc = []            # (expr, tag)
        self.memo = {}
        self.trigs = []
        self.trig_args = []
        self.n = 0
        self.obls = []
        self.inputs = {}        # name -> z3 const
        self.used_pi = False
        self.used_inf = False
        self.finite = []
        self.stats = {'feas': 0}
        self.max_decisions = 600
        self.name = name
        self.solver = z3.Solver()
        self.solver.set('timeout', self.FEAS_MS[Path.unknowns >= 12])
        self.fast = z3.Solver()         # the linear part of the path condition: decides most branches at once
        self.fast.set('timeout', 250)
        self.decided = {}
        self.notes = []
        self.spec_depth = 0
        self.used_summaries = set()
        self.rel = False        # inputs are offsets from a base point: comparisons are normalised so that it cancels
        self.approx = False     # abstraction used: a sat answer is not a refutation
        self.hidden_state = []
        self.executed = set()
        self.loops = None       # loops.State in contracts about lists of any length
        self.contract = None

    # fresh terms
    def fresh(self, base):
        self.n += 1
        return z3.Real(f'{base}!{self.n}')

    def fresh_int(self, base):
        self.n += 1
        return z3.Int(f'{base}!{self.n}')

    def fresh_bool(self, base):
        self.n += 1
        return z3.Bool(f'{base}!{self.n}')

    def need_pi(self):
        if not self.used_pi:
            self.used_pi = True
            self.assume(z3.And(PI_Z > rv(Fraction('3.14159265358979')),
                               PI_Z < rv(Fraction('3.14159265358980'))), 'ax-pi')

    def inf(self):
        if not self.used_inf:
            self.used_inf = True
            self.assume(z3.Real('INF') > 0, 'ax-inf')
            for f in self.finite:
                self.assume(f(z3.Real('INF')), 'ax-inf')
        return SR(z3.Real('INF'))

    def finite_term(self, e):
        f = lambda INF: z3.And(e < INF, -e < INF)
        self.finite.append(f)
        if self.used_inf:
            self.assume(f(z3.Real('INF')), 'ax-inf')

    def finite_axiom(self, f):
        self.finite.append(f)
        if self.used_inf:
            self.assume(f(z3.Real('INF')), 'ax-inf')

    def pow_term(self, base, n):
        key = ('pow', tid(z3.simplify(base)), tid(z3.simplify(n, som=True)))
        if key not in self.memo:
            f = z3.Function('POW', z3.RealSort(), z3.IntSort(), z3.RealSort())
            t = f(base, n)
            # ground instances of: b^0 = 1, b^(n+1) = b * b^n, sign and range of powers
            self.assume(z3.Implies(n == 0, t == 1), 'ax-pow')
            self.assume(z3.Implies(n == 1, t == base), 'ax-pow')
            self.assume(z3.Implies(base > 0, t > 0), 'ax-pow')
            self.assume(z3.Implies(z3.And(base >= 0, base < 1, n >= 1), z3.And(t >= 0, t <= base)), 'ax-pow')
            self.assume(z3.Implies(z3.And(base > 1, n >= 1), t >= base), 'ax-pow')
            for k, v in list(self.memo.items()):
                if isinstance(k, tuple) and k[0] == 'pow' and k[1] == key[1]:
                    t2, _, n2 = v
                    self.assume(z3.Implies(n == n2 + 1, t == base * t2), 'ax-pow')
                    self.assume(z3.Implies(n2 == n + 1, t2 == base * t), 'ax-pow')
            self.memo[key] = (t, base, n)
        return self.memo[key][0]

    def assume(self, e, tag='assume'):
        e = bexpr(e) if not z3.is_expr(e) else e
        self.pc.append((e, tag))
        self.solver.add(e)
        f, sq = flat(e)
        self.fast.add(f)
        for v in sq:
            self.fast.add(v >= 0)

    def sat(self, e):
        self.stats['feas'] += 1
        self.solver.push()
        self.solver.add(e)
        r = self.solver.check()
        self.solver.pop()
        if r == z3.unknown:
            Path.unknowns += 1
            if Path.unknowns == 12:
                self.solver.set('timeout', self.FEAS_MS[1])
        return r != z3.unsat

    def implied(self, e):
        """e follows linearly from the path condition"""
        if self.plain:
            return False
        f, sq = flat(z3.Not(e))
        self.fast.push()
        self.fast.add(f)
        for v in sq:
            self.fast.add(v >= 0)
        r = self.fast.check()
        self.fast.pop()
        return r == z3.unsat

    def known(self, e):
        """is e valid on this path? (quick check)"""
        e = bexpr(e)
        return not self.sat(z3.Not(e))

    def branch(self, e):
        e = bexpr(e)
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        k = len(self.taken)
        if k >= self.max_decisions:
            raise DecisionLimit(f'more than {self.max_decisions} symbolic decisions')
        if s.get_id() in self.decided:
            return self.decided[s.get_id()][1]
        if k < len(self.prefix):
            d = self.prefix[k]
        elif self.implied(e):
            d = True
        elif self.implied(z3.Not(e)):
            d = False
        else:
            t = self.sat(e)
            f = self.sat(z3.Not(e))
            if t and f:
                self.alts.append(list(self.taken) + [False])
                d = True
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise PathEnd('infeasible path')
        self.taken.append(d)
        self.decided[s.get_id()] = (s, d)
        self.assume(e if d else z3.Not(e), 'branch')
        return d

    def choose(self, label):
        """non-deterministic choice (both outcomes are explored)"""
        k = len(self.taken)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            self.alts.append(list(self.taken) + [False])
            d = True
        self.taken.append(d)
        return d

    def oblige(self, name, goal, kind='ensures', given=None):
        """given: use these facts only (instead of everything known on the path)"""
        goal = bexpr(goal)
        self.obls.append((name, [e for e, _ in self.pc] if given is None else [bexpr(e) for e in given], goal, kind))

    def real(self, name):
        c = z3.Real(name)
        self.inputs[name] = c
        self.finite_term(c)
        return SR(c)

    def integer(self, name):
        c = z3.Int(name)
        self.inputs[name] = c
        return SI(c)

    def boolean(self, name):
        c = z3.Bool(name)
        self.inputs[name] = c
        return SB(c)


def explore(fn, name='', max_paths=4000):
    """run fn on every feasible path; yields the finished Path objects"""
    global CUR
    Path.unknowns = 0
    stack = [[]]
    count = 0
    while stack:
        prefix = stack.pop()
        count += 1
        if count > max_paths:
            raise Unsupported(f'more than {max_paths} paths')
        p = Path(prefix, name)
        old, CUR = CUR, p
        p.end = 'ok'
        try:
            fn(p)
        except PathEnd as e:
            p.end = 'cut'
        except Unsupported as e:
            p.end = 'unsupported'
            p.notes.append(f'{type(e).__name__}: {e}')
        finally:
            CUR = old
        stack.extend(reversed(p.alts))
        yield p
