"""Shapes: how to make, read back and generate the values contracts talk about."""
from __future__ import annotations
import random
import z3
from . import core, spec, loops
from .spec import And, Or, Not, cin, cout, CInt


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __repr__(self):
        return '(' + ', '.join(f'{k}={v!r}' for k, v in self.__dict__.items()) + ')'

    def __iter__(self):
        return iter(self.__dict__.values())


def map_ns(f, v):
    if isinstance(v, NS):
        return NS(**{k: map_ns(f, x) for k, x in v.__dict__.items()})
    if isinstance(v, (list, tuple)):
        return [map_ns(f, x) for x in v]
    return f(v)


def leaves(v, prefix=''):
    if isinstance(v, NS):
        for k, x in v.__dict__.items():
            yield from leaves(x, f'{prefix}.{k}' if prefix else k)
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            yield from leaves(x, f'{prefix}[{i}]')
    else:
        yield prefix, v


def relativise(v, base):
    """points of v as base + offset (v holds the offsets), except base itself"""
    b = v
    for k in base.split('.'):
        b = b[int(k)] if k.isdigit() else getattr(b, k)
    bx, by = b.x, b.y

    def go(u):
        if isinstance(u, NS):
            if u is not b and 'x' in u.__dict__ and 'y' in u.__dict__:
                u.x, u.y = bx + u.x, by + u.y
            for k, x in u.__dict__.items():
                go(x)
        elif isinstance(u, (list, tuple)):
            for x in u:
                go(x)
    go(v)
    return v


class Shape:
    name = '?'
    cls = None              # class name of the object, when it is one

    def fresh(self, leaf, prefix):
        """nested NS of leaf values; leaf(prefix, kind)"""
        raise NotImplementedError

    def build(self, w, v):
        raise NotImplementedError

    def read(self, w, o):
        """the raw view (numbers as the code gives them)"""
        raise NotImplementedError

    def constrain(self, v):
        return True

    def eq(self, a, b):
        """views equal"""
        xs = []
        for (n, x), (_, y) in zip(leaves(a), leaves(b)):
            if isinstance(x, (bool, core.SB)) or isinstance(y, (bool, core.SB)):
                xs.append(spec.Iff(x, y))
            else:
                xs.append(x == y)
        return And(*xs)

    def poison(self, w, o):
        """change the object through its own interface (concrete runs): catches shared state"""

    def remake(self, w, o, v, rng):
        """bring an existing object to the view v by mutation; None if not possible"""
        return None

    queries = ()

    def __repr__(self):
        return self.name


class Real(Shape):
    def __init__(self, kind='coord'):
        self.kind = kind
        self.name = 'REAL' if kind == 'coord' else kind

    def fresh(self, leaf, prefix):
        return leaf(prefix, self.kind)

    def build(self, w, v):
        return v

    def read(self, w, o):
        if isinstance(o, bool) or o is None or isinstance(o, str):
            raise WrongType(f'expected a number, got {o!r}')
        if isinstance(o, (int, float, core.SR, core.SI, spec.MPF)):
            return core.num(o) if core.CUR is not None else o
        raise WrongType(f'expected a number, got {type(o).__name__}')

    def constrain(self, v):
        if self.kind == 'pos':
            return v > 0
        if self.kind == 'nonneg':
            return v >= 0
        return True


class Int_(Shape):
    def __init__(self, kind='int'):
        self.kind = kind
        self.name = kind.upper()

    def fresh(self, leaf, prefix):
        return leaf(prefix, self.kind)

    def build(self, w, v):
        return int(v) if isinstance(v, CInt) else v

    def read(self, w, o):
        if isinstance(o, bool):
            raise WrongType(f'expected an integer, got {o!r}')
        if isinstance(o, (int, core.SI)):
            return o
        if isinstance(o, (float, core.SR, spec.MPF)):
            return core.num(o) if core.CUR is not None else o
        raise WrongType(f'expected an integer, got {type(o).__name__}')

    def constrain(self, v):
        if self.kind == 'nat':
            return v >= 0
        if self.kind == 'posint':
            return v >= 1
        return True


class Bool_(Shape):
    name = 'BOOL'

    def fresh(self, leaf, prefix):
        return leaf(prefix, 'bool')

    def build(self, w, v):
        return v

    def read(self, w, o):
        if isinstance(o, (bool, core.SB)):
            return o
        raise WrongType(f'expected a truth value, got {type(o).__name__} {o!r}')

    def eq(self, a, b):
        return spec.Iff(a, b)


class None_(Shape):
    name = 'NONE'

    def read(self, w, o):
        if o is not None:
            raise WrongType(f'expected None, got {type(o).__name__}')
        return None


class Any_(Shape):
    """result of no interest (no clause may look at it)"""
    name = 'ANY'

    def read(self, w, o):
        return None


class WrongType(Exception):
    pass


class Obj(Shape):
    def check(self, w, o):
        c = getattr(w, self.cls)
        if not isinstance(o, c):
            raise WrongType(f'expected {self.cls}, got {type(o).__name__}')


class Vec(Obj):
    name, cls = 'VEC', 'Vector2D'
    queries = ('r', 'r2', 'length', 'length2', 'th', 'dir', 'abs', 'abs_x', 'abs_y', 'x', 'y', 'is_valid', 'copy',
               'reverse_vector', 'normalize_vector', '__hash__', '__repr__')

    def fresh(self, leaf, prefix):
        return NS(x=leaf(prefix + '.x', 'coord'), y=leaf(prefix + '.y', 'coord'))

    def build(self, w, v):
        return w.Vector2D(v.x, v.y)

    def read(self, w, o):
        self.check(w, o)
        return NS(x=REAL.read(w, o.x()), y=REAL.read(w, o.y()))

    def poison(self, w, o):
        o.assign(271.25, -314.5)
        o.invalidate()

    def remake(self, w, o, v, rng):
        k = rng.randrange(4)
        if k == 0:
            o.assign(v.x, v.y)
        elif k == 1:
            o.set_x(v.x)
            o.set_y(v.y)
        elif k == 2:
            o.set_vector(w.Vector2D(v.x, v.y))
        else:
            o.set_x_y(v.x, v.y)
        o.validate()
        return o


class VecV(Vec):
    """a vector result with its validity flag"""
    name = 'VECV'

    def fresh(self, leaf, prefix):
        v = Vec.fresh(self, leaf, prefix)
        v.valid = leaf(prefix + '.valid', 'bool')
        return v

    def build(self, w, v):
        o = w.Vector2D(v.x, v.y)
        if not v.valid:
            o.invalidate()
        return o

    def read(self, w, o):
        v = Vec.read(self, w, o)
        return NS(x=v.x, y=v.y, valid=BOOL.read(w, o.is_valid()))


class Ang(Obj):
    name, cls = 'ANG', 'AngleDeg'
    queries = ('degree', 'degree_', 'abs', 'radian', 'cos', 'sin', 'get_normalized', 'reverse_angle', 'copy', '__repr__')

    def fresh(self, leaf, prefix):
        return NS(d=leaf(prefix + '.d', 'deg'))

    def build(self, w, v):
        return w.AngleDeg(v.d)

    def read(self, w, o):
        self.check(w, o)
        return NS(d=REAL.read(w, o.degree()))

    def constrain(self, v):
        return And(v.d >= -180, v.d <= 180)

    def poison(self, w, o):
        o.set_degree(77.5)

    def remake(self, w, o, v, rng):
        o.set_degree(v.d)
        return o


class Line(Obj):
    name, cls = 'LINE', 'Line2D'
    queries = ('a', 'b', 'c', '__repr__', 'copy')

    def fresh(self, leaf, prefix):
        return NS(a=leaf(prefix + '.a', 'coord'), b=leaf(prefix + '.b', 'coord'), c=leaf(prefix + '.c', 'coord'))

    def build(self, w, v):
        return w.Line2D(v.a, v.b, v.c)

    def read(self, w, o):
        self.check(w, o)
        return NS(a=REAL.read(w, o.a()), b=REAL.read(w, o.b()), c=REAL.read(w, o.c()))


class Seg(Obj):
    name, cls = 'SEG', 'Segment2D'
    queries = ('is_valid', 'origin', 'terminal', 'line', 'length', 'direction', 'copy', 'reversed_segment',
               'perpendicular_bisector', '__repr__')

    def fresh(self, leaf, prefix):
        return NS(o=VEC.fresh(leaf, prefix + '.o'), t=VEC.fresh(leaf, prefix + '.t'))

    def build(self, w, v):
        return w.Segment2D(w.Vector2D(v.o.x, v.o.y), w.Vector2D(v.t.x, v.t.y))

    def read(self, w, o):
        self.check(w, o)
        return NS(o=VEC.read(w, o.origin()), t=VEC.read(w, o.terminal()))

    def poison(self, w, o):
        o.origin_().assign(271.25, -314.5)
        o.terminal_().assign(-71.25, 14.5)

    def remake(self, w, o, v, rng):
        if rng.random() < .5:
            o.assign(w.Vector2D(v.o.x, v.o.y), w.Vector2D(v.t.x, v.t.y))
        else:
            o.assign(v.o.x, v.o.y, v.t.x, v.t.y)
        return o


class Ray(Obj):
    name, cls = 'RAY', 'Ray2D'
    queries = ('origin', 'dir', 'line', 'copy', '__repr__')

    def fresh(self, leaf, prefix):
        return NS(o=VEC.fresh(leaf, prefix + '.o'), d=leaf(prefix + '.d', 'deg'))

    def build(self, w, v):
        return w.Ray2D(w.Vector2D(v.o.x, v.o.y), w.AngleDeg(v.d))

    def read(self, w, o):
        self.check(w, o)
        return NS(o=VEC.read(w, o.origin()), d=REAL.read(w, o.dir().degree()))

    def constrain(self, v):
        return And(v.d >= -180, v.d <= 180)

    def poison(self, w, o):
        o.origin_().assign(271.25, -314.5)
        o.dir_().set_degree(77.5)

    def remake(self, w, o, v, rng):
        o.origin_().assign(v.o.x, v.o.y)
        o.dir_().set_degree(v.d)
        return o


class Circle(Obj):
    name, cls = 'CIRCLE', 'Circle2D'
    queries = ('center', 'radius', 'area', '__repr__')

    def fresh(self, leaf, prefix):
        return NS(c=VEC.fresh(leaf, prefix + '.c'), r=leaf(prefix + '.r', 'nonneg'))

    def build(self, w, v):
        return w.Circle2D(w.Vector2D(v.c.x, v.c.y), v.r)

    def read(self, w, o):
        self.check(w, o)
        return NS(c=VEC.read(w, o.center()), r=REAL.read(w, o.radius()))

    def constrain(self, v):
        return v.r >= 0

    def poison(self, w, o):
        o.assign(w.Vector2D(271.25, -314.5), 3.5)

    def remake(self, w, o, v, rng):
        o.assign(w.Vector2D(v.c.x, v.c.y), v.r)
        return o


class Size(Obj):
    name, cls = 'SIZE', 'Size2D'
    queries = ('length', 'width', 'diagonal', 'is_valid', '__repr__')

    def fresh(self, leaf, prefix):
        return NS(l=leaf(prefix + '.l', 'nonneg'), w=leaf(prefix + '.w', 'nonneg'))

    def build(self, w, v):
        return w.Size2D(v.l, v.w)

    def read(self, w, o):
        self.check(w, o)
        return NS(l=REAL.read(w, o.length()), w=REAL.read(w, o.width()))

    def constrain(self, v):
        return And(v.l >= 0, v.w >= 0)

    def poison(self, w, o):
        o.assign(271.25, 314.5)

    def remake(self, w, o, v, rng):
        o.assign(v.l, v.w)
        return o


class Rect(Obj):
    name, cls = 'RECT', 'Rect2D'
    queries = ('is_valid', 'area', 'left', 'right', 'top', 'bottom', 'min_x', 'max_x', 'min_y', 'max_y', 'size', 'center',
               'top_left', 'top_right', 'bottom_left', 'bottom_right', 'left_edge', 'right_edge', 'top_edge', 'bottom_edge',
               '__repr__')

    def fresh(self, leaf, prefix):
        return NS(x=leaf(prefix + '.x', 'coord'), y=leaf(prefix + '.y', 'coord'),
                  l=leaf(prefix + '.l', 'nonneg'), w=leaf(prefix + '.w', 'nonneg'))

    def build(self, w, v):
        return w.Rect2D(v.x, v.y, v.l, v.w)

    def read(self, w, o):
        self.check(w, o)
        s = o.size()
        return NS(x=REAL.read(w, o.left()), y=REAL.read(w, o.top()),
                  l=REAL.read(w, s.length()), w=REAL.read(w, s.width()))

    def constrain(self, v):
        return And(v.l >= 0, v.w >= 0)

    def poison(self, w, o):
        o.top_left_().assign(271.25, -314.5)
        o.size_().assign(11.5, 7.25)

    def remake(self, w, o, v, rng):
        o.move_top_left(w.Vector2D(v.x, v.y))
        if rng.random() < .5:
            o.set_size(v.l, v.w)
        else:
            o.set_length(v.l)
            o.set_width(v.w)
        return o


class Tri(Obj):
    name, cls = 'TRI', 'Triangle2D'
    queries = ('is_valid', 'a', 'b', 'c', 'area', 'signed_area', 'double_signed_area', 'ccw', '__repr__')

    def fresh(self, leaf, prefix):
        return NS(a=VEC.fresh(leaf, prefix + '.a'), b=VEC.fresh(leaf, prefix + '.b'), c=VEC.fresh(leaf, prefix + '.c'))

    def build(self, w, v):
        return w.Triangle2D(*[w.Vector2D(p.x, p.y) for p in (v.a, v.b, v.c)])

    def read(self, w, o):
        self.check(w, o)
        return NS(a=VEC.read(w, o.a()), b=VEC.read(w, o.b()), c=VEC.read(w, o.c()))

    def poison(self, w, o):
        o.a_().assign(271.25, -314.5)
        o.b_().assign(21.25, 34.5)
        o.c_().assign(-2.25, 314.5)

    def remake(self, w, o, v, rng):
        o.assign(*[w.Vector2D(p.x, p.y) for p in (v.a, v.b, v.c)])
        return o


class Mat(Obj):
    name, cls = 'MAT', 'Matrix2D'
    queries = ('m11', 'm12', 'm21', 'm22', 'dxtf', 'dytf', 'det', 'invertible', 'inverted', '__repr__')
    F = ('m11', 'm12', 'm21', 'm22', 'dx', 'dy')

    def fresh(self, leaf, prefix):
        return NS(**{k: leaf(f'{prefix}.{k}', 'coord') for k in self.F})

    def build(self, w, v):
        return w.Matrix2D(*[getattr(v, k) for k in self.F])

    def read(self, w, o):
        self.check(w, o)
        return NS(m11=REAL.read(w, o.m11()), m12=REAL.read(w, o.m12()), m21=REAL.read(w, o.m21()),
                  m22=REAL.read(w, o.m22()), dx=REAL.read(w, o.dxtf()), dy=REAL.read(w, o.dytf()))

    def poison(self, w, o):
        o.assign(2.5, 3.5, 4.5, 5.5, 6.5, 7.5)

    def remake(self, w, o, v, rng):
        o.assign(*[getattr(v, k) for k in self.F])
        return o


class Sector(Obj):
    name, cls = 'SECTOR', 'Sector2D'
    queries = ('center', 'radius_min', 'radius_max', 'angle_left_start', 'angle_right_end', 'area',
               'get_circumference_min', 'get_circumference_max', '__repr__')

    def fresh(self, leaf, prefix):
        return NS(c=VEC.fresh(leaf, prefix + '.c'), r0=leaf(prefix + '.r0', 'nonneg'), r1=leaf(prefix + '.r1', 'nonneg'),
                  s=leaf(prefix + '.s', 'deg'), e=leaf(prefix + '.e', 'deg'))

    def build(self, w, v):
        return w.Sector2D(w.Vector2D(v.c.x, v.c.y), v.r0, v.r1, w.AngleDeg(v.s), w.AngleDeg(v.e))

    def read(self, w, o):
        self.check(w, o)
        return NS(c=VEC.read(w, o.center()), r0=REAL.read(w, o.radius_min()), r1=REAL.read(w, o.radius_max()),
                  s=REAL.read(w, o.angle_left_start().degree()), e=REAL.read(w, o.angle_right_end().degree()))

    def constrain(self, v):
        return And(v.r0 >= 0, v.r0 <= v.r1, v.s >= -180, v.s <= 180, v.e >= -180, v.e <= 180)

    def poison(self, w, o):
        o.assign(w.Vector2D(271.25, -314.5), 1.5, 2.5, 10, 20)

    def remake(self, w, o, v, rng):
        o.assign(w.Vector2D(v.c.x, v.c.y), v.r0, v.r1, w.AngleDeg(v.s), w.AngleDeg(v.e))
        return o


def fresh_list(s, leaf, prefix):
    """n elements; n = 'any': a list of unknown length when proving, of a random length in a run"""
    elem = getattr(s, 'elem', VEC)
    n = s.n
    if n == 'any':
        n = leaf(prefix + '.length', 'len')
        if isinstance(n, core.SI):
            cache = {}

            def make(name):
                def real(nm, kind):
                    c = core.SR(z3.Real(nm))
                    core.cur().finite_term(c.e)
                    return c
                return elem.fresh(real, name)

            def get(t):
                t = loops.canon(t)
                if t.get_id() not in cache:
                    x = make(f'{prefix}[{t}]')
                    for u, y in cache.values():
                        if not core.cur().implied(u != t):
                            core.cur().assume(z3.Implies(u == t, core.bexpr(elem.eq(x, y))), 'same element')
                    cache[t.get_id()] = (t, x)
                return cache[t.get_id()][1]
            return loops.SymSeq(n, get, generic=lambda: make(f'{prefix}[other]!{core.cur().fresh("g")}'))
    return [elem.fresh(leaf, f'{prefix}[{i}]') for i in range(n)]


def list_eq(elem, a, b):
    if isinstance(a, loops.SymSeq) or isinstance(b, loops.SymSeq):
        n, m = loops.b_len(a), loops.b_len(b)
        k = loops.J()
        same = core.mk_bool(loops.ival(n) == loops.ival(m))
        if not core.cur().branch(z3.And(loops.ival(k) < loops.ival(n), loops.ival(k) < loops.ival(m))):
            return same
        return And(same, elem.eq(seq_at(a, k), seq_at(b, k)))
    if len(a) != len(b):
        return False
    return And(*[elem.eq(x, y) for x, y in zip(a, b)])


def seq_at(a, k):
    return a.at(k) if isinstance(a, loops.SymSeq) else loops.pick(a, loops.ival(k))


class ListOf(Shape):
    """a Python list; as an input it has exactly n elements"""

    def __init__(self, elem, n=None, most=None):
        self.elem, self.n, self.most = elem, n, most
        self.name = f'LIST({elem.name}{"" if n is None else "," + str(n)})'

    def fresh(self, leaf, prefix):
        return fresh_list(self, leaf, prefix)

    def build(self, w, v):
        if isinstance(v, loops.SymSeq):
            return v.map(lambda x: self.elem.build(w, x))
        return [self.elem.build(w, x) for x in v]

    def read(self, w, o):
        if isinstance(o, tuple):
            o = list(o)
        if isinstance(o, loops.SymSeq):
            return o.map(lambda x: self.elem.read(w, x))
        if not isinstance(o, list):
            raise WrongType(f'expected a list, got {type(o).__name__}')
        if isinstance(o, loops.VList) and o.rules is not None:
            return o
        return [self.elem.read(w, x) for x in o]

    def constrain(self, v):
        if isinstance(v, loops.SymSeq):
            return True
        return And(*[self.elem.constrain(x) for x in v])

    def eq(self, a, b):
        return list_eq(self.elem, a, b)

    def poison(self, w, o):
        for x in o:
            self.elem.poison(w, x)
        if isinstance(o, list):
            del o[1:]


class Hits(ListOf):
    """[number of points, first point, second point]; the view is the list of points"""

    def read(self, w, o):
        if not isinstance(o, (list, tuple)) or not len(o) or isinstance(o[0], bool) or int(o[0]) != o[0] or not 0 <= int(o[0]) < len(o):
            raise WrongType('expected a list [number of points, points ...]')
        return [self.elem.read(w, x) for x in o[1:1 + int(o[0])]]

    def build(self, w, v):
        r = [self.elem.build(w, x) for x in v]
        return [len(v)] + r + [w.Vector2D() for _ in range(2 - len(r))]

    def poison(self, w, o):
        for x in o[1:]:
            self.elem.poison(w, x)


class Poly(Obj):
    cls = 'Polygon2D'
    queries = ('vertices', 'get_bounding_box', 'area', 'double_signed_area', 'is_clockwise', 'is_counter_clockwise',
               'bounding_box_center', '__repr__')

    def __init__(self, n=None):
        self.n = n
        self.name = 'POLY' if n is None else f'POLY({n})'

    def fresh(self, leaf, prefix):
        return NS(v=fresh_list(self, leaf, prefix))

    def build(self, w, v):
        if isinstance(v.v, loops.SymSeq):
            return w.Polygon2D(v.v.map(lambda p: w.Vector2D(p.x, p.y)))
        return w.Polygon2D([w.Vector2D(p.x, p.y) for p in v.v])

    def read(self, w, o):
        self.check(w, o)
        vs = o.vertices()
        if isinstance(vs, loops.SymSeq):
            return NS(v=vs.map(lambda p: VEC.read(w, p)))
        return NS(v=[VEC.read(w, p) for p in vs])

    def eq(self, a, b):
        return list_eq(VEC, a.v, b.v)

    def poison(self, w, o):
        for p in o.vertices_():
            p.assign(271.25, -314.5)
        o.clear()

    def remake(self, w, o, v, rng):
        pts = [w.Vector2D(p.x, p.y) for p in v.v]
        if pts:
            o.assign(pts)
            return o
        return None


class Pair(Shape):
    """a tuple of results"""

    def __init__(self, *shapes):
        self.shapes = shapes
        self.name = 'TUPLE(' + ','.join(s.name for s in shapes) + ')'

    def read(self, w, o):
        if len(o) != len(self.shapes):
            raise WrongType('wrong tuple length')
        return [s.read(w, x) for s, x in zip(self.shapes, o)]

    def poison(self, w, o):
        for s, x in zip(self.shapes, o):
            s.poison(w, x)


REAL = Real()
DEG = Real('deg')
POS = Real('pos')
NONNEG = Real('nonneg')
UNIT = Real('unit')
INT = Int_()
NAT = Int_('nat')
POSINT = Int_('posint')
BOOL = Bool_()
NONE = None_()
ANY = Any_()
VEC = Vec()
VECV = VecV()
ANG = Ang()
LINE = Line()
SEG = Seg()
RAY = Ray()
CIRCLE = Circle()
SIZE = Size()
RECT = Rect()
TRI = Tri()
MAT = Mat()
SECTOR = Sector()
