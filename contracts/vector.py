"""Vector2D: arithmetic, equality, mutation (C04), polar form and rotation (C05)."""
from pyvc.contract import contract, summary
from pyvc.shapes import *
from pyvc.spec import *

P, Q_ = 'C04', 'C05'
V = 'vector_2d.Vector2D.'

# ---------------------------------------------------------------- construction and access
contract('vec.ctor2', P, V + '__init__', [('x', REAL), ('y', REAL)], lambda w, o: w.Vector2D(o.x, o.y), result=VECV,
         ensures=lambda a, r: {'x': r.x == a.x, 'y': r.y == a.y, 'valid': r.valid}, exact=True)
contract('vec.ctor_kw', P, V + '__init__', [('x', REAL), ('y', REAL)], lambda w, o: w.Vector2D(x=o.x, y=o.y), result=VECV,
         ensures=lambda a, r: {'x': r.x == a.x, 'y': r.y == a.y, 'valid': r.valid}, exact=True)
contract('vec.ctor0', P, V + '__init__', [], lambda w, o: w.Vector2D(), result=VECV,
         ensures=lambda a, r: {'x': r.x == 0, 'y': r.y == 0, 'valid': r.valid}, exact=True)
contract('vec.ctor_copy', P, V + '__init__', [('v', VEC)], lambda w, o: w.Vector2D(o.v), result=VECV,
         ensures=lambda a, r: {'x': r.x == a.v.x, 'y': r.y == a.v.y, 'valid': r.valid}, exact=True)
for m in ('copy', 'get_copy'):
    contract(f'vec.{m}', P, V + m, [('v', VEC)], lambda w, o, m=m: getattr(o.v, m)(), result=VECV,
             ensures=lambda a, r: {'x': r.x == a.v.x, 'y': r.y == a.v.y, 'valid': r.valid}, exact=True)
for m in ('x', 'get_x', 'y', 'get_y'):
    contract(f'vec.{m}', P, V + m, [('v', VEC)], lambda w, o, m=m: getattr(o.v, m)(), result=REAL,
             ensures=lambda a, r, m=m: r == getattr(a.v, m[-1]), exact=True)
contract('vec.invalid', P, V + 'invalid', [], lambda w, o: w.Vector2D.invalid(), result=VECV,
         ensures=lambda a, r: {'invalid': Not(r.valid)}, exact=True)
contract('vec.ctor_copy_invalid', P, V + '__init__', [('v', VEC)],
         lambda w, o: (o.v.invalidate(), w.Vector2D(o.v).is_valid(), o.v.copy().is_valid(), o.v.is_valid(), o.v.validate(),
                       o.v.is_valid())[1:], result=Pair(BOOL, BOOL, BOOL, NONE, BOOL),
         ensures=lambda a, r: {'copies are invalid': And(Not(r[0]), Not(r[1])), 'invalidate': Not(r[2]), 'validate': r[4]},
         mut=['v'])

# ---------------------------------------------------------------- arithmetic
contract('vec.add', P, V + '__add__', [('v', VEC), ('u', VEC)], lambda w, o: o.v + o.u, result=VECV,
         ensures=lambda a, r: {'x': r.x == a.v.x + a.u.x, 'y': r.y == a.v.y + a.u.y, 'valid': r.valid}, exact=True)
contract('vec.sub', P, V + '__sub__', [('v', VEC), ('u', VEC)], lambda w, o: o.v - o.u, result=VECV,
         ensures=lambda a, r: {'x': r.x == a.v.x - a.u.x, 'y': r.y == a.v.y - a.u.y, 'valid': r.valid}, exact=True)
contract('vec.mul', P, V + '__mul__', [('v', VEC), ('k', REAL)], lambda w, o: o.v * o.k, result=VECV,
         ensures=lambda a, r: {'x': r.x == a.v.x * a.k, 'y': r.y == a.v.y * a.k, 'valid': r.valid}, exact=True)
contract('vec.truediv', P, V + '__truediv__', [('v', VEC), ('k', REAL)], lambda w, o: o.v / o.k, result=VECV,
         requires=lambda a: Not(a.k == 0),
         ensures=lambda a, r: {'x': r.x * a.k == a.v.x, 'y': r.y * a.k == a.v.y, 'valid': r.valid})
contract('vec.reverse_vector', P, V + 'reverse_vector', [('v', VEC)], lambda w, o: o.v.reverse_vector(), result=VECV,
         ensures=lambda a, r: {'x': r.x == -a.v.x, 'y': r.y == -a.v.y, 'valid': r.valid}, exact=True)
contract('vec.abs', P, V + 'abs', [('v', VEC)], lambda w, o: o.v.abs(), result=VECV,
         ensures=lambda a, r: {'x': r.x == Abs(a.v.x), 'y': r.y == Abs(a.v.y), 'valid': r.valid}, exact=True)
contract('vec.abs_x', P, V + 'abs_x', [('v', VEC)], lambda w, o: o.v.abs_x(), result=REAL,
         ensures=lambda a, r: r == Abs(a.v.x), exact=True)
contract('vec.abs_y', P, V + 'abs_y', [('v', VEC)], lambda w, o: o.v.abs_y(), result=REAL,
         ensures=lambda a, r: r == Abs(a.v.y), exact=True)

# in-place forms: self is changed to the value of the binary operation, also when the operand is self
contract('vec.iadd', P, V + '__iadd__', [('v', VEC), ('u', VEC)], lambda w, o: o.v.__iadd__(o.u), returns='v', mut=['v'],
         result=VEC, ensures=lambda a, r, p: {'x': p.v.x == a.v.x + a.u.x, 'y': p.v.y == a.v.y + a.u.y}, exact=True)
contract('vec.isub', P, V + '__isub__', [('v', VEC), ('u', VEC)], lambda w, o: o.v.__isub__(o.u), returns='v', mut=['v'],
         result=VEC, ensures=lambda a, r, p: {'x': p.v.x == a.v.x - a.u.x, 'y': p.v.y == a.v.y - a.u.y}, exact=True)
contract('vec.iadd_self', P, V + '__iadd__', [('v', VEC)], lambda w, o: o.v.__iadd__(o.v), returns='v', mut=['v'],
         result=VEC, ensures=lambda a, r, p: {'x': p.v.x == 2 * a.v.x, 'y': p.v.y == 2 * a.v.y}, exact=True)
contract('vec.isub_self', P, V + '__isub__', [('v', VEC)], lambda w, o: o.v.__isub__(o.v), returns='v', mut=['v'],
         result=VEC, ensures=lambda a, r, p: {'x': p.v.x == 0, 'y': p.v.y == 0}, exact=True)
contract('vec.imul', P, V + '__imul__', [('v', VEC), ('k', REAL)], lambda w, o: o.v.__imul__(o.k), returns='v', mut=['v'],
         result=VEC, ensures=lambda a, r, p: {'x': p.v.x == a.v.x * a.k, 'y': p.v.y == a.v.y * a.k}, exact=True)


def _idiv(w, o):
    v = o.v
    v /= o.k
    return v


contract('vec.idiv', P, V + '__itruediv__', [('v', VEC), ('k', REAL)], _idiv, mut=['v'], returns='v',
         result=VEC, requires=lambda a: Not(a.k == 0),
         ensures=lambda a, r, p: {'x': p.v.x * a.k == a.v.x, 'y': p.v.y * a.k == a.v.y})
contract('vec.madd1', P, V + 'add', [('v', VEC), ('u', VEC)], lambda w, o: o.v.add(o.u), mut=['v'],
         ensures=lambda a, r, p: {'x': p.v.x == a.v.x + a.u.x, 'y': p.v.y == a.v.y + a.u.y}, exact=True)
contract('vec.madd2', P, V + 'add', [('v', VEC), ('x', REAL), ('y', REAL)], lambda w, o: o.v.add(o.x, o.y), mut=['v'],
         ensures=lambda a, r, p: {'x': p.v.x == a.v.x + a.x, 'y': p.v.y == a.v.y + a.y}, exact=True)
contract('vec.msub1', P, V + 'sub', [('v', VEC), ('u', VEC)], lambda w, o: o.v.sub(o.u), mut=['v'],
         ensures=lambda a, r, p: {'x': p.v.x == a.v.x - a.u.x, 'y': p.v.y == a.v.y - a.u.y}, exact=True)
contract('vec.msub2', P, V + 'sub', [('v', VEC), ('x', REAL), ('y', REAL)], lambda w, o: o.v.sub(o.x, o.y), mut=['v'],
         ensures=lambda a, r, p: {'x': p.v.x == a.v.x - a.x, 'y': p.v.y == a.v.y - a.y}, exact=True)
contract('vec.madd_self', P, V + 'add', [('v', VEC)], lambda w, o: o.v.add(o.v), mut=['v'],
         ensures=lambda a, r, p: {'x': p.v.x == 2 * a.v.x, 'y': p.v.y == 2 * a.v.y}, exact=True)
contract('vec.msub_self', P, V + 'sub', [('v', VEC)], lambda w, o: o.v.sub(o.v), mut=['v'],
         ensures=lambda a, r, p: {'x': p.v.x == 0, 'y': p.v.y == 0}, exact=True)
for m, sx, sy in (('add_x', 1, 0), ('add_y', 0, 1), ('sub_x', -1, 0), ('sub_y', 0, -1)):
    contract(f'vec.{m}', P, V + m, [('v', VEC), ('k', REAL)], lambda w, o, m=m: getattr(o.v, m)(o.k), mut=['v'],
             ensures=lambda a, r, p, sx=sx, sy=sy: {'x': p.v.x == a.v.x + sx * a.k, 'y': p.v.y == a.v.y + sy * a.k}, exact=True)
contract('vec.scale', P, V + 'scale', [('v', VEC), ('k', REAL)], lambda w, o: o.v.scale(o.k), mut=['v'],
         ensures=lambda a, r, p: {'x': p.v.x == a.v.x * a.k, 'y': p.v.y == a.v.y * a.k}, exact=True)
contract('vec.reverse', P, V + 'reverse', [('v', VEC)], lambda w, o: o.v.reverse(), mut=['v'], returns='v', result=VEC,
         ensures=lambda a, r, p: {'x': p.v.x == -a.v.x, 'y': p.v.y == -a.v.y}, exact=True)
contract('vec.assign', P, V + 'assign', [('v', VEC), ('x', REAL), ('y', REAL)], lambda w, o: o.v.assign(o.x, o.y), mut=['v'],
         returns='v', result=VEC, ensures=lambda a, r, p: {'x': p.v.x == a.x, 'y': p.v.y == a.y}, exact=True)
contract('vec.set_x_y', P, V + 'set_x_y', [('v', VEC), ('x', REAL), ('y', REAL)], lambda w, o: o.v.set_x_y(o.x, o.y), mut=['v'],
         ensures=lambda a, r, p: {'x': p.v.x == a.x, 'y': p.v.y == a.y}, exact=True)
contract('vec.set_x', P, V + 'set_x', [('v', VEC), ('x', REAL)], lambda w, o: o.v.set_x(o.x), mut=['v'],
         ensures=lambda a, r, p: {'x': p.v.x == a.x, 'y': p.v.y == a.v.y}, exact=True)
contract('vec.set_y', P, V + 'set_y', [('v', VEC), ('y', REAL)], lambda w, o: o.v.set_y(o.y), mut=['v'],
         ensures=lambda a, r, p: {'x': p.v.x == a.v.x, 'y': p.v.y == a.y}, exact=True)
contract('vec.set_vector', P, V + 'set_vector', [('v', VEC), ('u', VEC)], lambda w, o: o.v.set_vector(o.u), mut=['v'],
         ensures=lambda a, r, p: {'x': p.v.x == a.u.x, 'y': p.v.y == a.u.y}, exact=True)



def _validity(w, o):
    """what each way of copying makes of a valid vector, and each update of an invalid one"""
    out = []
    o.u.invalidate()
    o.v.set_vector(o.u)
    out += [o.v.is_valid(), w.Vector2D(o.u).is_valid(), o.u.copy().is_valid(), o.u.get_copy().is_valid()]
    for f in (lambda: o.v.assign(o.k, 1.0), lambda: o.v.set_x(o.k), lambda: o.v.set_y(o.k), lambda: o.v.set_x_y(o.k, 2.0), lambda: o.v.add(o.u), lambda: o.v.add(o.k, o.k),
              lambda: o.v.sub(o.u), lambda: o.v.sub(o.k, o.k), lambda: o.v.scale(o.k), lambda: o.v.reverse(), lambda: o.v.add_x(o.k), lambda: o.v.sub_y(o.k)):
        f()
        out.append(o.v.is_valid())
    n = len(out)
    o.u.validate()
    o.v.set_vector(o.u)
    out += [o.v.is_valid(), w.Vector2D(o.u).is_valid(), o.u.copy().is_valid(), o.u.get_copy().is_valid()]
    o.v += o.u
    o.v *= o.k
    out.append(o.v.is_valid())
    return out[:n], out[n:]


contract('vec.validity', P, [V + x for x in ('__init__', 'copy', 'get_copy', 'set_vector', 'invalidate', 'validate')], [('v', VEC), ('u', VEC), ('k', REAL)], _validity, result=Pair(ListOf(BOOL), ListOf(BOOL)),
         mut=['v', 'u'], ensures=lambda a, r, p: {'validity is copied and kept by updates': And(*[Not(x) for x in r[0]], *r[1])}, fresh=False)

# ---------------------------------------------------------------- metric
for m in ('r2', 'length2'):
    contract(f'vec.{m}', P, V + m, [('v', VEC)], lambda w, o, m=m: getattr(o.v, m)(), result=REAL,
             ensures=lambda a, r: r == a.v.x * a.v.x + a.v.y * a.v.y, exact=True)
for m in ('r', 'length'):
    contract(f'vec.{m}', P, V + m, [('v', VEC)], lambda w, o, m=m: getattr(o.v, m)(), result=REAL,
             ensures=lambda a, r: {'nonneg': r >= 0, 'square': r * r == a.v.x * a.v.x + a.v.y * a.v.y})
contract('vec.dist2', P, V + 'dist2', [('v', VEC), ('u', VEC)], lambda w, o: o.v.dist2(o.u), result=REAL,
         ensures=lambda a, r: r == Sq(a.v.x - a.u.x) + Sq(a.v.y - a.u.y), exact=True)
contract('vec.dist', P, V + 'dist', [('v', VEC), ('u', VEC)], lambda w, o: o.v.dist(o.u), result=REAL,
         ensures=lambda a, r: {'nonneg': r >= 0, 'square': r * r == Sq(a.v.x - a.u.x) + Sq(a.v.y - a.u.y)})
contract('vec.dist_laws', P, V + 'dist', [('u', VEC), ('v', VEC), ('t', VEC)],
         lambda w, o: (o.u.dist(o.v), o.v.dist(o.u), o.u.dist(o.t), o.t.dist(o.v), o.u.dist(o.u)),
         result=Pair(REAL, REAL, REAL, REAL, REAL),
         ensures=lambda a, r: {'symmetric': r[0] == r[1], 'triangle inequality': r[0] <= r[2] + r[3], 'zero': r[4] == 0})
for m, f in (('inner_product', lambda u, v: u.x * v.x + u.y * v.y), ('outer_product', lambda u, v: u.x * v.y - u.y * v.x)):
    contract(f'vec.{m}', P, V + m, [('u', VEC), ('v', VEC)], lambda w, o, m=m: getattr(o.u, m)(o.v), result=REAL,
             ensures=lambda a, r, f=f: r == f(a.u, a.v), exact=True)
    contract(f'vec.{m}_static', P, V + m + '_static', [('u', VEC), ('v', VEC)],
             lambda w, o, m=m: getattr(w.Vector2D, m + '_static')(o.u, o.v), result=REAL,
             ensures=lambda a, r, f=f: r == f(a.u, a.v), exact=True)

# ---------------------------------------------------------------- equality
contract('vec.equals', P, V + 'equals', [('u', VEC), ('v', VEC)], lambda w, o: o.u.equals(o.v), result=BOOL,
         ensures=lambda a, r: Iff(r, And(a.u.x == a.v.x, a.u.y == a.v.y)), exact=True)
contract('vec.eq', P, V + '__eq__', [('u', VEC), ('v', VEC)], lambda w, o: (o.u == o.v, o.u != o.v), result=Pair(BOOL, BOOL),
         ensures=lambda a, r: {'eq': Iff(r[0], And(a.u.x == a.v.x, a.u.y == a.v.y)), 'ne': Iff(r[1], Not(r[0]))}, exact=True)
contract('vec.eq_other', P, V + '__eq__', [('u', VEC), ('k', REAL)], lambda w, o: (o.u == o.k, o.u == None, o.u == 'a'),
         result=Pair(BOOL, BOOL, BOOL), ensures=lambda a, r: And(Not(r[0]), Not(r[1]), Not(r[2])), exact=True)
contract('vec.equals_weakly', P, V + 'equals_weakly', [('u', VEC), ('v', VEC)], lambda w, o: o.u.equals_weakly(o.v), result=BOOL,
         ensures=lambda a, r: Iff(r, And(Abs(a.u.x - a.v.x) < Q('1e-6'), Abs(a.u.y - a.v.y) < Q('1e-6'))))
contract('vec.hash', P, V + '__hash__', [('u', VEC), ('v', VEC)], lambda w, o: (hash_(w, o.u), hash_(w, o.v)),
         result=Pair(INT, INT), requires=lambda a: And(a.u.x == a.v.x, a.u.y == a.v.y),
         ensures=lambda a, r: {'equal vectors hash alike': r[0] == r[1]}, exact=True)


def hash_(w, o):
    return type(o).__hash__(o)


# ---------------------------------------------------------------- C05 polar form, rotation, length, direction
for m, f in (('from_polar', lambda w, o: w.Vector2D.from_polar(o.r, o.d)),
             ('polar2vector', lambda w, o: w.Vector2D.polar2vector(o.r, o.d)),
             ('ctor_polar', lambda w, o: w.Vector2D(r=o.r, a=o.d))):
    for sh in (DEG, ANG):
        contract(f'vec.{m}.{sh.name}', Q_, V + m.replace('ctor_polar', '__init__'), [('r', REAL), ('d', sh)], f, result=VECV,
                 ensures=lambda a, r, sh=sh: {'x': r.x == a.r * Cosd(a.d.d if sh is ANG else a.d),
                                             'y': r.y == a.r * Sind(a.d.d if sh is ANG else a.d), 'valid': r.valid})
for sh in (DEG, ANG):
    g = (lambda d: d.d) if sh is ANG else (lambda d: d)
    contract(f'vec.set_polar.{sh.name}', Q_, V + 'set_polar', [('v', VEC), ('r', REAL), ('d', sh)],
             lambda w, o: o.v.set_polar(o.r, o.d), mut=['v'],
             ensures=lambda a, r, p, g=g: {'x': p.v.x == a.r * Cosd(g(a.d)), 'y': p.v.y == a.r * Sind(g(a.d))})
    contract(f'vec.rotate.{sh.name}', Q_, V + 'rotate', [('v', VEC), ('d', sh)],
             lambda w, o: o.v.rotate(o.d), mut=['v'], returns='v', result=VEC,
             ensures=lambda a, r, p, g=g: {'x': p.v.x == a.v.x * Cosd(g(a.d)) - a.v.y * Sind(g(a.d)),
                                          'y': p.v.y == a.v.x * Sind(g(a.d)) + a.v.y * Cosd(g(a.d)),
                                          'length kept': Sq(p.v.x) + Sq(p.v.y) == Sq(a.v.x) + Sq(a.v.y)})
    contract(f'vec.rotated_vector.{sh.name}', Q_, V + 'rotated_vector', [('v', VEC), ('d', sh)],
             lambda w, o: o.v.rotated_vector(o.d), result=VECV,
             ensures=lambda a, r, g=g: {'x': r.x == a.v.x * Cosd(g(a.d)) - a.v.y * Sind(g(a.d)),
                                       'y': r.y == a.v.x * Sind(g(a.d)) + a.v.y * Cosd(g(a.d)), 'valid': r.valid})
    contract(f'vec.set_dir.{sh.name}', Q_, V + 'set_dir', [('v', VEC), ('d', sh)],
             lambda w, o: o.v.set_dir(o.d), mut=['v'],
             ensures=lambda a, r, p, g=g: {
                 'x': p.v.x == Sqrt(Sq(a.v.x) + Sq(a.v.y)) * Cosd(g(a.d)),
                 'y': p.v.y == Sqrt(Sq(a.v.x) + Sq(a.v.y)) * Sind(g(a.d)),
                 'length kept': Sq(p.v.x) + Sq(p.v.y) == Sq(a.v.x) + Sq(a.v.y)})
contract('vec.rotate_back', Q_, V + 'rotate', [('v', VEC), ('d', DEG)], lambda w, o: o.v.rotate(o.d).rotate(-o.d), mut=['v'],
         returns='v', result=VEC, ensures=lambda a, r, p: {'x': p.v.x == a.v.x, 'y': p.v.y == a.v.y})


def _setlen(v, k, p):
    long_ = Sq(v.x) + Sq(v.y) > Q('1e-12')
    return {'length': Implies(long_, Sq(p.x) + Sq(p.y) == k * k),
            'direction': Implies(long_, And(p.x * v.y == p.y * v.x, (p.x * v.x + p.y * v.y) * k >= 0)),
            'zero vector untouched': Implies(And(v.x == 0, v.y == 0), And(p.x == 0, p.y == 0)),
            'tiny vectors untouched': Implies(Not(long_), And(p.x == v.x, p.y == v.y))}


contract('vec.set_length', Q_, V + 'set_length', [('v', VEC), ('k', REAL)], lambda w, o: o.v.set_length(o.k), mut=['v'],
         ensures=lambda a, r, p: _setlen(a.v, a.k, p.v))
contract('vec.set_length_vector', Q_, V + 'set_length_vector', [('v', VEC), ('k', REAL)], lambda w, o: o.v.set_length_vector(o.k),
         result=VECV, ensures=lambda a, r: dict(_setlen(a.v, a.k, r), valid=r.valid))
contract('vec.normalize', Q_, V + 'normalize', [('v', VEC)], lambda w, o: o.v.normalize(), mut=['v'],
         ensures=lambda a, r, p: _setlen(a.v, 1, p.v))
contract('vec.normalize_vector', Q_, V + 'normalize_vector', [('v', VEC)], lambda w, o: o.v.normalize_vector(),
         result=VECV, ensures=lambda a, r: dict(_setlen(a.v, 1, r), valid=r.valid))
for m in ('th', 'dir'):
    contract(f'vec.{m}', Q_, V + m, [('v', VEC)], lambda w, o, m=m: getattr(o.v, m)(), result=ANG,
             ensures=lambda a, r: {
                 'range': And(r.d >= -180, r.d <= 180),
                 'direction': Implies(Or(Abs(a.v.x) >= Q('1e-6'), Abs(a.v.y) >= Q('1e-6')),
                                      And(a.v.x == Sqrt(Sq(a.v.x) + Sq(a.v.y)) * Cosd(r.d),
                                          a.v.y == Sqrt(Sq(a.v.x) + Sq(a.v.y)) * Sind(r.d))),
                 'tiny vector': Implies(And(Abs(a.v.x) < Q('1e-6'), Abs(a.v.y) < Q('1e-6')), r.d == 0)})
contract('vec.polar_roundtrip', Q_, [V + 'from_polar', V + 'th', V + 'r'], [('r', POS), ('d', DEG)],
         lambda w, o: (lambda v: (v.r(), v.th()))(w.Vector2D.from_polar(o.r, o.d)), result=Pair(REAL, ANG),
         requires=lambda a: a.r >= Q('1e-5'),
         ensures=lambda a, r: {'radius': r[0] == a.r, 'cos': Cosd(r[1].d) == Cosd(a.d), 'sin': Sind(r[1].d) == Sind(a.d)})
contract('vec.th_dir', Q_, V + 'th', [('v', VEC)], lambda w, o: o.v.th(), result=ANG, requires=lambda a: Or(Abs(a.v.x) >= Q('1e-6'), Abs(a.v.y) >= Q('1e-6')),
         ensures=lambda a, r: {'direction': And(a.v.x == Sqrt(Sq(a.v.x) + Sq(a.v.y)) * Cosd(r.d), a.v.y == Sqrt(Sq(a.v.x) + Sq(a.v.y)) * Sind(r.d))})
summary('vec.th_dir', V + 'th', lambda w, v: dict(v=v))
