"""Ray2D (C10)."""
import math
from pyvc.contract import contract, summary
from pyvc.shapes import *
from pyvc.spec import *
from .geom import *

Y = 'ray_2d.Ray2D.'
E6 = '1e-6'
P = 'C10'


def along(y, k):
    return NS(x=y.o.x + k * Cosd(y.d), y=y.o.y + k * Sind(y.d))


def ahead(y, p):
    return (p.x - y.o.x) * Cosd(y.d) + (p.y - y.o.y) * Sind(y.d)


def aside(y, p):
    return (p.y - y.o.y) * Cosd(y.d) - (p.x - y.o.x) * Sind(y.d)


for sh in (ANG, DEG):
    contract(f'ray.ctor.{sh.name}', P, Y + '__init__', [('p', VEC), ('d', sh)], lambda w, o: w.Ray2D(o.p, o.d), result=RAY,
             ensures=lambda a, r, sh=sh: {'origin': same(r.o, a.p), 'direction': r.d == a.d.d if sh is ANG else Same360(r.d, a.d)})
contract('ray.ctor_point', P, Y + '__init__', [('p', VEC), ('q', VEC)], lambda w, o: w.Ray2D(o.p, o.q), result=RAY,
         requires=lambda a: Not(near(a.p, a.q)),
         ensures=lambda a, r: {'origin': same(r.o, a.p), 'through the point': same(along(r, Sqrt(d2(a.p, a.q))), a.q)})
contract('ray.origin', P, Y + 'origin', [('y', RAY)], lambda w, o: o.y.origin(), result=VECV, ensures=lambda a, r: And(r.valid, same(r, a.y.o)), exact=True)
contract('ray.origin_', P, Y + 'origin_', [('y', RAY)], lambda w, o: o.y.origin_(), result=VECV, fresh=False, ensures=lambda a, r: And(r.valid, same(r, a.y.o)), exact=True)
contract('ray.dir', P, Y + 'dir', [('y', RAY)], lambda w, o: o.y.dir(), result=ANG, ensures=lambda a, r: r.d == a.y.d, exact=True)
contract('ray.dir_', P, Y + 'dir_', [('y', RAY)], lambda w, o: o.y.dir_(), result=ANG, fresh=False, ensures=lambda a, r: r.d == a.y.d, exact=True)
contract('ray.copy', P, Y + 'copy', [('y', RAY)], lambda w, o: o.y.copy(), result=RAY, ensures=lambda a, r: RAY.eq(r, a.y), exact=True)
contract('ray.line', P, Y + 'line', [('y', RAY)], lambda w, o: o.y.line(), result=LINE,
         ensures=lambda a, r: {'through the origin': on_line(r, a.y.o), 'along the direction': r.a * Cosd(a.y.d) + r.b * Sind(a.y.d) == 0,
                               'proper': r.a * r.a + r.b * r.b == 1})


def turn(a, b):
    """unsigned angle between two directions, -360 <= a - b <= 360"""
    d = Abs(a - b)
    return Min(d, 360 - d)


def _dir(default):
    def f(a, r):
        return {'the angle from the direction decides': Iff(r, Or(near(a.p, a.y.o), turn(Theta(a.p.x - a.y.o.x, a.p.y - a.y.o.y), a.y.d) < (10 if default else a.t)))}
    return f


contract('ray.in_right_dir', P, Y + 'in_right_dir', [('y', RAY), ('p', VEC), ('t', DEG)], lambda w, o: o.y.in_right_dir(o.p, o.t), result=BOOL,
         requires=lambda a: And(a.t >= 0, a.t <= 180), ensures=_dir(False), rel='y.o')
contract('ray.in_right_dir_default', P, Y + 'in_right_dir', [('y', RAY), ('p', VEC)], lambda w, o: o.y.in_right_dir(o.p), result=BOOL,
         ensures=_dir(True), rel='y.o')


def _put(rng, v):
    k = rng.choice([-1, 1]) * rng.choice([0.0, 1e-7, 0.5, 3.0, 40.0])
    v.p = NS(x=v.y.o.x + k * math.cos(math.radians(v.y.d)), y=v.y.o.y + k * math.sin(math.radians(v.y.d)))


contract('ray.in_right_dir_on', P, Y + 'in_right_dir', [('y', RAY), ('p', VEC), ('t', DEG)], lambda w, o: o.y.in_right_dir(o.p, o.t), result=BOOL,
         requires=lambda a: And(a.t >= 1, a.t <= 90, aside(a.y, a.p) == 0),
         ensures=lambda a, r: {'points ahead': Implies(Or(ahead(a.y, a.p) >= 0, near(a.p, a.y.o)), r), 'points behind': Implies(And(ahead(a.y, a.p) < 0, Not(near(a.p, a.y.o))), Not(r))},
         rel='y.o', timeout=30)
contract('ray.eq', P, Y + '__eq__', [('y', RAY), ('z', RAY)], lambda w, o: o.y == o.z, result=BOOL,
         ensures=lambda a, r: Iff(r, And(turn(a.y.d, a.z.d) < Q(E6), same(a.y.o, a.z.o))))


def _line(a, r):
    det = Cosd(a.y.d) * a.l.a + Sind(a.y.d) * a.l.b
    e = a.l.a * a.y.o.x + a.l.b * a.y.o.y + a.l.c
    return {'on the line': Implies(r.valid, on_line(a.l, r)), 'on the ray': Implies(r.valid, And(aside(a.y, r) == 0, Or(ahead(a.y, r) >= 0, near(r, a.y.o)))),
            'found when ahead': Implies(And(Abs(det) >= Q(E6), e * det <= 0), r.valid),
            'none when parallel': Implies(Abs(det) < Q(E6), Not(r.valid))}


contract('ray.intersection_line', P, Y + 'intersection', [('y', RAY), ('l', LINE)], lambda w, o: o.y.intersection(o.l), result=VECV, ensures=_line,
         rel='y.o', timeout=30, uses=['ray.in_right_dir_on'])


def _ray(a, r):
    y, z = a.y, a.z
    det = Cosd(y.d) * Sind(z.d) - Sind(y.d) * Cosd(z.d)
    return {'on the first ray': Implies(r.valid, And(aside(y, r) == 0, Or(ahead(y, r) >= 0, near(r, y.o)))),
            'on the second ray': Implies(r.valid, And(aside(z, r) == 0, Or(ahead(z, r) >= 0, near(r, z.o)))),
            'none when parallel': Implies(Abs(det) < Q(E6), Not(r.valid))}


contract('ray.intersection_ray', P, Y + 'intersection', [('y', RAY), ('z', RAY)], lambda w, o: o.y.intersection(o.z), result=VECV, ensures=_ray,
         rel='y.o', timeout=30, uses=['ray.in_right_dir_on'])


def _meet(rng, v):
    """the origin of z placed so that both rays pass through the point at k along y and j along z"""
    v.k, v.j = abs(v.k), abs(v.j)
    c = lambda d: (math.cos(math.radians(d)), math.sin(math.radians(d)))
    (cy, sy), (cz, sz) = c(v.y.d), c(v.z.d)
    v.z.o = NS(x=v.y.o.x + v.k * cy - v.j * cz, y=v.y.o.y + v.k * sy - v.j * sz)


contract('ray.intersection_found', P, Y + 'intersection', [('y', RAY), ('z', RAY)], lambda w, o: o.y.intersection(o.z), result=VECV,
         ghosts=[('k', NONNEG), ('j', NONNEG)],
         requires=lambda a: [same(a.z.o, NS(x=a.y.o.x + a.k * Cosd(a.y.d) - a.j * Cosd(a.z.d), y=a.y.o.y + a.k * Sind(a.y.d) - a.j * Sind(a.z.d))),
                             Abs(Cosd(a.y.d) * Sind(a.z.d) - Sind(a.y.d) * Cosd(a.z.d)) >= Q('1e-3')],
         ensures=lambda a, r: {'the common point is found': And(r.valid, near(r, along(a.y, a.k)))},
         rel='y.o', timeout=30, uses=['ray.in_right_dir_on'], history=False, search=_meet)
summary('ray.in_right_dir_on', Y + 'in_right_dir', lambda w, y, p, t=10.0: dict(y=y, p=p, t=t))
