"""Sector2D (C21)."""
import math
from pyvc.contract import contract
from pyvc.shapes import *
from pyvc.spec import *
from .geom import *
from .angle import turn, no_seam

T = 'sector_2d.Sector2D.'
P = 'C21'


def is_sector(s, c, r0, r1):
    return And(same(s.c, c), s.r0 == Max(0, r0), s.r1 == Max(r0, r1))


for sh in (ANG, DEG):
    args = [('c', VEC), ('p', REAL), ('q', REAL), ('d', sh), ('e', sh)]
    eq = (lambda r, a: And(r.s == a.d.d, r.e == a.e.d)) if sh is ANG else (lambda r, a: And(Same360(r.s, a.d), Same360(r.e, a.e)))
    pre = lambda a: Or(a.p >= 0, a.q >= 0)
    contract(f'sector.ctor.{sh.name}', P, T + '__init__', args, lambda w, o: w.Sector2D(o.c, o.p, o.q, o.d, o.e), result=SECTOR, requires=pre,
             ensures=lambda a, r, eq=eq: {'center and radii': is_sector(r, a.c, a.p, a.q), 'angles': eq(r, a)})
    contract(f'sector.assign.{sh.name}', P, T + 'assign', [('s', SECTOR)] + args, lambda w, o: o.s.assign(o.c, o.p, o.q, o.d, o.e), mut=['s'], requires=pre,
             ensures=lambda a, r, p, eq=eq: {'center and radii': is_sector(p.s, a.c, a.p, a.q), 'angles': eq(p.s, a)})
for m, sh, f in (('center', VECV, lambda s, r: And(same(s.c, r), r.valid)), ('radius_min', REAL, lambda s, r: r == s.r0), ('radius_max', REAL, lambda s, r: r == s.r1),
                 ('angle_left_start', ANG, lambda s, r: r.d == s.s), ('angle_right_end', ANG, lambda s, r: r.d == s.e)):
    contract(f'sector.{m}', P, T + m, [('s', SECTOR)], lambda w, o, m=m: getattr(o.s, m)(), result=sh, ensures=lambda a, r, f=f: f(a.s, r), exact=True)
    if sh is not REAL:
        contract(f'sector.{m}_', P, T + m + '_', [('s', SECTOR)], lambda w, o, m=m: getattr(o.s, m + '_')(), result=sh, fresh=False, ensures=lambda a, r, f=f: f(a.s, r), exact=True)


def opening(s):
    """the counter-clockwise turn from the start to the end of the arc"""
    return Ite(Abs(s.s - s.e) == 360, 0, turn(s.s, s.e))


def _not_closed(a):
    """start and end are different directions by more than rounding"""
    return Or(Abs(a.s.s - a.s.e) == 0, And(Abs(a.s.s - a.s.e) > Q('1e-3'), Abs(a.s.s - a.s.e) < Q('359.999')))


contract('sector.area', P, T + 'area', [('s', SECTOR)], lambda w, o: o.s.area(), result=REAL, requires=_not_closed,
         ensures=lambda a, r: r * 360 == Pi() * (Sq(a.s.r1) - Sq(a.s.r0)) * opening(a.s))
contract('sector.circumference_min', P, T + 'get_circumference_min', [('s', SECTOR)], lambda w, o: o.s.get_circumference_min(), result=REAL, requires=_not_closed,
         ensures=lambda a, r: r * 360 == 2 * Pi() * a.s.r0 * opening(a.s))
contract('sector.circumference_max', P, T + 'get_circumference_max', [('s', SECTOR)], lambda w, o: o.s.get_circumference_max(), result=REAL, requires=_not_closed,
         ensures=lambda a, r: r * 360 == 2 * Pi() * a.s.r1 * opening(a.s))


def _put(rng, v):
    d = rng.choice([v.s.s, v.s.e, (v.s.s + v.s.e) / 2, (v.s.s + v.s.e) / 2 + 180, v.s.s + 1, v.s.s - 1, v.s.e + 1, v.s.e - 1])
    k = rng.choice([v.s.r0, v.s.r1, (v.s.r0 + v.s.r1) / 2, v.s.r0 / 2, v.s.r1 * 2])
    v.p = NS(x=v.s.c.x + k * math.cos(math.radians(d)), y=v.s.c.y + k * math.sin(math.radians(d)))
    if rng.random() < .4:
        # exactly on a bounding circle
        x, y, h = rng.choice([(3, 4, 5), (-4, 3, 5), (5, -12, 13), (0, -2, 2), (1, 0, 1), (-8, -15, 17), (0, 3, 3), (-1, 0, 1)])
        v.s.c = NS(x=float(rng.randint(-3, 3)), y=float(rng.randint(-3, 3)))
        v.p = NS(x=v.s.c.x + x, y=v.s.c.y + y)
        if rng.random() < .5:
            v.s.r0, v.s.r1 = float(h), h + rng.choice([0., 1., 2.5])
        else:
            v.s.r0, v.s.r1 = rng.choice([0., h / 2]), float(h)


def _contains(a, r):
    th = Theta(a.p.x - a.s.c.x, a.p.y - a.s.c.y)
    q = d2(a.p, a.s.c)
    return {'between the radii and inside the arc': Implies(no_seam(th, a.s.s, a.s.e), Iff(r, And(q >= Sq(a.s.r0), q <= Sq(a.s.r1), turn(a.s.s, th) <= turn(a.s.s, a.s.e)))),
            'outside the ring': Implies(Or(q < Sq(a.s.r0), q > Sq(a.s.r1)), Not(r))}


contract('sector.contains', P, T + 'contains', [('s', SECTOR), ('p', VEC)], lambda w, o: o.s.contains(o.p), result=BOOL, requires=lambda a: Not(near(a.p, a.s.c)),
         ensures=_contains, rel='s.c', search=_put, timeout=25, exact=True)
contract('sector.eq', P, T + '__eq__', [('s', SECTOR), ('t', SECTOR)], lambda w, o: o.s == o.t, result=BOOL,
         ensures=lambda a, r: Iff(r, And(near(a.s.c, a.t.c), Abs(a.s.s - a.t.s) < Q('1e-6'), Abs(a.s.e - a.t.e) < Q('1e-6'),
                                         Abs(a.s.r0 - a.t.r0) < Q('1e-6'), Abs(a.s.r1 - a.t.r1) < Q('1e-6'))))
