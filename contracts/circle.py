"""Circle2D: intersections (C11); construction, area, containment and circumcircles (C12)."""
import math
from pyvc.contract import contract, summary
from pyvc.shapes import *
from pyvc.spec import *
from .geom import *
from .ray import ahead, aside

C = 'circle_2d.Circle2D.'
VLIST = ListOf(VECV, most=2)


def on_circle(c, p):
    """within the tolerance the code grants to tangents"""
    return Abs(d2(c.c, p) - Sq(c.r)) <= Q('1e-6')


def any_near(g, r, m='1e-3'):
    return Or(*[near(g, p, m) for p in r])


def exactly(g, r):
    return Or(*[same(g, p) for p in r])


def cuts(c, l, g):
    """the line enters the circle at its point g, it does not just touch it"""
    return Sq((g.x - c.c.x) * l.b - (g.y - c.c.y) * l.a) >= Q('1e-6') * (Sq(l.a) + Sq(l.b))


# ---------------------------------------------------------------- C11
P = 'C11'


def straight(l):
    """not almost, but not exactly, parallel to an axis"""
    return And(Or(l.a == 0, Abs(l.a) >= Q('1e-3')), Or(Abs(l.a) >= Q('1e-3'), Abs(l.b) >= Q('1e-3')))


def points(r, c):
    d = {'at most two points': len(r) <= 2, 'valid points': And(*[p.valid for p in r]), 'on the circle': And(*[on_circle(c, p) for p in r])}
    if len(r) == 2:
        d['different points'] = Not(same(r[0], r[1]))
    return d


def _through(rng, v):
    """the line through a point of the circle, or just outside of it"""
    t = rng.choice([0, math.pi / 2, math.pi, 2.5, rng.random() * 6.28])
    v.g = NS(x=v.c.c.x + v.c.r * math.cos(t), y=v.c.c.y + v.c.r * math.sin(t))
    if hasattr(v, 'l'):
        if rng.random() < .3:
            v.l.a, v.l.b = math.cos(t), math.sin(t)
        v.l.c = -(v.l.a * v.g.x + v.l.b * v.g.y)


contract('circle.intersection_line', P, C + 'intersection', [('c', CIRCLE), ('l', LINE)], lambda w, o: o.c.intersection(o.l), result=VLIST, requires=lambda a: straight(a.l),
         ensures=lambda a, r: dict(points(r, a.c), **{'on the line': And(*[on_line(a.l, p) for p in r])}), timeout=30, weight=3)
contract('circle.intersection_line_found', P, C + 'intersection', [('c', CIRCLE), ('l', LINE)], lambda w, o: o.c.intersection(o.l), result=VLIST,
         ghosts=[('g', VEC)], requires=lambda a: [straight(a.l), on_line(a.l, a.g), d2(a.c.c, a.g) == Sq(a.c.r)],
         ensures=lambda a, r: {'every common point is found': any_near(a.g, r), 'exactly, unless nearly a tangent': Implies(cuts(a.c, a.l, a.g), exactly(a.g, r))},
         timeout=30, weight=3, search=_through, history=False)
for cid in ('circle.intersection_line', 'circle.intersection_line_found'):
    summary(cid, C + 'intersection', lambda w, c, l: dict(c=c, l=l) if isinstance(l, w.Line2D) else None)


def _on_ray(rng, v):
    _through(rng, v)
    v.k = abs(v.k) * rng.choice([0, 1, 1, 1])
    v.y.o = NS(x=v.g.x - v.k * math.cos(math.radians(v.y.d)), y=v.g.y - v.k * math.sin(math.radians(v.y.d)))


def _on_seg(rng, v):
    _through(rng, v)
    v.k = rng.choice([0, 1, .5, .25])
    d = NS(x=v.s.t.x - v.s.o.x, y=v.s.t.y - v.s.o.y)
    v.s = NS(o=NS(x=v.g.x - v.k * d.x, y=v.g.y - v.k * d.y), t=NS(x=v.g.x + (1 - v.k) * d.x, y=v.g.y + (1 - v.k) * d.y))


def ray_line(y):
    c, s = Cosd(y.d), Sind(y.d)
    return NS(a=-s, b=c, c=s * y.o.x - c * y.o.y)


def seg_line(s):
    dx, dy = s.t.x - s.o.x, s.t.y - s.o.y
    return NS(a=-dy, b=dx, c=dy * s.o.x - dx * s.o.y)


contract('circle.intersection_ray', P, C + 'intersection', [('c', CIRCLE), ('y', RAY)], lambda w, o: o.c.intersection(o.y), result=VLIST, requires=lambda a: straight(ray_line(a.y)),
         ensures=lambda a, r: dict(points(r, a.c), **{'on the line of the ray': And(*[aside(a.y, p) == 0 for p in r]),
                                                     'not behind the origin': And(*[Or(ahead(a.y, p) >= 0, near(p, a.y.o)) for p in r])}),
         timeout=30, weight=3, uses=['circle.intersection_line', 'ray.in_right_dir_on'])
contract('circle.intersection_ray_found', P, C + 'intersection', [('c', CIRCLE), ('y', RAY)], lambda w, o: o.c.intersection(o.y), result=VLIST, ghosts=[('g', VEC), ('k', NONNEG)],
         requires=lambda a: [straight(ray_line(a.y)), And(a.g.x == a.y.o.x + a.k * Cosd(a.y.d), a.g.y == a.y.o.y + a.k * Sind(a.y.d)), d2(a.c.c, a.g) == Sq(a.c.r), cuts(a.c, ray_line(a.y), a.g)],
         ensures=lambda a, r: {'every common point is found': exactly(a.g, r)}, timeout=30, weight=3, search=_on_ray, history=False,
         uses=['circle.intersection_line', 'ray.in_right_dir_on'], facts=['circle.intersection_line_found'])
contract('circle.intersection_seg', P, C + 'intersection', [('c', CIRCLE), ('s', SEG)], lambda w, o: o.c.intersection(o.s), result=VLIST, requires=lambda a: straight(seg_line(a.s)),
         ensures=lambda a, r: dict(points(r, a.c), **{'on the line of the segment': And(*[cross(a.s.o, a.s.t, p) == 0 for p in r]),
                                                     'within the segment': And(*[in_box(a.s, p, Q('1e-4')) for p in r])}),
         timeout=30, weight=3, uses=['circle.intersection_line'])
contract('circle.intersection_seg_found', P, C + 'intersection', [('c', CIRCLE), ('s', SEG)], lambda w, o: o.c.intersection(o.s), result=VLIST, ghosts=[('g', VEC), ('k', UNIT)],
         requires=lambda a: [straight(seg_line(a.s)), same(a.g, point_at(a.s, a.k)), a.k >= 0, a.k <= 1, d2(a.c.c, a.g) == Sq(a.c.r), cuts(a.c, seg_line(a.s), a.g)],
         ensures=lambda a, r: {'every common point is found': exactly(a.g, r)}, timeout=30, weight=3, search=_on_seg, history=False,
         uses=['circle.intersection_line'], facts=['circle.intersection_line_found'])


def apart(a):
    dx, dy = a.e.c.x - a.c.c.x, a.e.c.y - a.c.c.y
    return And(Or(dx == 0, Abs(dx) >= Q('1e-3')), Or(Abs(dx) >= Q('1e-3'), Abs(dy) >= Q('1e-3')))


def _two(rng, v):
    _through(rng, v)
    t = rng.random() * 6.28
    if rng.random() < .4:
        k = rng.choice([-2, 2, .5, -.5, 1])
        v.e.c = NS(x=v.g.x + k * (v.c.c.x - v.g.x), y=v.g.y + k * (v.c.c.y - v.g.y))
    v.e.r = math.hypot(v.e.c.x - v.g.x, v.e.c.y - v.g.y)


contract('circle.intersection_circle', P, C + 'intersection', [('c', CIRCLE), ('e', CIRCLE)], lambda w, o: o.c.intersection(o.e), result=VLIST, requires=apart,
         ensures=lambda a, r: dict(points(r, a.c), **{'on the other circle': And(*[on_circle(a.e, p) for p in r])}), timeout=30, weight=3, uses=['circle.intersection_line'])
contract('circle.intersection_circle_found', P, C + 'intersection', [('c', CIRCLE), ('e', CIRCLE)], lambda w, o: o.c.intersection(o.e), result=VLIST, ghosts=[('g', VEC)],
         requires=lambda a: [apart(a), d2(a.c.c, a.g) == Sq(a.c.r), d2(a.e.c, a.g) == Sq(a.e.r)],
         ensures=lambda a, r: {'every common point is found': any_near(a.g, r)}, timeout=30, weight=3, search=_two, history=False,
         uses=['circle.intersection_line'], facts=['circle.intersection_line_found'])
contract('circle.intersection_concentric', P, C + 'intersection', [('c', CIRCLE), ('r', NONNEG)], lambda w, o: o.c.intersection(w.Circle2D(o.c.center(), o.r)), result=VLIST,
         ensures=lambda a, r: {'no isolated common point': len(r) == 0})
contract('circle.intersection_no_line', P, C + 'intersection', [('c', CIRCLE), ('k', REAL)], lambda w, o: o.c.intersection(w.Line2D(0.0, 0.0, o.k)), result=VLIST,
         ensures=lambda a, r: {'nothing': len(r) == 0})
for nm, k, sh in (('line', 'l', LINE), ('ray', 'y', RAY), ('segment', 's', SEG), ('circle', 'e', CIRCLE)):
    contract(f'circle.intersection_with_{nm}', P, C + f'intersection_with_{nm}', [('c', CIRCLE), (k, sh)],
             lambda w, o, nm=nm, k=k: (getattr(o.c, f'intersection_with_{nm}')(getattr(o, k)), o.c.intersection(getattr(o, k))), result=Pair(ListOf(VECV), ListOf(VECV)),
             ensures=lambda a, r: {'the same points': And(len(r[0]) == len(r[1]), *[And(same(p, q), p.valid) for p, q in zip(*r)])}, timeout=30, weight=2, history=False,
             uses=['circle.intersection_line', 'ray.in_right_dir_on'], requires={'line': lambda a: straight(a.l), 'ray': lambda a: straight(ray_line(a.y)), 'segment': lambda a: straight(seg_line(a.s)), 'circle': apart}[nm])

# ---------------------------------------------------------------- C12
P = 'C12'
KEEP = lambda a, r: And(same(r.c, a.p), r.r == Max(a.r, 0))
contract('circle.ctor', P, C + '__init__', [('p', VEC), ('r', REAL)], lambda w, o: w.Circle2D(o.p, o.r), result=CIRCLE, ensures=KEEP, exact=True)
contract('circle.ctor_kw', P, C + '__init__', [('p', VEC), ('r', REAL)], lambda w, o: w.Circle2D(center=o.p, radius=o.r), result=CIRCLE, ensures=KEEP, exact=True)
contract('circle.ctor0', P, C + '__init__', [], lambda w, o: w.Circle2D(), result=CIRCLE, ensures=lambda a, r: And(r.c.x == 0, r.c.y == 0, r.r == 0), exact=True)
contract('circle.assign', P, C + 'assign', [('c', CIRCLE), ('p', VEC), ('r', REAL)], lambda w, o: o.c.assign(o.p, o.r), mut=['c'], ensures=lambda a, r, p: KEEP(a, p.c), exact=True)
contract('circle.area', P, C + 'area', [('c', CIRCLE)], lambda w, o: o.c.area(), result=REAL, ensures=lambda a, r: r == Pi() * Sq(a.c.r))
contract('circle.contains', P, C + 'contains', [('c', CIRCLE), ('p', VEC)], lambda w, o: o.c.contains(o.p), result=BOOL, ensures=lambda a, r: Iff(r, d2(a.c.c, a.p) < Sq(a.c.r)))
contract('circle.center', P, C + 'center', [('c', CIRCLE)], lambda w, o: o.c.center(), result=VECV, ensures=lambda a, r: And(same(r, a.c.c), r.valid), exact=True)
contract('circle.center_', P, C + 'center_', [('c', CIRCLE)], lambda w, o: o.c.center_(), result=VECV, ensures=lambda a, r: And(same(r, a.c.c), r.valid), exact=True, fresh=False)
contract('circle.radius', P, C + 'radius', [('c', CIRCLE)], lambda w, o: o.c.radius(), result=REAL, ensures=lambda a, r: r == a.c.r, exact=True)
TRIP = [('p', VEC), ('q', VEC), ('s', VEC)]
area2 = lambda a: cross(a.p, a.q, a.s)
apart3 = lambda a, m: And(Not(near(a.p, a.q, m)), Not(near(a.q, a.s, m)), Not(near(a.s, a.p, m)))
contract('circle.circum_circle', P, C + 'circum_circle', TRIP, lambda w, o: w.Circle2D.circum_circle(o.p, o.q, o.s), result=CIRCLE, rel='p', timeout=30,
         requires=lambda a: And(Abs(area2(a)) >= Q('1e-3'), apart3(a, '1e-4')), uses=['line.intersection'], ensures=lambda a, r: {f'through point {i}': d2(r.c, v) == Sq(r.r) for i, v in enumerate((a.p, a.q, a.s), 1)})
contract('circle.circum_circle_collinear', P, C + 'circum_circle', TRIP, lambda w, o: w.Circle2D.circum_circle(o.p, o.q, o.s), result=CIRCLE, rel='p', timeout=30,
         ghosts=[('k', REAL)], requires=lambda a: And(a.s.x == a.p.x + a.k * (a.q.x - a.p.x), a.s.y == a.p.y + a.k * (a.q.y - a.p.y), apart3(a, '1e-3')), uses=['line.intersection'],
         search=lambda rng, v: setattr(v, 's', NS(x=v.p.x + v.k * (v.q.x - v.p.x), y=v.p.y + v.k * (v.q.y - v.p.y))),
         ensures=lambda a, r: {'the empty circle': And(r.c.x == 0, r.c.y == 0, r.r == 0)})



def power_of(a):
    """(squared distance of i from the center of the circle through p, q, s, minus its squared radius) times the doubled signed area"""
    q, s, i = [NS(x=v.x - a.p.x, y=v.y - a.p.y) for v in (a.q, a.s, a.i)]
    n2 = lambda v: Sq(v.x) + Sq(v.y)
    return n2(i) * area2(a) - i.x * (s.y * n2(q) - q.y * n2(s)) - i.y * (q.x * n2(s) - s.x * n2(q))


def _in_circum(a, r):
    v, ar = power_of(a), area2(a)
    if Proving():
        q, s, i = [NS(x=v_.x - a.p.x, y=v_.y - a.p.y) for v_ in (a.q, a.s, a.i)]
        n2 = lambda v_: Sq(v_.x) + Sq(v_.y)
        x, y = s.y * n2(q) - q.y * n2(s), q.x * n2(s) - s.x * n2(q)
        cx, cy = Quot(x + 2 * ar * a.p.x, 2 * ar), Quot(y + 2 * ar * a.p.y, 2 * ar)
        Fact('center', lambda c, px, d, n: ([c * 2 * d == n + 2 * d * px, Not(d == 0)], 2 * (c - px) * d == n), cx, a.p.x, ar, x)
        Fact('center', lambda c, px, d, n: ([c * 2 * d == n + 2 * d * px, Not(d == 0)], 2 * (c - px) * d == n), cy, a.p.y, ar, y)
        w = d2(NS(x=cx, y=cy), a.i) - d2(NS(x=cx, y=cy), a.p)
        Fact('power', lambda ux, uy, ix, iy, d, nx, ny: ([2 * ux * d == nx, 2 * uy * d == ny], (Sq(ix) + Sq(iy) - 2 * ux * ix - 2 * uy * iy) * d == (Sq(ix) + Sq(iy)) * d - nx * ix - ny * iy),
             cx - a.p.x, cy - a.p.y, i.x, i.y, ar, x, y)
        Have('power of the point', w * ar == v)
        Fact('sign', lambda w_, d, v_: ([w_ * d == v_], And(Implies(d > 0, Iff(w_ < -Q('1e-12'), v_ < -Q('1e-12') * d)), Implies(d < 0, Iff(w_ < -Q('1e-12'), v_ > -Q('1e-12') * d)))), w, ar, v)
    return {'inside exactly when nearer to the center than the radius': Iff(r, Or(And(ar > 0, v < -Q('1e-12') * ar), And(ar < 0, v > -Q('1e-12') * ar)))}


def _cocircular(rng, v):
    """integer points on one circle, and one more point on it, inside or outside"""
    k = [(3, 4), (4, 3), (-3, 4), (-4, 3), (5, 0), (0, 5), (-5, 0), (0, -5), (3, -4), (4, -3), (-3, -4), (-4, -3)]
    if rng.random() < .6:
        x, y = rng.randint(-3, 3), rng.randint(-3, 3)
        f = [NS(x=float(x + u), y=float(y + z)) for u, z in rng.sample(k, 4)]
        v.p, v.q, v.s = f[:3]
        c = rng.random()
        v.i = f[3] if c < .4 else NS(x=f[3].x + rng.choice([-1., 1., 0., .25]), y=f[3].y + rng.choice([-1., 1., 0., .25])) if c < .8 else NS(x=float(x), y=float(y))


contract('circle.circum_circle_contains', P, C + 'circum_circle_contains', [('i', VEC)] + TRIP, lambda w, o: w.Circle2D.circum_circle_contains(o.i, o.p, o.q, o.s), result=BOOL, rel='p', timeout=30,
         requires=lambda a: Abs(area2(a)) >= Q('1e-3'), ensures=_in_circum, search=_cocircular)
contract('circle.circum_circle_contains_flat', P, C + 'circum_circle_contains', [('i', VEC)] + TRIP, lambda w, o: w.Circle2D.circum_circle_contains(o.i, o.p, o.q, o.s), result=BOOL, rel='p',
         requires=lambda a: area2(a) == 0, ensures=lambda a, r: {'nothing is inside': Not(r)}, search=lambda rng, v: setattr(v, 's', NS(x=2 * v.q.x - v.p.x, y=2 * v.q.y - v.p.y)))
