"""ConvexHull (C19)."""
import math
from itertools import combinations
from pyvc.contract import contract, lemma
from pyvc.shapes import *
from pyvc.spec import *
from pyvc import core
from pyvc.loops import Upto
from .geom import *

H = 'convex_hull.ConvexHull.'
P = 'C19'


def turns(u, v, w):
    return cross(u, v, w)


def clear_cut(p):
    """different points, and every three of them are on one line or clearly not; not all on one line"""
    t = [cross(u, v, w) for u, v, w in combinations(p, 3)]
    return [And(*[Or(Abs(u.x - v.x) >= Q('1e-2'), Abs(u.y - v.y) >= Q('1e-2')) for u, v in combinations(p, 2)]),
            And(*[Or(c == 0, Abs(c) >= Q('1e-4')) for c in t]), Or(*[Abs(c) >= Q('1e-4') for c in t])]


def lowest(p, q):
    """p is left of q, or below it"""
    return Or(p.x < q.x, And(p.x == q.x, p.y <= q.y))


def ring(v):
    return [(v[i], v[(i + 1) % len(v)]) for i in range(len(v))]


def is_hull(v, p):
    """v goes around the points p in one direction, with corners among p and p inside"""
    if len(v) < 3:
        return {'at least three corners': False}
    sides = [[cross(u, w, q) for q in p] for u, w in ring(v)]
    strict = [cross(v[i - 2], v[i - 1], v[i]) for i in range(len(v))]
    return {'corners are input points': And(*[Or(*[same(c, q) for q in p]) for c in v]),
            'corners are different': And(*[Not(same(c, d)) for c, d in combinations(v, 2)]),
            'every point is inside or on the hull': Or(And(*[s <= 0 for x in sides for s in x]), And(*[s >= 0 for x in sides for s in x])),
            'proper corners': And(*[Not(s == 0) for s in strict])}


def corner(p, q):
    """q is a corner of the hull: no two other points have it on the segment between them and no three around it"""
    o = [x for x in p if x is not q]
    return And(*[Not(on_seg(NS(o=x, t=y), q)) for x, y in combinations(o, 2)],
               *[Or(And(Or(cross(x, y, q) < 0, cross(y, z, q) < 0, cross(z, x, q) < 0), Or(cross(x, y, q) > 0, cross(y, z, q) > 0, cross(z, x, q) > 0)),
                    cross(x, y, z) == 0) for x, y, z in combinations(o, 3)])


def _hull(a, r, graham=False, many=False):
    d = is_hull(r[0], a.p)
    if graham:
        d.pop('proper corners', None)       # the scan keeps points lying on the closing edge
    if not many:                            # (with many points it follows from the others: no point is outside)
        d['every corner is found'] = And(*[Implies(corner(a.p, q), Or(*[same(q, c) for c in r[0]])) for q in a.p])
    e, v = r[1], ring(r[0])
    d['an edge for every side'] = len(e) == len(v)
    if len(e) == len(v):
        d['edges join neighbours'] = And(*[Or(*[Or(And(same(s.o, x), same(s.t, y)), And(same(s.o, y), same(s.t, x))) for x, y in v]) for s in e])
        d['edges are different'] = And(*[Not(Or(And(same(s.o, t.o), same(s.t, t.t)), And(same(s.o, t.t), same(s.t, t.o)))) for s, t in combinations(e, 2)]) if len(e) > 2 else True
    d['input kept'] = And(len(r[2]) == len(a.p), *[Or(*[same(q, c) for c in r[2]]) for q in a.p])
    d['as a polygon'] = And(len(r[3].v) == len(r[0]), *[same(x, y) for x, y in zip(r[3].v, r[0])])
    return d


def compute(w, pts, m, add=False):
    h = w.ConvexHull([] if add else pts)
    if add:
        h.add_point(pts[0])
        h.add_points(pts[1:])
    h.compute(getattr(w.convex_hull.MethodType, m))
    return h.vertices(), h.edges(), h.input_points(), h.to_polygon()


def _line_up(rng, a):
    """some points on common lines"""
    p = a.p
    k = rng.random()
    if k < .35 and len(p) > 3:
        i, j, m = rng.sample(range(len(p)), 3)
        t = rng.choice([.5, .25, 2, -1, .75])
        p[m] = NS(x=p[i].x + t * (p[j].x - p[i].x), y=p[i].y + t * (p[j].y - p[i].y))
    if k > .8:
        m = min(q.x for q in p)
        for q in rng.sample(p, 2):
            q.x = m
    if .3 < k < .5:
        y = rng.choice(p).y
        for q in rng.sample(p, 2):
            q.y = y


def _many(rng, a):
    """points of a grid (three of them are on a line or clearly not): on a circle and inside, or anywhere"""
    r = rng.choice([4, 30, 1000])
    on = rng.randrange(0, len(a.p) + 1)
    for i, q in enumerate(a.p):
        if i < on:
            t = 6.283185307179586 * rng.random()
            q.x, q.y = float(round(r * math.cos(t))), float(round(r * math.sin(t)))
        else:
            q.x, q.y = float(rng.randrange(-r, r + 1)), float(rng.randrange(-r, r + 1))
    rng.shuffle(a.p)


METHODS = {'wrapping': 'WRAPPING_METHOD', 'graham': 'GRAHAN_SCAN'}
for nm, m in METHODS.items():
    fn = [H + ('compute_wrapping_method' if nm == 'wrapping' else 'compute_graham_scan'), H + 'compute', H + 'get_min_point_index'] + ([H + 'sort_points_angle_from', 'convex_hull.angle_sort_predicate', 'convex_hull.is_clockwise'] if nm == 'graham' else [])
    for n in (3, 4, 5, 7, 9):
        contract(f'hull.{nm}.{n}', P, fn, [('p', ListOf(VEC, n))], lambda w, o, m=m: compute(w, o.p, m), result=Pair(ListOf(VEC), ListOf(SEG), ListOf(VEC), Poly()),
                 requires=lambda a: clear_cut(a.p), ensures=(lambda a, r: _hull(a, r, True)) if nm == 'graham' else _hull, exact=True, bounded=f'{n} points', fresh=False, runs=n > 3, search=_line_up, rel='p.0', weight=n)
    contract(f'hull.{nm}.added', P, fn + [H + 'add_point', H + 'add_points'], [('p', ListOf(VEC, 5))], lambda w, o, m=m: compute(w, o.p, m, True),
             result=Pair(ListOf(VEC), ListOf(SEG), ListOf(VEC), Poly()), requires=lambda a: clear_cut(a.p), ensures=(lambda a, r: _hull(a, r, True)) if nm == 'graham' else _hull, exact=True, bounded='5 points', fresh=False, runs=True, search=_line_up)
    for n in (16, 26):
        contract(f'hull.{nm}.{n}', P, fn, [('p', ListOf(VEC, n))], lambda w, o, m=m: compute(w, o.p, m), result=Pair(ListOf(VEC), ListOf(SEG), ListOf(VEC), Poly()),
                 requires=lambda a: clear_cut(a.p), ensures=lambda a, r, g=nm == 'graham': _hull(a, r, g, True), exact=True, bounded=f'{n} points', fresh=False, runs=True, search=_many, weight=9)
    for n in (0, 1, 2):
        contract(f'hull.{nm}.{n}', P, fn, [('p', ListOf(VEC, n))], lambda w, o, m=m: compute(w, o.p, m)[:3], result=Pair(ListOf(VEC), ListOf(SEG), ListOf(VEC)),
                 ensures=lambda a, r: And(len(r[0]) == 0, len(r[1]) == 0, len(r[2]) == len(a.p)), bounded=f'{n} points', fresh=False)


# Four points: what the proofs need beyond the signs of the triangles. Vectors are seen from one of the points (from the starting point: `ahead`).
def _x(u, v):
    return u[0] * v[1] - u[1] * v[0]


def _between(u, v):
    """u lies between the origin and v, given that they are on one line"""
    return u[0] * (u[0] - v[0]) + u[1] * (u[1] - v[1]) <= 0


def _ahead(u):
    return Or(u[0] > 0, And(u[0] == 0, u[1] > 0))


def _zero(u):
    return And(u[0] == 0, u[1] == 0)


ORIENTED = {
    # three points on a line: one is between the others; and then it is nearer
    'one in the middle': (2, lambda u, v: ([_x(u, v) == 0], Or(_between(u, v), _between(v, u), u[0] * v[0] + u[1] * v[1] <= 0))),
    'nearer': (2, lambda u, v: ([_between(u, v)], u[0] * u[0] + u[1] * u[1] <= v[0] * v[0] + v[1] * v[1])),
    'only one in the middle': (2, lambda u, v: ([_between(u, v), u[0] * v[0] + u[1] * v[1] <= 0], _zero(u))),
    'one line': (3, lambda u, v, w: ([Not(_zero(u)), _x(u, v) == 0, _x(u, w) == 0], _x(v, w) == 0)),
    'along': (3, lambda u, v, w: ([_x(u, v) == 0, u[0] * v[0] + u[1] * v[1] > 0], And(Iff(_x(u, w) > 0, _x(v, w) > 0), Iff(_x(u, w) < 0, _x(v, w) < 0)))),
    'against': (3, lambda u, v, w: ([_x(u, v) == 0, u[0] * v[0] + u[1] * v[1] < 0], And(Iff(_x(u, w) > 0, _x(v, w) < 0), Iff(_x(u, w) < 0, _x(v, w) > 0)))),
    'not zero': (2, lambda u, v: ([_x(u, v) == 0, Not(_zero(u)), Not(_zero(v))], Not(u[0] * v[0] + u[1] * v[1] == 0))),
    # seen from the starting point the others lie in a half plane: "more clockwise" is transitive
    'not in the middle': (2, lambda u, v: ([_ahead(u), _ahead(v), _x(u, v) == 0], u[0] * v[0] + u[1] * v[1] > 0)),
    'half plane': (3, lambda u, v, w: ([_ahead(u), _ahead(v), _ahead(w), _x(u, v) >= 0, _x(v, w) >= 0, _x(w, u) >= 0],
                                       And(_x(u, v) == 0, _x(v, w) == 0, _x(w, u) == 0)))}


def _lemma(k, f):
    def build(p):
        t = [(core.SR(p.fresh('any')), core.SR(p.fresh('any'))) for _ in range(k)]
        prem, goal = f(*t)
        yield 'for all vectors', prem, goal
    return build


for nm, (k, f) in ORIENTED.items():
    lemma(f'hull.lemma.{nm}', P, _lemma(k, f))


def oriented(p, start):
    """the lemmas for these points"""
    from itertools import permutations
    q = core.cur()
    for i, b in enumerate(p):
        v = [(c.x - b.x, c.y - b.y) for j, c in enumerate(p) if j != i]
        for nm, (k, f) in ORIENTED.items():
            if nm in ('not in the middle', 'half plane') and i != start:
                continue
            for t in permutations(v, k):
                prem, goal = f(*t)
                q.assume(core.bexpr(Implies(And(*prem), goal)), 'fact')


def _four(a, r, k, graham):
    if Proving():
        oriented(a.p, k)
    return _hull(a, r, graham)


for nm, m in METHODS.items():
    for k in range(4):
        contract(f'hull.{nm}.4.from{k}', P, [H + ('compute_wrapping_method' if nm == 'wrapping' else 'compute_graham_scan')], [('p', ListOf(VEC, 4))], lambda w, o, m=m: compute(w, o.p, m),
                 result=Pair(ListOf(VEC), ListOf(SEG), ListOf(VEC), Poly()), requires=lambda a, k=k: [And(*[lowest(a.p[k], q) for q in a.p])] + clear_cut(a.p),
                 ensures=lambda a, r, k=k, g=nm == 'graham': _four(a, r, k, g), exact=True, bounded='4 points', fresh=False, rel='p.0', lenient=True, search=_line_up, weight=9)


def _direct(a, r):
    """the direct method finds the corners (in an order of its own) and the sides"""
    v, e = r[0], r[1]
    d = {'corners are input points': And(*[Or(*[same(c, q) for q in a.p]) for c in v]),
         'corners are different': And(*[Not(same(c, d)) for c, d in combinations(v, 2)]),
         'every corner is found, and only corners': And(*[Iff(corner(a.p, q), Or(*[same(q, c) for c in v])) for q in a.p]),
         'an edge for every side': len(e) == len(v),
         'edges have all points on one side': And(*[Or(And(*[cross(s.o, s.t, q) <= 0 for q in a.p]), And(*[cross(s.o, s.t, q) >= 0 for q in a.p])) for s in e]),
         'edges join corners': And(*[Or(*[same(x, c) for c in v]) for s in e for x in (s.o, s.t)]),
         'edges are different': And(*[Not(Or(And(same(s.o, t.o), same(s.t, t.t)), And(same(s.o, t.t), same(s.t, t.o)))) for s, t in combinations(e, 2)]),
         'input kept': And(len(r[2]) == len(a.p), *[same(q, c) for q, c in zip(a.p, r[2])])}
    return d


for n in (3, 4, 6, 9):
    contract(f'hull.direct.{n}', P, [H + 'compute_direct_method', H + 'compute'], [('p', ListOf(VEC, n))], lambda w, o: compute(w, o.p, 'DIRECT_METHOD'), result=Pair(ListOf(VEC), ListOf(SEG), ListOf(VEC), Poly()),
             requires=lambda a: clear_cut(a.p) + [And(*[Not(cross(u, v, w) == 0) for u, v, w in combinations(a.p, 3)])], ensures=_direct, exact=True, bounded=f'{n} points', fresh=False, runs=True, weight=n)
for k in range(3):
    contract(f'hull.direct.3.from{k}', P, [H + 'compute_direct_method', H + 'compute'], [('p', ListOf(VEC, 3))], lambda w, o: compute(w, o.p, 'DIRECT_METHOD'), result=Pair(ListOf(VEC), ListOf(SEG), ListOf(VEC), Poly()),
             requires=lambda a, k=k: [And(*[lowest(a.p[k], q) for q in a.p])] + clear_cut(a.p), ensures=_direct, exact=True, bounded='3 points', fresh=False, thorough=True, rel='p.0', weight=9)


def _twice(w, o, m1, m2):
    h = w.ConvexHull(o.p)
    h.compute(getattr(w.convex_hull.MethodType, m1))
    first = h.vertices()
    h.compute(getattr(w.convex_hull.MethodType, m2))
    return first, h.vertices()


def _agree(a, r):
    def covered(p, v):
        return Or(*[on_seg(NS(o=x, t=y), p) for x, y in ring(v)])
    u, v = r
    return And(len(u) >= 3, len(v) >= 3, *[covered(p, v) for p in u], *[covered(p, u) for p in v])


for m1 in METHODS.values():
    for m2 in METHODS.values():
        for n in (4, 6):
            contract(f'hull.twice.{m1}.{m2}.{n}', P, [H + 'compute'], [('p', ListOf(VEC, n))], lambda w, o, m1=m1, m2=m2: _twice(w, o, m1, m2), result=Pair(ListOf(VEC), ListOf(VEC)),
                     requires=lambda a: clear_cut(a.p), ensures=lambda a, r: {'both methods, any number of times': _agree(a, r)}, exact=True, bounded=f'{n} points', fresh=False, runs=True, search=_line_up)


def _clear(w, o):
    h = w.ConvexHull(o.p)
    h.compute()
    h.clear()
    return h.vertices(), h.edges(), h.input_points()


contract('hull.clear', P, [H + 'clear', H + 'clear_results'], [('p', ListOf(VEC, 3))], _clear, result=Pair(ListOf(VEC), ListOf(SEG), ListOf(VEC)), requires=lambda a: clear_cut(a.p),
         ensures=lambda a, r: And(*[len(x) == 0 for x in r]), bounded='3 points', fresh=False, rel='p.0')
for n in (1, 3):
    contract(f'hull.min_point.{n}', P, H + 'get_min_point_index', [('p', ListOf(VEC, n))], lambda w, o: w.ConvexHull(o.p).get_min_point_index(), result=INT, bounded=f'{n} points', exact=True,
             ensures=lambda a, r: {'lowest of the leftmost points': And(*[Implies(r == i, And(*[Or(p.x < q.x, And(p.x == q.x, p.y <= q.y)) for q in a.p])) for i, p in enumerate(a.p)]),
                                   'an index': And(r >= 0, r < len(a.p))})


def _inside_list(k, p):
    return And(k >= 0, k < Len(p))


PTS = lambda: core.cur().views.p
LOWEST = [('lowest so far', 'element', lambda e, i: Upto(i, lambda k: lowest(NS(x=e.x(), y=e.y()), At(PTS(), k)))),
          ('is the element at', ('element', 'int'), lambda e, y, i: And(_inside_list(y, PTS()), e.x() == At(PTS(), y).x, e.y() == At(PTS(), y).y)),
          ('is the x at', ('real', 'int'), lambda x, y, i: And(_inside_list(y, PTS()), x == At(PTS(), y).x)),
          ('is the y at', ('real', 'int'), lambda x, y, i: And(_inside_list(y, PTS()), x == At(PTS(), y).y)),
          ('is an index of the lowest so far', 'int', lambda y, i: And(_inside_list(y, PTS()), Upto(i, lambda k: lowest(At(PTS(), y), At(PTS(), k)))))]


def _min_any(a, r):
    n = Len(a.p)
    if not Proving():
        return {'lowest of the leftmost points': And(r >= 0, r < n, *[Implies(r == i, And(*[lowest(p, q) for q in a.p])) for i, p in enumerate(a.p)]) if n else r == -1}
    if core.cur().branch(n == 0):
        return {'no point': r == -1}
    return {'an index': _inside_list(r, a.p), 'lowest of the leftmost points': Upto(n, lambda k: lowest(At(a.p, r), At(a.p, k)))}


contract('hull.min_point.any', P, H + 'get_min_point_index', [('p', ListOf(VEC, 'any'))], lambda w, o: w.ConvexHull(o.p).get_min_point_index(), result=INT, exact=True, ensures=_min_any, invariants=LOWEST)
contract('hull.is_clockwise', P, 'convex_hull.is_clockwise', [('p', VEC), ('q', VEC), ('r', VEC)], lambda w, o: w.convex_hull.is_clockwise(o.p, o.q, o.r), result=BOOL,
         ensures=lambda a, r: Iff(r, Or(cross(a.p, a.q, a.r) < 0, And(cross(a.p, a.q, a.r) < Q('1e-6'), d2(a.p, a.q) > d2(a.p, a.r)))))
