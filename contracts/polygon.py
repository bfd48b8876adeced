"""Polygon2D: area, orientation, bounding box (C16); point tests and distance (C17); clipping (C18)."""
from itertools import product
from pyvc.contract import contract, summary
from pyvc.shapes import *
from pyvc.spec import *
from pyvc import core
from pyvc.loops import SymSeq, Some, Upto, Build, Built, Maybe, J, canon
from .geom import *
from .segment import dist_is

G = 'polygon_2d.Polygon2D.'


def edges(v):
    """the edges in order, closed"""
    return [NS(o=v[i], t=v[(i + 1) % len(v)]) for i in range(len(v))]


def dsa(v):
    """doubled signed area"""
    if len(v) < 3:
        return Q('0')
    r = Q('0')
    for e in edges(v):
        r = r + (e.o.x * e.t.y - e.t.x * e.o.y)
    return r


def pts_eq(u, v):
    return And(len(u) == len(v), *[same(p, q) for p, q in zip(u, v)])


def B(n):
    return f'{n} vertices'


# ---------------------------------------------------------------- C16
P = 'C16'
PTS = lambda n: ListOf(VEC, n)
for n in (0, 1, 2, 3, 4):
    contract(f'poly.ctor_list.{n}', P, G + '__init__', [('p', PTS(n))], lambda w, o: w.Polygon2D(o.p), result=Poly(), bounded=B(n),
             ensures=lambda a, r: pts_eq(r.v, a.p), exact=True)
    contract(f'poly.vertices.{n}', P, G + 'vertices', [('g', Poly(n))], lambda w, o: o.g.vertices(), result=ListOf(VEC), fresh=False, bounded=B(n),
             ensures=lambda a, r: pts_eq(r, a.g.v), exact=True)
    contract(f'poly.vertices_.{n}', P, G + 'vertices_', [('g', Poly(n))], lambda w, o: o.g.vertices_(), result=ListOf(VEC), fresh=False, bounded=B(n),
             ensures=lambda a, r: pts_eq(r, a.g.v), exact=True)
    contract(f'poly.add_vertex.{n}', P, G + 'add_vertex', [('g', Poly(n)), ('q', VEC)], lambda w, o: o.g.add_vertex(o.q), mut=['g'], bounded=B(n),
             ensures=lambda a, r, p: pts_eq(p.g.v, a.g.v + [a.q]), exact=True)
    contract(f'poly.list_grows.{n}', P, G + 'vertices', [('g', Poly(n)), ('q', VEC)], lambda w, o: o.g.vertices().append(o.q), bounded=B(n))
for n in (1, 2, 3):
    contract(f'poly.ctor_args.{n}', P, G + '__init__', [('p', PTS(n))], lambda w, o: w.Polygon2D(*o.p), result=Poly(), bounded=B(n),
             ensures=lambda a, r: pts_eq(r.v, a.p), exact=True)
for n, m in ((0, 3), (1, 2), (3, 1), (3, 3), (4, 0)):
    contract(f'poly.assign.{n}.{m}', P, G + 'assign', [('g', Poly(n)), ('p', PTS(m))], lambda w, o: o.g.assign(o.p), mut=['g'], result=Poly(), returns='g', bounded=B(n),
             ensures=lambda a, r, p: pts_eq(p.g.v, a.p if a.p else a.g.v), exact=True)
contract('poly.ctor0', P, G + '__init__', [], lambda w, o: w.Polygon2D(), result=Poly(), ensures=lambda a, r: pts_eq(r.v, [NS(x=0, y=0)]))
contract('poly.clear', P, G + 'clear', [('g', Poly(3))], lambda w, o: o.g.clear(), mut=['g'], bounded=B(3), ensures=lambda a, r, p: pts_eq(p.g.v, [NS(x=0, y=0)]))


def _box(a, r):
    v = a.g.v
    if not v:
        return And(r.l == 0, r.w == 0)
    return {'left': r.x == Min(*[p.x for p in v]), 'top': r.y == Min(*[p.y for p in v]),
            'right': r.x + r.l == Max(*[p.x for p in v]), 'bottom': r.y + r.w == Max(*[p.y for p in v])}


def _mid(a, r):
    v = a.g.v
    return {'x': 2 * r.x == Min(*[p.x for p in v]) + Max(*[p.x for p in v]), 'y': 2 * r.y == Min(*[p.y for p in v]) + Max(*[p.y for p in v]), 'valid': r.valid}


for n in (0, 1, 2, 3, 4, 6):
    runs = n > 4
    contract(f'poly.bounding_box.{n}', P, G + 'get_bounding_box', [('g', Poly(n))], lambda w, o: o.g.get_bounding_box(), result=RECT, bounded=B(n), runs=runs, ensures=_box)
    if n:
        contract(f'poly.bounding_box_center.{n}', P, G + 'bounding_box_center', [('g', Poly(n))], lambda w, o: o.g.bounding_box_center(), result=VECV, bounded=B(n),
                 runs=runs, ensures=_mid)
for n in (0, 1, 2, 3, 4, 6):
    contract(f'poly.dsa.{n}', P, G + 'double_signed_area', [('g', Poly(n))], lambda w, o: o.g.double_signed_area(), result=REAL, bounded=B(n),
             ensures=lambda a, r: r == dsa(a.g.v))
    contract(f'poly.area.{n}', P, G + 'area', [('g', Poly(n))], lambda w, o: o.g.area(), result=REAL, bounded=B(n),
             ensures=lambda a, r: 2 * r == Abs(dsa(a.g.v)))
    contract(f'poly.orientation.{n}', P, [G + 'is_counter_clockwise', G + 'is_clockwise'], [('g', Poly(n))],
             lambda w, o: (o.g.is_counter_clockwise(), o.g.is_clockwise()), result=Pair(BOOL, BOOL), bounded=B(n), exact=True,
             ensures=lambda a, r: {'counter-clockwise': Iff(r[0], dsa(a.g.v) > 0), 'clockwise': Iff(r[1], dsa(a.g.v) < 0)})
for n in (3, 4, 5):
    contract(f'poly.turned.{n}', P, G + 'double_signed_area', [('p', PTS(n))],
             lambda w, o: (w.Polygon2D(o.p).double_signed_area(), w.Polygon2D(o.p[1:] + o.p[:1]).double_signed_area(), w.Polygon2D(o.p[::-1]).double_signed_area()),
             result=Pair(REAL, REAL, REAL), bounded=B(n), ensures=lambda a, r: {'another first vertex': r[1] == r[0], 'reversed': r[2] == -r[0]})

# the same for polygons with any number of vertices: the loops are decided by invariants
GA, LA = Poly('any'), ListOf(VEC, 'any')


def V():
    """the vertices the contract talks about"""
    a = core.cur().views
    return a.g.v if hasattr(a, 'g') else a.p


def edge(v, k):
    return NS(o=At(v, k), t=At(v, Next(v, k)))


def area_so_far(v, name='area'):
    return Fold(name, Q('0'), lambda acc, k: acc + (lambda e: e.o.x * e.t.y - e.t.x * e.o.y)(edge(v, k)))


def dsa_any(v):
    if not isinstance(v, SymSeq):
        return dsa(v)
    return Q('0') if core.cur().branch(Len(v) < 3) else area_so_far(v).at(Len(v))


def all_same(u, v):
    """same points in the same order"""
    if not Proving():
        return pts_eq(u, v)
    return Every(u, lambda k: same(At(u, k), At(v, k)))


def appended(u, v, q):
    if not Proving():
        return pts_eq(u, v + [q])
    return Every(u, lambda k: same(At(u, k), q) if core.cur().branch(k == Len(v)) else same(At(u, k), At(v, k)))


def area_forms(v, name='area'):
    """what a sum over the edges holds after i of them: from the first edge on, or from the closing edge on"""
    f = lambda: area_so_far(v(), name)

    def closing():
        e = NS(o=At(v(), Len(v()) - 1), t=At(v(), 0))
        return e.o.x * e.t.y - e.t.x * e.o.y
    return [('sum so far', 'real', lambda x, i: x == f().at(i)), ('sum from the closing edge', 'real', lambda x, i: x == closing() + f().at(i - 1))]


AREA = area_forms(V)
contract('poly.ctor_list.any', P, G + '__init__', [('p', LA)], lambda w, o: w.Polygon2D(o.p), result=GA,
         ensures=lambda a, r: {'number of vertices': Len(r.v) == Len(a.p), 'the points in order': all_same(r.v, a.p)}, exact=True)
contract('poly.vertices.any', P, G + 'vertices', [('g', GA)], lambda w, o: o.g.vertices(), result=LA, fresh=False,
         ensures=lambda a, r: {'number of vertices': Len(r) == Len(a.g.v), 'the points in order': all_same(r, a.g.v)}, exact=True)
contract('poly.add_vertex.any', P, G + 'add_vertex', [('g', GA), ('q', VEC)], lambda w, o: o.g.add_vertex(o.q), mut=['g'], exact=True,
         ensures=lambda a, r, p: {'number of vertices': Len(p.g.v) == Len(a.g.v) + 1, 'the point is added': appended(p.g.v, a.g.v, a.q)})
contract('poly.list_grows.any', P, G + 'vertices', [('g', GA), ('q', VEC)], lambda w, o: o.g.vertices().append(o.q))
contract('poly.dsa.any', P, G + 'double_signed_area', [('g', GA)], lambda w, o: o.g.double_signed_area(), result=REAL, invariants=AREA,
         ensures=lambda a, r: r == dsa_any(a.g.v))
contract('poly.area.any', P, G + 'area', [('g', GA)], lambda w, o: o.g.area(), result=REAL, invariants=AREA, ensures=lambda a, r: 2 * r == Abs(dsa_any(a.g.v)))
contract('poly.orientation.any', P, [G + 'is_counter_clockwise', G + 'is_clockwise'], [('g', GA)], lambda w, o: (o.g.is_counter_clockwise(), o.g.is_clockwise()),
         result=Pair(BOOL, BOOL), exact=True, invariants=AREA,
         ensures=lambda a, r: {'counter-clockwise': Iff(r[0], dsa_any(a.g.v) > 0), 'clockwise': Iff(r[1], dsa_any(a.g.v) < 0)})


def bounds():
    out = []
    for ax in 'xy':
        c = lambda k, ax=ax: getattr(At(V(), k), ax)
        out.append((f'is one of the {ax}', 'real', lambda x, i, c=c: Some(lambda w: x == c(w), i)))
        out.append((f'below every {ax}', 'real', lambda x, i, c=c: Upto(i, lambda k: x <= c(k))))
        out.append((f'not above the first {ax}', 'real', lambda x, i, c=c: x <= c(0)))
        out.append((f'not below the first {ax}', 'real', lambda x, i, c=c: x >= c(0)))
        out.append((f'above every {ax}', 'real', lambda x, i, c=c: Upto(i, lambda k: x >= c(k))))
    return out


def _box_any(a, r):
    v = a.g.v
    if not isinstance(v, SymSeq):
        return _box(a, r)
    if core.cur().branch(Len(v) == 0):
        return And(r.l == 0, r.w == 0)
    return {'in the box': Every(v, lambda k: And(r.x <= At(v, k).x, At(v, k).x <= r.x + r.l, r.y <= At(v, k).y, At(v, k).y <= r.y + r.w)),
            'left reached': lambda: Exists(v, lambda k: At(v, k).x == r.x), 'right reached': lambda: Exists(v, lambda k: At(v, k).x == r.x + r.l),
            'top reached': lambda: Exists(v, lambda k: At(v, k).y == r.y), 'bottom reached': lambda: Exists(v, lambda k: At(v, k).y == r.y + r.w)}


REACHED = ['left reached', 'right reached', 'top reached', 'bottom reached']


contract('poly.bounding_box_center.any', P, G + 'bounding_box_center', [('g', GA)], lambda w, o: o.g.bounding_box_center(), result=VECV, requires=lambda a: Len(a.g.v) >= 1,
         uses=['poly.bounding_box.any'], ensures=lambda a, r: _mid_any(a, r))
contract('poly.assign.any', P, G + 'assign', [('g', GA), ('p', LA)], lambda w, o: o.g.assign(o.p), mut=['g'], result=GA, returns='g', exact=True,
         requires=lambda a: Len(a.p) >= 1, ensures=lambda a, r, p: {'number of vertices': Len(p.g.v) == Len(a.p), 'the points in order': all_same(p.g.v, a.p)})
contract('poly.assign_none.any', P, G + 'assign', [('g', GA)], lambda w, o: o.g.assign([]), mut=['g'], result=GA, returns='g', exact=True,
         ensures=lambda a, r, p: {'number of vertices': Len(p.g.v) == Len(a.g.v), 'nothing changes': all_same(p.g.v, a.g.v)})
contract('poly.clear.any', P, G + 'clear', [('g', GA)], lambda w, o: o.g.clear(), mut=['g'], ensures=lambda a, r, p: And(Len(p.g.v) == 1, same(At(p.g.v, 0), NS(x=0, y=0))))


def _mid_any(a, r):
    if not Proving():
        return _mid(a, r)
    b = Call('poly.bounding_box.any', g=a.g)
    return {'x': 2 * r.x == 2 * b.x + b.l, 'y': 2 * r.y == 2 * b.y + b.w, 'valid': r.valid}


def turned(v):
    return v[1:] + v[:1]


def _turned(a, r):
    v = a.p
    if Proving():
        n = Len(v)
        F, R = area_so_far(v), area_so_far(turned(v), 'area of the turned polygon')
        Induct('turned', n - 1, lambda k: R.at(k) == F.at(k + 1) - F.at(1))
        R.at(n)
    return r == dsa_any(v)


def _reversed(a, r):
    v = a.p
    if Proving():
        n = Len(v)
        F, R = area_so_far(v), area_so_far(v[::-1], 'area of the reversed polygon')
        Induct('reversed', n - 1, lambda k: R.at(k) == F.at(n - 1 - k) - F.at(n - 1))
        R.at(n)
    return r == -dsa_any(v)


contract('poly.turned.any', P, G + 'double_signed_area', [('p', LA)], lambda w, o: w.Polygon2D(turned(o.p)).double_signed_area(), result=REAL,
         requires=lambda a: Len(a.p) >= 3, ensures=_turned, fresh=False,
         invariants=area_forms(lambda: turned(V()), 'area of the turned polygon'))
contract('poly.reversed.any', P, G + 'double_signed_area', [('p', LA)], lambda w, o: w.Polygon2D(o.p[::-1]).double_signed_area(), result=REAL,
         requires=lambda a: Len(a.p) >= 3, ensures=_reversed, fresh=False,
         invariants=area_forms(lambda: V()[::-1], 'area of the reversed polygon'))
summary('poly.bounding_box.any', G + 'get_bounding_box', lambda w, g: {'g': g})
contract('poly.bounding_box.any', P, G + 'get_bounding_box', [('g', GA)], lambda w, o: o.g.get_bounding_box(), result=RECT, ensures=_box_any, invariants=bounds())

# ---------------------------------------------------------------- C17
P = 'C17'


def crosses(e, p):
    """the edge crosses the open half line from p to the right (the lower end of an edge belongs to it, the upper one does not)"""
    up, dn = And(e.o.y <= p.y, e.t.y > p.y), And(e.t.y <= p.y, e.o.y > p.y)
    return Or(And(up, cross(e.o, e.t, p) > 0), And(dn, cross(e.o, e.t, p) < 0))


def xor(a, b):
    return Not(Iff(a, b))


def inside(v, p):
    r = False
    for e in edges(v):
        r = xor(r, crosses(e, p))
    return r


def on_outline(v, p):
    if len(v) == 1:
        return same(v[0], p)
    return Or(*[on_seg(e, p) for e in edges(v)])


def _contains(a, r):
    return {'points of the outline': Implies(on_outline(a.g.v, a.p), Iff(r, a.b)),
            'other points by the crossing rule': Implies(Not(on_outline(a.g.v, a.p)), Iff(r, inside(a.g.v, a.p)))}


def _where(rng, a):
    """points at telling places: vertices, edges, level with a vertex"""
    v = a.g.v
    k = rng.random()
    if not v:
        return
    q = rng.choice(v)
    if k < .15:
        a.p = NS(x=q.x, y=q.y)
    elif k < .3:
        u = v[(v.index(q) + 1) % len(v)]
        t = rng.choice([.5, .25, .75])
        a.p = NS(x=q.x + t * (u.x - q.x), y=q.y + t * (u.y - q.y))
    elif k < .5:
        a.p.y = q.y
    elif k < .6:
        a.p.x = q.x
    elif k < .8:
        u, z = rng.choice(v), rng.choice(v)
        a.p = NS(x=(q.x + u.x + 2 * z.x) / 4, y=(q.y + u.y + 2 * z.y) / 4)


for n in (0, 1, 2, 3, 4, 5, 7):
    contract(f'poly.contains.{n}', P, G + 'contains', [('g', Poly(n)), ('p', VEC), ('b', BOOL)], lambda w, o: o.g.contains(o.p, o.b), result=BOOL, bounded=B(n),
             ensures=_contains if n else lambda a, r: Not(r), exact=True, search=_where, runs=n > 2, uses=['seg.on_segment', 'seg.exist_intersection'], weight=n)
contract('poly.contains_default', P, G + 'contains', [('g', Poly(3)), ('p', VEC)], lambda w, o: o.g.contains(o.p), result=BOOL, bounded=B(3),
         ensures=lambda a, r: _contains(NS(g=a.g, p=a.p, b=True), r), exact=True, search=_where, runs=True)


def parity(v, p):
    """are there oddly many crossings of the first k edges?"""
    return Fold('parity', False, lambda acc, k: xor(acc, crosses(edge(v, k), p)))


def holds(v, p):
    return lambda k: on_seg(edge(v, k), p)


def _contains_any(a, r):
    v, p = a.g.v, a.p
    if not isinstance(v, SymSeq):
        return _contains(a, r)
    if Proving() and not core.cur().in_summary:
        b = Call('poly.bounding_box.any', g=a.g)
        F, n = parity(v, p), Len(v)
        h = lambda k: At(v, 0 if core.cur().branch(k == n) else k).y > p.y
        br = core.cur().branch
        if br(Or(p.y < b.y, p.y > b.y + b.w, p.x > b.x + b.l)):
            Induct('nothing to the right is crossed', n, lambda k: Not(F.at(k)))
        elif br(p.x < b.x):
            Induct('every crossing changes sides', n, lambda k: Iff(F.at(k), xor(h(0), h(k))))
    return {'points of the outline': Every(v, lambda k: Implies(on_seg(edge(v, k), p), Iff(r, a.b)), True),
            'other points by the crossing rule': Or(Exists(v, holds(v, p), code=True), Iff(r, parity(v, p).at(Len(v))))}


PARITY = [('is the parity so far', 'bool', lambda x, i: Iff(x, parity(V(), core.cur().views.p).at(i))),
          ('no edge so far holds the point', None, lambda x, i: Upto(i, lambda k: Not(on_seg(edge(V(), k), core.cur().views.p))))]
contract('poly.contains.any', P, G + 'contains', [('g', GA), ('p', VEC), ('b', BOOL)], lambda w, o: o.g.contains(o.p, o.b), result=BOOL, requires=lambda a: Len(a.g.v) >= 2,
         ensures=_contains_any, exact=True, search=_where, invariants=PARITY, uses=['poly.bounding_box.any', 'seg.on_segment', 'seg.meets_level', 'seg.exist_intersection'],
         ignore={'poly.bounding_box.any': REACHED})


def _dist(a, r):
    v = a.g.v
    filled = And(a.b, Or(on_outline(v, a.p), inside(v, a.p)))
    d = {'nonneg': r >= 0, 'filled': Implies(filled, r == 0)}
    if len(v) == 1:
        d['a single vertex'] = r * r == d2(v[0], a.p)
        return d
    d['reached at an edge'] = Implies(Not(filled), Or(*[dist_is(r, e, a.p) for e in edges(v)]))
    d['no edge is nearer'] = Implies(Not(filled), And(*[r * r <= d2(point_at(e, a.k), a.p) for e in edges(v)]))
    return d


for n in (1, 2, 3, 4, 6):
    contract(f'poly.dist.{n}', P, G + 'dist', [('g', Poly(n)), ('p', VEC), ('b', BOOL)], lambda w, o: o.g.dist(o.p, o.b), result=REAL, ghosts=[('k', UNIT)],
             requires=lambda a: And(a.k >= 0, a.k <= 1), bounded=B(n), ensures=_dist, search=_where, runs=n > 1, weight=n, uses=['seg.on_segment', 'seg.exist_intersection', 'seg.dist_point'])



def edge_dist(k):
    """distance to the k-th edge, by the contract of Segment2D.dist"""
    return Call('seg.dist_point', s=edge(V(), k), p=core.cur().views.p)


def grows(u, v):
    Fact('squares grow', lambda u, v: ([0 <= u, u <= v], u * u <= v * v), u, v)


def _dist_any(a, r):
    v, p = a.g.v, a.p
    if not isinstance(v, SymSeq):
        return _dist(a, r)
    br = core.cur().branch
    if br(Len(v) == 1):
        return {'a single vertex': r * r == d2(At(v, 0), p), 'nonneg': r >= 0}
    deep = And(a.b, parity(v, p).at(Len(v)))

    def not_nearer(k):
        k = 0 if br(Len(v) == 2) else k         # two vertices: both edges are the same points
        if not core.cur().in_summary:
            grows(r, edge_dist(k))
        return Or(deep, r * r <= d2(point_at(edge(v, k), a.k), p))
    return {'nonneg': r >= 0, 'inside': Implies(deep, r == 0), 'outline': Every(v, lambda k: Implies(And(a.b, on_seg(edge(v, k), p)), r == 0), True),
            'reached at an edge': lambda: Or(deep, Exists(v, lambda k: dist_is(r, edge(v, k), p))), 'no edge is nearer': Every(v, not_nearer, True)}


NEAREST = [('is the distance of an edge', 'real', lambda x, i: Some(lambda w: x == edge_dist(w), i)), ('no edge so far is nearer', 'real', lambda x, i: Upto(i, lambda k: x <= edge_dist(k)))]
contract('poly.dist.any', P, G + 'dist', [('g', GA), ('p', VEC), ('b', BOOL)], lambda w, o: o.g.dist(o.p, o.b), result=REAL, ghosts=[('k', UNIT)],
         requires=lambda a: [a.k >= 0, a.k <= 1, Len(a.g.v) >= 1], ensures=_dist_any, search=_where, invariants=NEAREST,
         uses=['poly.contains.any', 'seg.dist_point'], facts=['seg.dist_least'])
summary('poly.contains.any', G + 'contains', lambda w, g, p, b=True: dict(g=g, p=p, b=b) if isinstance(g._vertices, SymSeq) else None)

# ---------------------------------------------------------------- C18
P = 'C18'
KEEP = {'XLessEqual': ('x', 1), 'XMoreEqual': ('x', -1), 'YLessEqual': ('y', 1), 'YMoreEqual': ('y', -1)}


def half(c, p, thr):
    ax, s = KEEP[c]
    return s * getattr(p, ax) <= s * thr


def expected(v, keep):
    """what clipping returns when keep[i] tells which vertices are kept: vertices, or the pair of vertices whose edge is cut"""
    out = []
    for i in range(len(v)):
        j = (i + 1) % len(v)
        if keep[i] != keep[j]:
            out.append((v[i], v[j]))
        if keep[j]:
            out.append(v[j])
    return out


def is_expected(r, v, keep, ax, thr):
    e = expected(v, keep)
    if len(e) != len(r):
        return False
    xs = []
    for p, q in zip(r, e):
        if isinstance(q, tuple):
            xs.append(And(getattr(p, ax) == thr, cross(q[0], q[1], p) == 0))
        else:
            xs.append(same(p, q))
    return And(*xs)


def steep(c, v, thr):
    """edges that change sides do so by more than rounding"""
    ax = KEEP[c][0]
    return And(*[Implies(xor(half(c, e.o, thr), half(c, e.t, thr)), Abs(getattr(e.o, ax) - getattr(e.t, ax)) >= Q('1e-3')) for e in edges(v)])


def clip_line(w, c, thr):
    return w.Line2D(w.Vector2D(thr, 0.0), w.AngleDeg(90.0)) if KEEP[c][0] == 'x' else w.Line2D(w.Vector2D(0.0, thr), w.AngleDeg(0.0))


for c in KEEP:
    contract(f'poly.{c}', P, f'polygon_2d.{c}.__call__', [('p', VEC), ('k', REAL)], lambda w, o, c=c: getattr(w.polygon_2d, c)(o.k)(o.p), result=BOOL,
             ensures=lambda a, r, c=c: Iff(r, half(c, a.p, a.k)), exact=True)
    contract(f'poly.{c}.thr', P, f'polygon_2d.{c}.thr', [('k', REAL)], lambda w, o, c=c: getattr(w.polygon_2d, c)(o.k).thr(), result=REAL,
             ensures=lambda a, r: r == a.k, exact=True)
    for n in (0, 1, 2, 3, 4, 6):
        contract(f'poly.clip.{c}.{n}', P, G + 'get_line_clipped_polygon', [('p', PTS(n)), ('k', REAL)],
                 lambda w, o, c=c: w.Polygon2D.get_line_clipped_polygon(getattr(w.polygon_2d, c)(o.k), o.p, clip_line(w, c, o.k)), result=ListOf(VECV),
                 requires=lambda a, c=c: steep(c, a.p, a.k) if a.p else True, bounded=B(n), runs=n > 3 or (n == 3 and c != 'YMoreEqual'), fresh=False,
                 ensures=lambda a, r, c=c: {'valid points': And(*[p.valid for p in r]),
                                            'kept vertices and cut edges, in order': And(*[Implies(And(*[Iff(half(c, p, a.k), b) for p, b in zip(a.p, keep)]),
                                                                                                   is_expected(r, a.p, keep, KEEP[c][0], a.k))
                                                                                           for keep in product((False, True), repeat=len(a.p))]),
                                            'on the kept side': And(*[half(c, p, a.k) for p in r])})


def cut_or_kept(c):
    """what the k-th edge leaves: the point where it crosses the border, and its end"""
    def step(k):
        v, thr = V(), core.cur().views.k
        e = edge(v, k)
        here, there = [core.cur().branch(core.bexpr(half(c, p, thr))) for p in (e.o, e.t)]
        return ([('cut', e)] if here != there else []) + ([('end', e)] if there else [])

    def as_expected(o, what):
        x, e, thr = NS(x=o.x(), y=o.y(), valid=o.is_valid()), what[1], core.cur().views.k
        if what[0] == 'end':
            return {'the vertex': same(x, e.t), 'valid': x.valid}
        return {'valid': x.valid, 'on the border': getattr(x, KEEP[c][0]) == thr, 'on the line of the edge': cross(e.o, e.t, x) == 0}
    return [Build('kept vertices and cut edges', step, as_expected), Build('tells the kept vertices', lambda k: [half(c, At(V(), k), core.cur().views.k)], Iff, one=True)]


def _clip_any(c):
    def f(a, r):
        if not isinstance(a.p, SymSeq):
            ax, sg = KEEP[c]
            keep = [sg * getattr(p, ax).v <= sg * a.k.v for p in a.p]       # plain comparisons: no rounding is involved
            return {'kept vertices and cut edges, in order': And(is_expected(r, a.p, keep, KEEP[c][0], a.k), *[p.valid for p in r], *[half(c, p, a.k) for p in r])}
        return {'kept vertices and cut edges, in order': Built(r, 'kept vertices and cut edges', Len(a.p))}
    return f


for c in KEEP:
    contract(f'poly.clip.{c}.any', P, G + 'get_line_clipped_polygon', [('p', LA), ('k', REAL)],
             lambda w, o, c=c: w.Polygon2D.get_line_clipped_polygon(getattr(w.polygon_2d, c)(o.k), o.p, clip_line(w, c, o.k)), result=ListOf(VECV), fresh=False,
             requires=lambda a, c=c: Every(a.p, lambda k: (lambda e: Implies(xor(half(c, e.o, a.k), half(c, e.t, a.k)), Abs(getattr(e.o, KEEP[c][0]) - getattr(e.t, KEEP[c][0])) >= Q('1e-3')))(edge(a.p, k)), True),
             ensures=_clip_any(c), invariants=cut_or_kept(c))


def in_rect(t, p):
    return And(p.x >= t.x, p.x <= t.x + t.l, p.y >= t.y, p.y <= t.y + t.w)


def rect_ok(a):
    """no vertex below the rectangle (see the known finding); edges cross the border lines at an angle"""
    v, t = a.g.v, a.t
    return [And(t.l >= Q('1e-2'), t.w >= Q('1e-2')), And(*[p.y <= t.y + t.w for p in v]),
            And(*[And(Or(e.o.x == e.t.x, Abs(e.o.x - e.t.x) >= Q('1e-2')), Or(e.o.y == e.t.y, Abs(e.o.y - e.t.y) >= Q('1e-2'))) for e in edges(v)])]


def _rect(a, r):
    v, t = a.g.v, a.t
    k = 4 % len(v)
    return {'in the rectangle': And(*[in_rect(t, p) for p in r.v]),
            'vertices inside are kept': And(*[Implies(in_rect(t, p), Or(*[same(p, q) for q in r.v])) for p in v]),
            'untouched inside': Implies(And(*[in_rect(t, p) for p in v]), pts_eq(r.v, v[k:] + v[:k]))}


def _spread(rng, a):
    t = a.t
    xs, ys = [t.x, t.x + t.l, t.x + t.l / 2, t.x - 1, t.x + t.l + 1], [t.y, t.y + t.w, t.y + t.w / 2, t.y - 1, t.y - 2, t.y + t.w + 1]
    for p in a.g.v:
        if rng.random() < .4:
            p.x = rng.choice(xs)
        if rng.random() < .4:
            p.y = rng.choice(ys)


def _near(rng, a):
    t = a.t
    xs, ys = [t.x, t.x + t.l, t.x + t.l / 2, t.x - 1, t.x + t.l + 1], [t.y, t.y + t.w, t.y + t.w / 2, t.y - 1, t.y - 2]
    for p in a.g.v:
        if rng.random() < .4:
            p.x = rng.choice(xs)
        if rng.random() < .4 or p.y > t.y + t.w:
            p.y = rng.choice(ys)


for n in (1, 2, 3, 4, 6):
    contract(f'poly.clip_rect.{n}', P, G + 'get_rectangle_clipped_polygon', [('g', Poly(n)), ('t', RECT)], lambda w, o: o.g.get_rectangle_clipped_polygon(o.t), result=Poly(),
             requires=rect_ok, ensures=_rect, bounded=B(n), runs=n > 1, search=_near, weight=n)
    if n > 1:
        contract(f'poly.clip_rect_any.{n}', P, G + 'get_rectangle_clipped_polygon', [('g', Poly(n)), ('t', RECT)], lambda w, o: o.g.get_rectangle_clipped_polygon(o.t), result=Poly(),
                 requires=lambda a: [rect_ok(a)[0], rect_ok(a)[2]], bounded=B(n), runs=True, search=_spread,
                 ensures=lambda a, r: {'vertices inside are kept': And(*[Implies(in_rect(a.t, p), Or(*[same(p, q) for q in r.v])) for p in a.g.v])})


# clipping by a rectangle, any number of vertices: from three contracts of clipping by a line
def points_left(c, cut):
    """the end of the k-th edge if it is kept; where it changes sides perhaps a point, about which cut(point, edge) holds"""
    def step(k):
        v, thr = core.cur().views.p, core.cur().views.k
        e = edge(v, k)
        here, there = [core.cur().branch(core.bexpr(half(c, p, thr))) for p in (e.o, e.t)]
        return ([Maybe(('cut', e))] if here != there else []) + ([('end', e)] if there else [])

    def as_expected(o, what):
        x, e = NS(x=o.x(), y=o.y(), valid=o.is_valid()), what[1]
        return {'the vertex': same(x, e.t), 'valid': x.valid} if what[0] == 'end' else cut(x, e)
    return [Build('what is left', step, as_expected), Build('tells the kept vertices', lambda k: [half(c, At(core.cur().views.p, k), core.cur().views.k)], Iff, one=True)]


def between(u, x, v):
    return Or(And(u <= x, x <= v), And(v <= x, x <= u))


def within(x, p, q):
    return And(between(p.x, x.x, q.x), between(p.y, x.y, q.y))


def border(c, l, k):
    return [Or(l.a == 1, l.a == -1), l.b == 0, l.a * k + l.c == 0] if KEEP[c][0] == 'x' else [Or(l.b == 1, l.b == -1), l.a == 0, l.b * k + l.c == 0]


def after(v, k, f):
    """f(i) for the index i after k, without looking at the cases"""
    return Exists(v, lambda i: And(Implies(k + 1 < Len(v), i == k + 1), Implies(Not(k + 1 < Len(v)), i == 0), f(i)))


def _turn(a, r):
    if not isinstance(a.p, SymSeq):
        return pts_eq(r, a.p[1:] + a.p[:1])
    if not core.cur().in_summary:
        return {'all of them, from the second': Built(r, 'what is left', Len(a.p))}
    return {'as many': Len(r) == Len(a.p), 'all of them, from the second': Each(r, lambda k, x: after(a.p, k, lambda i: same(x, At(a.p, i))))}


def _each(c):
    def f(a, r):
        if not isinstance(a.p, SymSeq):
            return And(*[And(half(c, x, a.k), Or(*[within(x, p, q) for p in a.p for q in a.p])) for x in r]) if len(a.p) < 9 else True
        if not core.cur().in_summary:
            return {'on the kept side, between two vertices': Built(r, 'what is left', Len(a.p))}
        return {'on the kept side, between two vertices': Each(r, lambda k, x: And(half(c, x, a.k), Exists(a.p, lambda i: Exists(a.p, lambda j: within(x, At(a.p, i), At(a.p, j))))))}
    return f


def _keeps(c):
    def f(a, r):
        if not isinstance(a.p, SymSeq):
            return And(*[Implies(half(c, p, a.k), Or(*[same(p, x) for x in r])) for p in a.p]) if len(a.p) < 40 else True
        if not core.cur().in_summary:
            return {'kept vertices are in it': Built(r, 'what is left', Len(a.p))}
        way = core.cur().memo.setdefault('way', [])         # where the vertex the contract talks about has gone so far
        k = way[-1] if way else J()
        here = And(k < Len(a.p), half(c, At(a.p, k), a.k))
        w = core.SI(canon(core.cur().fresh_int('w'), True))
        way.append(w)
        return {'kept vertices are in it': Implies(here, And(w >= 0, w < Len(r), same(At(r, w), At(a.p, k))))}
    return f


def _line_at(rng, a, c):
    s = rng.choice((1.0, -1.0))
    a.l.a, a.l.b, a.l.c = (s, 0.0, -s * a.k) if KEEP[c][0] == 'x' else (0.0, s, -s * a.k)


def _all_kept(rng, a, c):
    ax, s = KEEP[c]
    if a.p:
        a.k = s * max(s * getattr(p, ax) for p in a.p) + rng.choice((0.0, s * 1.0))


for c in KEEP:
    call = lambda w, o, c=c: w.Polygon2D.get_line_clipped_polygon(getattr(w.polygon_2d, c)(o.k), o.p, o.l)
    bind = lambda w, f, p, l, c=c: dict(p=p, k=f.thr(), l=l) if isinstance(p, SymSeq) and isinstance(f, getattr(w.polygon_2d, c)) else None
    F = G + 'get_line_clipped_polygon'
    three = [('p', LA), ('k', REAL), ('l', LINE)]
    contract(f'poly.clip_all.{c}', P, F, three, call, result=LA, fresh=False, requires=lambda a, c=c: Every(a.p, lambda k: half(c, At(a.p, k), a.k)),
             ensures=_turn, invariants=points_left(c, lambda x, e: False), search=lambda rng, a, c=c: _all_kept(rng, a, c), exact=True)
    contract(f'poly.clip_each.{c}', P, F, three, call, result=LA, fresh=False, requires=lambda a, c=c: border(c, a.l, a.k), split=lambda a, c=c: [border(c, a.l, a.k)[0]],
             ensures=_each(c), search=lambda rng, a, c=c: _line_at(rng, a, c),
             invariants=points_left(c, lambda x, e, c=c: {'valid': x.valid, 'kept': half(c, x, core.cur().views.k), 'between': within(x, e.o, e.t)}))
    contract(f'poly.clip_keeps.{c}', P, F, three, call, result=LA, fresh=False, ensures=_keeps(c), invariants=points_left(c, lambda x, e: True), exact=True)
    for k in ('all', 'each', 'keeps'):
        summary(f'poly.clip_{k}.{c}', F, bind)


def fourth(v, k):
    for _ in range(4):
        k = Next(v, k)
    return k


def rect_any(a):
    """as rect_ok, without the edges at an angle: in real numbers they do not matter"""
    if not isinstance(a.g.v, SymSeq):
        return rect_ok(a) if a.g.v else False
    return [And(a.t.l >= Q('1e-2'), a.t.w >= Q('1e-2')), Len(a.g.v) >= 1, Every(a.g.v, lambda k: At(a.g.v, k).y <= a.t.y + a.t.w)]


def rect_some(a):
    if not isinstance(a.g.v, SymSeq):
        return [rect_ok(a)[0], rect_ok(a)[2]] if a.g.v else False
    return [And(a.t.l >= Q('1e-2'), a.t.w >= Q('1e-2')), Len(a.g.v) >= 1]


clipped = lambda w, o: o.g.get_rectangle_clipped_polygon(o.t)
contract('poly.rect_in.any', P, G + 'get_rectangle_clipped_polygon', [('g', GA), ('t', RECT)], clipped, result=Poly('any'), requires=rect_any, search=_near,
         ensures=lambda a, r: {'in the rectangle': Every(r.v, lambda k: in_rect(a.t, At(r.v, k)))},
         uses=['poly.clip_each.XLessEqual', 'poly.clip_all.YLessEqual', 'poly.clip_each.XMoreEqual', 'poly.clip_each.YMoreEqual'])
contract('poly.rect_keeps.any', P, G + 'get_rectangle_clipped_polygon', [('g', GA), ('t', RECT)], clipped, result=Poly('any'), requires=rect_some, search=_spread,
         ensures=lambda a, r: {'vertices inside are kept': Every(a.g.v, lambda k: Implies(in_rect(a.t, At(a.g.v, k)), found(r.v, At(a.g.v, k))))},
         uses=[f'poly.clip_keeps.{c}' for c in KEEP])
contract('poly.rect_whole.any', P, G + 'get_rectangle_clipped_polygon', [('g', GA), ('t', RECT)], clipped, result=Poly('any'),
         requires=lambda a: [Every(a.g.v, lambda k: in_rect(a.t, At(a.g.v, k))), Len(a.g.v) >= 1], search=lambda rng, a: _inside(rng, a), exact=True,
         ensures=lambda a, r: {'as many': Len(r.v) == Len(a.g.v), 'untouched inside': Every(r.v, lambda k: same(At(r.v, k), At(a.g.v, fourth(a.g.v, k))))},
         uses=[f'poly.clip_all.{c}' for c in KEEP])


def found(v, p):
    if not isinstance(v, SymSeq):
        return Or(*[same(q, p) for q in v])
    w = core.cur().memo['way'][-1]
    return And(w >= 0, w < Len(v), same(At(v, w), p))


def _inside(rng, a):
    t = a.t
    xs, ys = [t.x, t.x + t.l, t.x + t.l / 2], [t.y, t.y + t.w, t.y + t.w / 2]
    for p in a.g.v:
        p.x, p.y = rng.choice(xs), rng.choice(ys)


def square(w):
    return w.Polygon2D([w.Vector2D(x, y) for x, y in ((10, 10), (0, 15), (-10, 10), (-10, -10), (10, -10))])


contract('poly.clip_bottom', P, G + 'get_rectangle_clipped_polygon', [], lambda w, o: square(w).get_rectangle_clipped_polygon(w.Rect2D(-20.0, -30.0, 40.0, 30.0)), result=Poly(),
         ensures=lambda a, r: {'the kept half': Abs(dsa(r.v)) == 400}, known=True)
