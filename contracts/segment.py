"""Segment2D: construction, nearest point, distance (C08); intersection tests (C09)."""
from pyvc.contract import contract, summary
from pyvc.shapes import *
from pyvc.spec import *
from pyvc import core
from .geom import *

S = 'segment_2d.Segment2D.'
E6 = '1e-6'


def dist_is(r, s, p):
    """r is the distance from p to the closed segment s"""
    ip, l2 = dot(s.o, s.t, p), d2(s.o, s.t)
    return And(r >= 0, Implies(ip <= 0, r * r == d2(s.o, p)), Implies(And(ip >= l2, l2 > 0), r * r == d2(s.t, p)),
               Implies(And(ip >= 0, ip <= l2, l2 > 0), r * r * l2 == Sq(cross(s.o, s.t, p))))


# ---------------------------------------------------------------- C08
P = 'C08'
contract('seg.ctor2', P, S + '__init__', [('p', VEC), ('q', VEC)], lambda w, o: w.Segment2D(o.p, o.q), result=SEG,
         ensures=lambda a, r: And(same(r.o, a.p), same(r.t, a.q)), exact=True)
contract('seg.ctor4', P, S + '__init__', [('p', VEC), ('q', VEC)], lambda w, o: w.Segment2D(o.p.x(), o.p.y(), o.q.x(), o.q.y()), result=SEG,
         ensures=lambda a, r: And(same(r.o, a.p), same(r.t, a.q)), exact=True)
contract('seg.ctor0', P, S + '__init__', [], lambda w, o: w.Segment2D(), result=SEG,
         ensures=lambda a, r: And(r.o.x == 0, r.o.y == 0, r.t.x == 0, r.t.y == 0))
contract('seg.assign2', P, S + 'assign', [('s', SEG), ('p', VEC), ('q', VEC)], lambda w, o: o.s.assign(o.p, o.q), mut=['s'],
         ensures=lambda a, r, p: And(same(p.s.o, a.p), same(p.s.t, a.q)), exact=True)
contract('seg.assign4', P, S + 'assign', [('s', SEG), ('p', VEC), ('q', VEC)], lambda w, o: o.s.assign(o.p.x(), o.p.y(), o.q.x(), o.q.y()), mut=['s'],
         ensures=lambda a, r, p: And(same(p.s.o, a.p), same(p.s.t, a.q)), exact=True)
for sh in (ANG, DEG):
    g = (lambda d: d.d) if sh is ANG else (lambda d: d)
    contract(f'seg.polar.{sh.name}', P, S + '__init__', [('p', VEC), ('k', REAL), ('d', sh)], lambda w, o: w.Segment2D(o.p, o.k, o.d), result=SEG,
             ensures=lambda a, r, g=g: {'origin': same(r.o, a.p), 'terminal': And(r.t.x == a.p.x + a.k * Cosd(g(a.d)), r.t.y == a.p.y + a.k * Sind(g(a.d)))})
contract('seg.assign_polar', P, S + 'assign', [('s', SEG), ('p', VEC), ('k', REAL), ('d', ANG)], lambda w, o: o.s.assign(o.p, o.k, o.d), mut=['s'],
         ensures=lambda a, r, p: {'origin': same(p.s.o, a.p), 'terminal': And(p.s.t.x == a.p.x + a.k * Cosd(a.d.d), p.s.t.y == a.p.y + a.k * Sind(a.d.d))})
for m, f in (('origin', 'o'), ('terminal', 't')):
    contract(f'seg.{m}', P, S + m, [('s', SEG)], lambda w, o, m=m: getattr(o.s, m)(), result=VECV,
             ensures=lambda a, r, f=f: And(same(r, getattr(a.s, f)), r.valid), exact=True)
    contract(f'seg.{m}_', P, S + m + '_', [('s', SEG)], lambda w, o, m=m: getattr(o.s, m + '_')(), result=VECV, fresh=False,
             ensures=lambda a, r, f=f: And(same(r, getattr(a.s, f)), r.valid), exact=True)
contract('seg.is_valid', P, S + 'is_valid', [('s', SEG)], lambda w, o: o.s.is_valid(), result=BOOL,
         ensures=lambda a, r: Iff(r, Or(Abs(a.s.o.x - a.s.t.x) >= Q(E6), Abs(a.s.o.y - a.s.t.y) >= Q(E6))))
contract('seg.line', P, S + 'line', [('s', SEG)], lambda w, o: o.s.line(), result=LINE,
         ensures=lambda a, r: {'through the origin': r.a * a.s.o.x + r.b * a.s.o.y + r.c == 0, 'through the terminal': r.a * a.s.t.x + r.b * a.s.t.y + r.c == 0,
                               'proper': Implies(Not(same(a.s.o, a.s.t)), Or(Not(r.a == 0), Not(r.b == 0)))})
contract('seg.length', P, S + 'length', [('s', SEG)], lambda w, o: o.s.length(), result=REAL,
         ensures=lambda a, r: And(r >= 0, r * r == d2(a.s.o, a.s.t)))
contract('seg.direction', P, S + 'direction', [('s', SEG)], lambda w, o: o.s.direction(), result=ANG,
         ensures=lambda a, r: Implies(Or(Abs(a.s.o.x - a.s.t.x) >= Q(E6), Abs(a.s.o.y - a.s.t.y) >= Q(E6)),
                                      And(a.s.t.x - a.s.o.x == Sqrt(d2(a.s.o, a.s.t)) * Cosd(r.d), a.s.t.y - a.s.o.y == Sqrt(d2(a.s.o, a.s.t)) * Sind(r.d))))
for m in ('swap', 'reverse'):
    contract(f'seg.{m}', P, S + m, [('s', SEG)], lambda w, o, m=m: getattr(o.s, m)(), result=SEG, returns='s', mut=['s'],
             ensures=lambda a, r, p: And(same(p.s.o, a.s.t), same(p.s.t, a.s.o)), exact=True)
contract('seg.reversed_segment', P, S + 'reversed_segment', [('s', SEG)], lambda w, o: o.s.reversed_segment(), result=SEG,
         ensures=lambda a, r: And(same(r.o, a.s.t), same(r.t, a.s.o)), exact=True)
contract('seg.copy', P, S + 'copy', [('s', SEG)], lambda w, o: o.s.copy(), result=SEG, ensures=lambda a, r: SEG.eq(r, a.s), exact=True)
contract('seg.perpendicular_bisector', P, S + 'perpendicular_bisector', [('s', SEG)], lambda w, o: o.s.perpendicular_bisector(), result=LINE, ghosts=[('g', VEC)],
         requires=lambda a: Or(Abs(a.s.o.x - a.s.t.x) >= Q(E6), Abs(a.s.o.y - a.s.t.y) >= Q(E6)),
         ensures=lambda a, r: {'proper': Or(Not(r.a == 0), Not(r.b == 0)),
                               'exactly the equidistant points': Iff(r.a * a.g.x + r.b * a.g.y + r.c == 0, d2(a.g, a.s.o) == d2(a.g, a.s.t))})
contract('seg.eq', P, S + '__eq__', [('s', SEG), ('u', SEG)], lambda w, o: (o.s == o.u, o.s != o.u), result=Pair(BOOL, BOOL),
         ensures=lambda a, r: {'eq': Iff(r[0], SEG.eq(a.s, a.u)), 'ne': Iff(r[1], Not(r[0]))}, exact=True)
contract('seg.equals_weakly', P, S + 'equals_weakly', [('s', SEG), ('u', SEG)], lambda w, o: o.s.equals_weakly(o.u), result=BOOL,
         ensures=lambda a, r: Iff(r, And(*[Abs(x - y) < Q(E6) for x, y in ((a.s.o.x, a.u.o.x), (a.s.o.y, a.u.o.y), (a.s.t.x, a.u.t.x), (a.s.t.y, a.u.t.y))])))
contract('seg.nearest_point', P, S + 'nearest_point', [('s', SEG), ('p', VEC)], lambda w, o: o.s.nearest_point(o.p), result=VECV, ghosts=[('k', UNIT)],
         requires=lambda a: And(a.k >= 0, a.k <= 1),
         ensures=lambda a, r: {'valid': r.valid, 'on the segment': on_seg(a.s, r),
                               'no point of the segment is nearer': d2(r, a.p) <= d2(point_at(a.s, a.k), a.p)}, rel='s.o', timeout=25)
contract('seg.dist_point', P, S + 'dist', [('s', SEG), ('p', VEC)], lambda w, o: o.s.dist(o.p), result=REAL,
         ensures=lambda a, r: {'distance': dist_is(r, a.s, a.p)}, rel='s.o', timeout=20)
contract('seg.dist_least', P, S + 'dist', [('s', SEG), ('p', VEC)], lambda w, o: o.s.dist(o.p), result=REAL, ghosts=[('k', UNIT)],
         requires=lambda a: And(a.k >= 0, a.k <= 1),
         ensures=lambda a, r: {'no point of the segment is nearer': r * r <= d2(point_at(a.s, a.k), a.p)}, rel='s.o', timeout=25)
contract('seg.farthest_dist', P, S + 'farthest_dist', [('s', SEG), ('p', VEC)], lambda w, o: o.s.farthest_dist(o.p), result=REAL, ghosts=[('k', UNIT)],
         requires=lambda a: And(a.k >= 0, a.k <= 1),
         ensures=lambda a, r: {'nonneg': r >= 0, 'attained': Or(r * r == d2(a.s.o, a.p), r * r == d2(a.s.t, a.p)),
                               'no point of the segment is farther': r * r >= d2(point_at(a.s, a.k), a.p)}, rel='s.o', timeout=20)


def _proj(a, r):
    l2, ip = d2(a.s.o, a.s.t), dot(a.s.o, a.s.t, a.p)
    ln = Sqrt(l2)
    long_ = ln >= Q(E6)
    return {'foot on the line': Implies(And(r.valid, long_), cross(a.s.o, a.s.t, r) == 0),
            'right angle': Implies(And(r.valid, long_), dot(a.s.o, a.s.t, r) == ip),
            'exists when the foot is on the segment': Implies(And(ip >= 0, ip <= l2), r.valid),
            'none when the foot is off the segment': Implies(And(long_, Or(ip < -Q('2e-6') * ln, ip > l2 + Q('2e-6') * ln)), Not(r.valid)),
            'a single point': Implies(Not(long_), And(r.valid, same(r, a.s.o)))}


contract('seg.projection', P, S + 'projection', [('s', SEG), ('p', VEC)], lambda w, o: o.s.projection(o.p), result=VECV, ensures=_proj, rel='s.o', timeout=20)
contract('seg.contains', P, S + 'contains', [('s', SEG), ('p', VEC)], lambda w, o: o.s.contains(o.p), result=BOOL,
         ensures=lambda a, r: {
             'inside the box': Implies(And((a.p.x - a.s.o.x) * (a.p.x - a.s.t.x) <= 0, (a.p.y - a.s.o.y) * (a.p.y - a.s.t.y) <= 0), r),
             'outside the box': Implies(Or(a.p.x < Min(a.s.o.x, a.s.t.x) - Q('1e-4'), a.p.x > Max(a.s.o.x, a.s.t.x) + Q('1e-4'),
                                           a.p.y < Min(a.s.o.y, a.s.t.y) - Q('1e-4'), a.p.y > Max(a.s.o.y, a.s.t.y) + Q('1e-4')), Not(r))})
contract('seg.on_segment', P, S + 'on_segment', [('s', SEG), ('p', VEC)], lambda w, o: o.s.on_segment(o.p), result=BOOL,
         ensures=lambda a, r: {'exactly the points of the segment': Iff(r, on_seg(a.s, a.p))}, exact=True, rel='s.o', timeout=20)
contract('seg.on_segment_k', P, S + 'on_segment', [('s', SEG)], lambda w, o: (o.s.on_segment(o.s.origin()), o.s.on_segment(o.s.terminal()),
                                                                            o.s.on_segment((o.s.origin() + o.s.terminal()) / 2)), result=Pair(BOOL, BOOL, BOOL),
         ensures=lambda a, r: {'origin': r[0], 'terminal': r[1], 'midpoint': r[2]}, exact=True)


def _weak(a, r):
    l2, ip = d2(a.s.o, a.s.t), dot(a.s.o, a.s.t, a.p)
    return {'points of the segment': Implies(on_seg(a.s, a.p), r),
            'points off the line': Implies(And(l2 >= Q('1e-12'), Abs(cross(a.s.o, a.s.t, a.p)) > Q('2e-6') * (Abs(a.s.t.x - a.s.o.x) + Abs(a.s.t.y - a.s.o.y))), Not(r)),
            'points past the ends': Implies(And(l2 >= Q('1e-12'), Or(ip < -Q('2e-6') * Sqrt(l2), ip > l2 + Q('2e-6') * Sqrt(l2))), Not(r))}


contract('seg.on_segment_weakly', P, S + 'on_segment_weakly', [('s', SEG), ('p', VEC)], lambda w, o: o.s.on_segment_weakly(o.p), result=BOOL, ensures=_weak, rel='s.o', timeout=25, uses=['seg.projection'])
contract('seg.check_on_line', P, S + 'check_intersects_on_line', [('s', SEG), ('p', VEC)], lambda w, o: o.s.check_intersects_on_line(o.p), result=BOOL,
         requires=lambda a: And(cross(a.s.o, a.s.t, a.p) == 0, Not(same(a.s.o, a.s.t))), ensures=lambda a, r: Iff(r, on_seg(a.s, a.p)),
         exact=True, history=False,
         search=lambda rng, v: setattr(v, 'p', NS(x=v.s.o.x + 2 * (v.s.t.x - v.s.o.x), y=v.s.o.y + 2 * (v.s.t.y - v.s.o.y)) if rng.random() < .5
                                       else NS(x=(v.s.o.x + v.s.t.x) / 2, y=(v.s.o.y + v.s.t.y) / 2)))

# ---------------------------------------------------------------- C09
P = 'C09'


def meet(s, u):
    """the closed segments have a common point"""
    a0, a1 = cross(s.o, s.t, u.o), cross(s.o, s.t, u.t)
    b0, b1 = cross(u.o, u.t, s.o), cross(u.o, u.t, s.t)
    return Or(And(a0 * a1 < 0, b0 * b1 < 0), on_seg(s, u.o), on_seg(s, u.t), on_seg(u, s.o), on_seg(u, s.t))


def proper_cross(s, u):
    return And(cross(s.o, s.t, u.o) * cross(s.o, s.t, u.t) < 0, cross(u.o, u.t, s.o) * cross(u.o, u.t, s.t) < 0)


contract('seg.exist_intersection', P, S + 'exist_intersection', [('s', SEG), ('u', SEG)], lambda w, o: o.s.exist_intersection(o.u), result=BOOL,
         ensures=lambda a, r: {'exactly when the segments meet': Iff(r, meet(a.s, a.u))}, exact=True, rel='s.o', timeout=40, weight=5)
contract('seg.exist_intersection_common', P, S + 'exist_intersection', [('s', SEG), ('u', SEG)], lambda w, o: (o.s.exist_intersection(o.u), o.u.exist_intersection(o.s)),
         ghosts=[('j', UNIT), ('k', UNIT)], result=Pair(BOOL, BOOL),
         requires=lambda a: [And(a.j >= 0, a.j <= 1, a.k >= 0, a.k <= 1), same(point_at(a.s, a.j), point_at(a.u, a.k))],
         ensures=lambda a, r: {'a common point is noticed': And(r[0], r[1])}, exact=True, rel='s.o', timeout=40, weight=5, thorough=True)


def meet_level(s, u):
    """a segment going right from s.o meets u, which does not reach beyond its right end"""
    y, c = s.o.y, cross(u.o, u.t, s.o)
    return Or(And(u.o.y <= y, y <= u.t.y, u.o.y < u.t.y, c >= 0), And(u.t.y <= y, y <= u.o.y, u.t.y < u.o.y, c <= 0),
              And(u.o.y == y, u.t.y == y, Or(u.o.x >= s.o.x, u.t.x >= s.o.x)))


def level(s, u):
    return [s.o.y == s.t.y, s.o.x <= s.t.x, u.o.x <= s.t.x, u.t.x <= s.t.x]


def is_level(w, s, u):
    return core.cur().implied(core.bexpr(And(*level(SEG.read(w, s), SEG.read(w, u)))))


def _level(rng, a):
    y = rng.choice([a.s.o.y, a.u.o.y, a.u.t.y])
    a.s.o.y = a.s.t.y = y
    if a.s.o.x > a.s.t.x:
        a.s.o.x, a.s.t.x = a.s.t.x, a.s.o.x
    a.s.t.x = max(a.s.t.x, a.u.o.x, a.u.t.x)


contract('seg.meets_level', P, S + 'exist_intersection', [('s', SEG), ('u', SEG)], lambda w, o: o.s.exist_intersection(o.u), result=BOOL, requires=lambda a: level(a.s, a.u),
         ensures=lambda a, r: {'exactly when the segments meet': Iff(r, meet_level(a.s, a.u))}, exact=True, rel='s.o', timeout=40, weight=5, uses=['seg.exist_intersection'], search=_level)
for m in ('exist_intersection_except_endpoint', 'intersects_except_endpoint'):
    contract(f'seg.{m}', P, S + m, [('s', SEG), ('u', SEG)], lambda w, o, m=m: getattr(o.s, m)(o.u), result=BOOL,
             ensures=lambda a, r: {'exactly when they cross inside both': Iff(r, proper_cross(a.s, a.u))}, exact=True)
contract('seg.exist_intersection_line', P, S + 'exist_intersection', [('s', SEG), ('l', LINE)], lambda w, o: o.s.exist_intersection(o.l), result=BOOL,
         ensures=lambda a, r: Iff(r, (a.l.a * a.s.o.x + a.l.b * a.s.o.y + a.l.c) * (a.l.a * a.s.t.x + a.l.b * a.s.t.y + a.l.c) <= 0), exact=True)


def _line(a, r):
    det = (a.s.t.x - a.s.o.x) * a.l.a + (a.s.t.y - a.s.o.y) * a.l.b
    e0, e1 = a.l.a * a.s.o.x + a.l.b * a.s.o.y + a.l.c, a.l.a * a.s.t.x + a.l.b * a.s.t.y + a.l.c
    Fact('of two numbers', lambda u, v, n: ([n >= 0, Or(And(u > 0, v > 0), And(u < 0, v < 0)), u * u >= Q('3e-8') * n, v * v >= Q('3e-8') * n], Or(u * v > Q('2e-8') * n, n == 0)), e0, e1, Sq(a.l.a) + Sq(a.l.b))
    return {'on the line': Implies(r.valid, a.l.a * r.x + a.l.b * r.y + a.l.c == 0),
            'none when missed': Implies(e0 * e1 > Q('2e-8') * (Sq(a.l.a) + Sq(a.l.b)), Not(r.valid)),
            'on the segment': Implies(r.valid, And(cross(a.s.o, a.s.t, r) == 0, in_box(a.s, r, Q('1e-4')))),
            'found': Implies(And(Abs(det) >= Q(E6), e0 * e1 <= 0), r.valid),
            'none when clearly missed': Implies(And(Or(And(e0 > 0, e1 > 0), And(e0 < 0, e1 < 0)), *[e * e >= Q('3e-8') * (Sq(a.l.a) + Sq(a.l.b)) for e in (e0, e1)]), Not(r.valid)),
            'found across': Implies(And(Abs(det) >= Q(E6), Or(And(e0 >= 0, e1 <= 0), And(e0 <= 0, e1 >= 0))), r.valid),
            'origin on the line': Implies(And(r.valid, e0 == 0), same(r, a.s.o)),
            'terminal on the line': Implies(And(r.valid, e1 == 0), same(r, a.s.t)),
            'parallel': Implies(Abs(det) < Q(E6), Not(r.valid))}


contract('seg.intersection_line', P, S + 'intersection', [('s', SEG), ('l', LINE)], lambda w, o: o.s.intersection(o.l), result=VECV, ensures=_line, rel='s.o', timeout=30, weight=3)


def _at(rng, v):
    v.k = rng.choice([0, 1, .5, .25, .125])
    v.l.c = -(v.l.a * (v.s.o.x + v.k * (v.s.t.x - v.s.o.x)) + v.l.b * (v.s.o.y + v.k * (v.s.t.y - v.s.o.y)))


def dirl(e, l):
    return l.a * (e.t.x - e.o.x) + l.b * (e.t.y - e.o.y)


def _seg(allow):
    def f(a, r):
        s, u = a.s, a.u
        det = (s.t.x - s.o.x) * (u.t.y - u.o.y) - (s.t.y - s.o.y) * (u.t.x - u.o.x)
        d = {'on the line of the first segment': Implies(r.valid, cross(s.o, s.t, r) == 0),
             'within the first segment': Implies(r.valid, in_box(s, r, Q('1e-4'))),
             'on the line of the second segment': Implies(r.valid, cross(u.o, u.t, r) == 0),
             'within the second segment': Implies(r.valid, in_box(u, r, Q('1e-4'))),
             'parallel': Implies(Abs(det) < Q(E6), Not(r.valid))}
        if not allow:
            d['only proper crossings'] = Implies(r.valid, proper_cross(s, u))
        return d
    return f


def _meet(rng, v):
    """u placed through the point at k of s"""
    v.j, v.k = [rng.choice([0.0, 1.0, 0.25, 0.5, 0.125, 1e-5]) for _ in 'jk']
    mx, my = v.s.o.x + v.k * (v.s.t.x - v.s.o.x), v.s.o.y + v.k * (v.s.t.y - v.s.o.y)
    v.u = NS(o=NS(x=mx - v.j * v.d.x, y=my - v.j * v.d.y), t=NS(x=mx + (1 - v.j) * v.d.x, y=my + (1 - v.j) * v.d.y))


def _place(strict):
    def f(a):
        m = point_at(a.s, a.k)
        return [And(a.j > 0, a.j < 1, a.k > 0, a.k < 1) if strict else And(a.j >= 0, a.j <= 1, a.k >= 0, a.k <= 1),
                And(a.u.o.x == m.x - a.j * a.d.x, a.u.o.y == m.y - a.j * a.d.y, a.u.t.x == m.x + (1 - a.j) * a.d.x, a.u.t.y == m.y + (1 - a.j) * a.d.y),
                Abs((a.s.t.x - a.s.o.x) * a.d.y - (a.s.t.y - a.s.o.y) * a.d.x) >= Q(E6)]
    return f


for nm, f, allow in (('', lambda w, o: o.s.intersection(o.u, True), True), ('_default', lambda w, o: o.s.intersection(o.u), False),
                     ('_noend', lambda w, o: o.s.intersection(o.u, False), False)):
    contract('seg.intersection' + nm, P, S + 'intersection', [('s', SEG), ('u', SEG)], f, result=VECV, ensures=_seg(allow), rel='s.o', timeout=40, weight=6)
    contract(f'seg.intersection{nm}_found', P, S + 'intersection', [('s', SEG), ('u', SEG)], f, result=VECV, rel='s.o', timeout=40, weight=6,
             ghosts=[('j', UNIT), ('k', UNIT), ('d', VEC)], requires=_place(not allow), search=_meet, history=False,
             ensures=lambda a, r: {'the common point is found': And(r.valid, near(r, point_at(a.s, a.k)))})
contract('seg.dist_segment', 'C08', S + 'dist', [('s', SEG), ('u', SEG)],
         lambda w, o: (o.s.dist(o.u), o.s.dist(o.u.origin()), o.s.dist(o.u.terminal()), o.u.dist(o.s.origin()), o.u.dist(o.s.terminal())),
         result=Pair(REAL, REAL, REAL, REAL, REAL),
         ensures=lambda a, r: {'zero when they meet': Implies(meet(a.s, a.u), r[0] == 0),
                               'least end point distance otherwise': Implies(Not(meet(a.s, a.u)), r[0] == Min(r[1], r[2], r[3], r[4]))},
         rel='s.o', timeout=40, weight=6, max_paths=20000, uses=['seg.dist_point', 'seg.exist_intersection'])

summary('seg.dist_least', S + 'dist', lambda w, s, p: dict(s=s, p=p) if isinstance(p, w.Vector2D) else None)
summary('seg.dist_point', S + 'dist', lambda w, s, p: dict(s=s, p=p) if isinstance(p, w.Vector2D) else None)
summary('seg.meets_level', S + 'exist_intersection', lambda w, s, u: dict(s=s, u=u) if isinstance(u, w.Segment2D) and is_level(w, s, u) else None)
summary('seg.exist_intersection', S + 'exist_intersection', lambda w, s, u: dict(s=s, u=u) if isinstance(u, w.Segment2D) else None)
contract('seg.intersection_line_at', P, S + 'intersection', [('s', SEG), ('l', LINE)], lambda w, o: o.s.intersection(o.l), result=VECV, rel='s.o', timeout=30,
         ghosts=[('k', UNIT)], requires=lambda a: [on_line(a.l, point_at(a.s, a.k)), a.k >= 0, a.k <= 1, Abs(dirl(a.s, a.l)) >= Q(E6)],
         ensures=lambda a, r: {'the common point is found': And(r.valid, same(r, point_at(a.s, a.k)))}, history=False, search=_at)
summary('seg.intersection_line_at', S + 'intersection', lambda w, s, l, *k: dict(s=s, l=l) if isinstance(l, w.Line2D) else None)
summary('seg.intersection_line', S + 'intersection', lambda w, s, l, *k: dict(s=s, l=l) if isinstance(l, w.Line2D) else None)
summary('seg.projection', S + 'projection', lambda w, s, p: dict(s=s, p=p) if isinstance(p, w.Vector2D) else None)
summary('seg.on_segment', S + 'on_segment', lambda w, s, p: dict(s=s, p=p) if isinstance(p, w.Vector2D) else None)
