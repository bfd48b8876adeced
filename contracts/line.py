"""Line2D: construction, evaluation and distance (C06); relations between lines (C07)."""
from pyvc.contract import contract, summary
from pyvc.shapes import *
from pyvc.spec import *

L = 'line_2d.Line2D.'
E6 = '1e-6'


def on(l, p):
    return l.a * p.x + l.b * p.y + l.c == 0


def proper(l):
    return Or(Not(l.a == 0), Not(l.b == 0))


def n2(l):
    return l.a * l.a + l.b * l.b


# ---------------------------------------------------------------- C06
P = 'C06'
for nm, f in (('abc', lambda w, o: w.Line2D(o.a, o.b, o.c)), ('abc_kw', lambda w, o: w.Line2D(a=o.a, b=o.b, c=o.c))):
    contract(f'line.{nm}', P, L + '__init__', [('a', REAL), ('b', REAL), ('c', REAL)], f, result=LINE,
             ensures=lambda a, r: And(r.a == a.a, r.b == a.b, r.c == a.c), exact=True)
for nm, f in (('ctor_copy', lambda w, o: w.Line2D(o.l)), ('ctor_copy_kw', lambda w, o: w.Line2D(l=o.l)), ('copy', lambda w, o: o.l.copy())):
    contract(f'line.{nm}', P, L + ('copy' if nm == 'copy' else '__init__'), [('l', LINE)], f, result=LINE,
             ensures=lambda a, r: And(r.a == a.l.a, r.b == a.l.b, r.c == a.l.c), exact=True)
for nm, f in (('points', lambda w, o: w.Line2D(o.p, o.q)), ('points_kw', lambda w, o: w.Line2D(p1=o.p, p2=o.q))):
    contract(f'line.{nm}', P, L + '__init__', [('p', VEC), ('q', VEC)], f, result=LINE,
             ensures=lambda a, r: {'through the first point': on(r, a.p), 'through the second point': on(r, a.q),
                                   'a proper line': Implies(Or(Not(a.p.x == a.q.x), Not(a.p.y == a.q.y)), proper(r))})
for sh in (ANG, DEG):
    g = (lambda d: d.d) if sh is ANG else (lambda d: d)
    for nm, f in (('dir', lambda w, o: w.Line2D(o.p, o.d)), ('dir_kw', lambda w, o: w.Line2D(p=o.p, a=o.d))):
        contract(f'line.{nm}.{sh.name}', P, L + '__init__', [('p', VEC), ('d', sh)], f, result=LINE,
                 ensures=lambda a, r, g=g: {'through the point': on(r, a.p), 'a proper line': n2(r) == 1,
                                           'along the direction': r.a * Cosd(g(a.d)) + r.b * Sind(g(a.d)) == 0})
contract('line.get_x', P, L + 'get_x', [('l', LINE), ('y', REAL)], lambda w, o: o.l.get_x(o.y), result=REAL,
         ensures=lambda a, r: {'on the line': Implies(Abs(a.l.a) >= Q(E6), a.l.a * r + a.l.b * a.y + a.l.c == 0),
                               'horizontal': Implies(Abs(a.l.a) < Q(E6), r == Q('1e20'))})
contract('line.get_y', P, L + 'get_y', [('l', LINE), ('x', REAL)], lambda w, o: o.l.get_y(o.x), result=REAL,
         ensures=lambda a, r: {'on the line': Implies(Abs(a.l.b) >= Q(E6), a.l.a * a.x + a.l.b * r + a.l.c == 0),
                               'vertical': Implies(Abs(a.l.b) < Q(E6), r == Q('1e20'))})
contract('line.dist', P, L + 'dist', [('l', LINE), ('p', VEC)], lambda w, o: o.l.dist(o.p), result=REAL, requires=lambda a: proper(a.l),
         ensures=lambda a, r: {'nonneg': r >= 0, 'value': r * r * n2(a.l) == Sq(a.l.a * a.p.x + a.l.b * a.p.y + a.l.c)})
contract('line.dist2', P, L + 'dist2', [('l', LINE), ('p', VEC)], lambda w, o: o.l.dist2(o.p), result=REAL, requires=lambda a: proper(a.l),
         ensures=lambda a, r: {'value': r * n2(a.l) == Sq(a.l.a * a.p.x + a.l.b * a.p.y + a.l.c)})
contract('line.dist_least', P, L + 'dist2', [('p', VEC), ('u', VEC), ('v', VEC)], lambda w, o: w.Line2D(o.u, o.v).dist2(o.p), result=REAL,
         ghosts=[('t', REAL)], requires=lambda a: Or(Not(a.u.x == a.v.x), Not(a.u.y == a.v.y)),
         ensures=lambda a, r: {'no point of the line is nearer': r <= Sq(a.p.x - a.u.x - a.t * (a.v.x - a.u.x))
                               + Sq(a.p.y - a.u.y - a.t * (a.v.y - a.u.y))}, timeout=20)

# ---------------------------------------------------------------- C07
P = 'C07'


def det(l, m):
    return l.a * m.b - m.a * l.b


contract('line.is_parallel', P, L + 'is_parallel', [('l', LINE), ('m', LINE)], lambda w, o: o.l.is_parallel(o.m), result=BOOL,
         ensures=lambda a, r: Iff(r, Abs(det(a.l, a.m)) < Q(E6)))
contract('line.parallel_shift', P, L + 'is_parallel', [('p', VEC), ('q', VEC), ('v', VEC), ('k', REAL)],
         lambda w, o: w.Line2D(o.p, o.p + o.v).is_parallel(w.Line2D(o.q, o.q + o.v * o.k)), result=BOOL,
         ensures=lambda a, r: {'lines with one direction are parallel': r})
for nm, f in (('intersection', lambda w, o: o.l.intersection(o.m)), ('line_intersection', lambda w, o: w.Line2D.line_intersection(o.l, o.m))):
    contract(f'line.{nm}', P, L + nm, [('l', LINE), ('m', LINE)], f, result=VECV,
             ensures=lambda a, r: {'exists unless parallel': Iff(r.valid, Abs(det(a.l, a.m)) >= Q(E6)),
                                   'on the first line': Implies(r.valid, on(a.l, r)),
                                   'on the second line': Implies(r.valid, on(a.m, r))})
contract('line.perpendicular', P, L + 'perpendicular', [('l', LINE), ('p', VEC)], lambda w, o: o.l.perpendicular(o.p), result=LINE,
         ensures=lambda a, r: {'through the point': on(r, a.p), 'at a right angle': r.a * a.l.a + r.b * a.l.b == 0,
                               'a proper line': Implies(proper(a.l), proper(r))})
contract('line.projection', P, L + 'projection', [('l', LINE), ('p', VEC)], lambda w, o: o.l.projection(o.p), result=VECV,
         ensures=lambda a, r: {'exists': Iff(r.valid, n2(a.l) >= Q(E6)), 'on the line': Implies(r.valid, on(a.l, r)),
                               'foot of the perpendicular': Implies(r.valid, (a.p.x - r.x) * a.l.b == (a.p.y - r.y) * a.l.a)})
contract('line.projection_least', P, L + 'projection', [('p', VEC), ('u', VEC), ('v', VEC)],
         lambda w, o: w.Line2D(o.u, o.v).projection(o.p), result=VECV, ghosts=[('t', REAL)],
         requires=lambda a: Sq(a.u.x - a.v.x) + Sq(a.u.y - a.v.y) >= Q(E6),
         ensures=lambda a, r: {'exists': r.valid, 'no point of the line is nearer':
                               Sq(r.x - a.p.x) + Sq(r.y - a.p.y) <= Sq(a.p.x - a.u.x - a.t * (a.v.x - a.u.x))
                               + Sq(a.p.y - a.u.y - a.t * (a.v.y - a.u.y))}, timeout=20)
contract('line.perpendicular_bisector', P, L + 'perpendicular_bisector', [('p', VEC), ('q', VEC)], lambda w, o: w.Line2D.perpendicular_bisector(o.p, o.q),
         result=LINE, ghosts=[('g', VEC)], requires=lambda a: Or(Abs(a.p.x - a.q.x) >= Q(E6), Abs(a.p.y - a.q.y) >= Q(E6)),
         ensures=lambda a, r: {'a proper line': proper(r),
                               'exactly the equidistant points': Iff(on(r, a.g), Sq(a.g.x - a.p.x) + Sq(a.g.y - a.p.y)
                                                                    == Sq(a.g.x - a.q.x) + Sq(a.g.y - a.q.y)),
                               'through the midpoint': r.a * (a.p.x + a.q.x) + r.b * (a.p.y + a.q.y) + 2 * r.c == 0,
                               'at a right angle': r.a * (a.q.y - a.p.y) == r.b * (a.q.x - a.p.x)})


def _bis(a, r):
    # the mirror image of the left direction in the line is the right direction
    m = bis_angle(a.l.d, a.r.d)
    AddAngles(m, a.l.d - m)
    AddAngles(m, m - a.l.d)
    cl, sl, cr, sr = Cosd(a.l.d), Sind(a.l.d), Cosd(a.r.d), Sind(a.r.d)
    k = 2 * (cl * r.a + sl * r.b)
    return {'through the origin': on(r, a.o), 'a proper line': n2(r) == 1,
            'mirrors left onto right': And(cl - k * r.a == cr, sl - k * r.b == sr)}


def bis_angle(l, r):
    return (l + r) / 2


contract('line.angle_bisector', P, L + 'angle_bisector', [('o', VEC), ('l', ANG), ('r', ANG)],
         lambda w, o: w.Line2D.angle_bisector(o.o, o.l, o.r), result=LINE, ensures=_bis)
contract('line.eq_self', P, L + '__eq__', [('l', LINE), ('k', REAL)],
         lambda w, o: (o.l == o.l.copy(), o.l == w.Line2D(o.k * o.l.a(), o.k * o.l.b(), o.k * o.l.c())), result=Pair(BOOL, BOOL),
         ensures=lambda a, r: {'equal to its copy': r[0], 'equal to a multiple of the equation': r[1]}, history=False)


def _eq(a, r):
    # r true: points of one are (nearly) points of the other
    d = det(a.l, a.m)
    return {'crossing lines differ': Implies(Abs(d) >= Q(E6), Not(r)),
            'parallel lines apart differ': Implies(Or(Abs(a.l.b * a.m.c - a.m.b * a.l.c) >= Q(E6), Abs(a.l.c * a.m.a - a.m.c * a.l.a) >= Q(E6)), Not(r)),
            'the same line': Implies(And(d == 0, a.l.b * a.m.c == a.m.b * a.l.c, a.l.c * a.m.a == a.m.c * a.l.a), r)}


contract('line.eq', P, L + '__eq__', [('l', LINE), ('m', LINE)], lambda w, o: o.l == o.m, result=BOOL, ensures=_eq)
summary('line.intersection', L + 'intersection', lambda w, l, m: dict(l=l, m=m) if isinstance(m, w.Line2D) else None)
