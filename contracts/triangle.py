"""Triangle2D (C15)."""
import math
from pyvc.contract import contract, summary
from pyvc.shapes import *
from pyvc.spec import *
from .geom import *
from .ray import ahead, aside
from .segment import dirl

T = 'triangle_2d.Triangle2D.'
P = 'C15'
ABC = [('a', VEC), ('b', VEC), ('c', VEC)]
HITS = Hits(VECV, most=2)


def edges(t):
    return [NS(o=t.a, t=t.b), NS(o=t.b, t=t.c), NS(o=t.c, t=t.a)]


def area2(t):
    return cross(t.a, t.b, t.c)


def is_tri(r, a, b, c):
    return And(same(r.a, a), same(r.b, b), same(r.c, c))


contract('tri.ctor3', P, T + '__init__', ABC, lambda w, o: w.Triangle2D(o.a, o.b, o.c), result=TRI, ensures=lambda a, r: is_tri(r, a.a, a.b, a.c), exact=True)
contract('tri.ctor_seg', P, T + '__init__', [('s', SEG), ('c', VEC)], lambda w, o: w.Triangle2D(o.s, o.c), result=TRI, ensures=lambda a, r: is_tri(r, a.s.o, a.s.t, a.c), exact=True)
contract('tri.assign3', P, T + 'assign', [('t', TRI)] + ABC, lambda w, o: o.t.assign(o.a, o.b, o.c), mut=['t'], returns='t',
         ensures=lambda a, r, p: is_tri(p.t, a.a, a.b, a.c), exact=True)
contract('tri.assign_seg', P, T + 'assign', [('t', TRI), ('s', SEG), ('c', VEC)], lambda w, o: o.t.assign(o.s, o.c), mut=['t'], returns='t',
         ensures=lambda a, r, p: is_tri(p.t, a.s.o, a.s.t, a.c), exact=True)
for m in 'abc':
    contract(f'tri.{m}', P, T + m, [('t', TRI)], lambda w, o, m=m: getattr(o.t, m)(), result=VECV, ensures=lambda a, r, m=m: And(r.valid, same(r, getattr(a.t, m))), exact=True)
    contract(f'tri.{m}_', P, T + m + '_', [('t', TRI)], lambda w, o, m=m: getattr(o.t, m + '_')(), result=VECV, fresh=False,
             ensures=lambda a, r, m=m: And(r.valid, same(r, getattr(a.t, m))), exact=True)
contract('tri.is_valid', P, T + 'is_valid', [('t', TRI)], lambda w, o: o.t.is_valid(), result=BOOL,
         ensures=lambda a, r: {'three different corners': Iff(r, And(Not(same(a.t.a, a.t.b)), Not(same(a.t.b, a.t.c)), Not(same(a.t.c, a.t.a))))}, exact=True)


def both(name, args, ens, res, static, **k):
    """the method and the static function on three points"""
    contract(f'tri.{name}', P, T + name, [('t', TRI)] + args, lambda w, o: getattr(o.t, name)(*[getattr(o, n) for n, _ in args]), result=res,
             ensures=lambda a, r: ens(a.t, a, r), **dict(k, requires=(lambda a: k['requires'](a.t)) if 'requires' in k else None))
    if static:
        contract(f'tri.{static}', P, T + static, ABC + args, lambda w, o: getattr(w.Triangle2D, static)(o.a, o.b, o.c, *[getattr(o, n) for n, _ in args]), result=res,
                 ensures=lambda a, r: ens(a, a, r), **dict(k, requires=(lambda a: k['requires'](a)) if 'requires' in k else None, rel='a' if k.get('rel') else None))


both('area', [], lambda t, a, r: {'half the base times the height': 2 * r == Abs(area2(t))}, REAL, None)
both('signed_area', [], lambda t, a, r: {'signed by the turn': 2 * r == area2(t)}, REAL, 'signed_area_st')
both('double_signed_area', [], lambda t, a, r: {'signed by the turn': r == area2(t)}, REAL, 'double_signed_area_st')
both('ccw', [], lambda t, a, r: {'positive turn': Iff(r, area2(t) > 0)}, BOOL, 'tri_ccw')
contract('tri.areas', P, [T + 'area', T + 'signed_area', T + 'double_signed_area'], [('t', TRI)], lambda w, o: (o.t.area(), o.t.signed_area(), w.Triangle2D(o.t.b(), o.t.c(), o.t.a()).signed_area(),
                                                                                           w.Triangle2D(o.t.b(), o.t.a(), o.t.c()).signed_area()),
         result=Pair(REAL, REAL, REAL, REAL), ensures=lambda a, r: {'size': r[0] == Abs(r[1]), 'rotation of the corners': r[2] == r[1], 'swapping corners': r[3] == -r[1]}, history=False)


def _inside(t, a, r):
    d, u, v = area2(t), cross(t.a, a.p, t.c), cross(t.a, t.b, a.p)
    return {'exactly the points of the triangle': Iff(r, And(u * d >= 0, v * d >= 0, (d - u - v) * d >= 0))}


def _put(rng, v):
    t = getattr(v, 't', v)
    u, k = rng.choice([(0, 0), (1, 0), (0, 1), (.5, .5), (.25, .25), (0, .5), (.5, 0), (-.5, .5), (.75, .75), (.5, -.25)])
    v.p = NS(x=t.a.x + u * (t.b.x - t.a.x) + k * (t.c.x - t.a.x), y=t.a.y + u * (t.b.y - t.a.y) + k * (t.c.y - t.a.y))


both('contains', [('p', VEC)], _inside, BOOL, 'tri_contains', requires=lambda t: Not(area2(t) == 0), rel='t.a', timeout=30, search=_put)
both('centroid', [], lambda t, a, r: {'mean of the corners': And(r.valid, 3 * r.x == t.a.x + t.b.x + t.c.x, 3 * r.y == t.a.y + t.b.y + t.c.y)}, VECV, 'tri_centroid')
fat = lambda t: And(Abs(area2(t)) >= Q('1e-3'))
both('circumcenter', [], lambda t, a, r: {'exists': r.valid, 'as far from b as from a': d2(r, t.a) == d2(r, t.b), 'as far from c as from a': d2(r, t.a) == d2(r, t.c)}, VECV, 'tri_circumcenter',
     requires=lambda t: And(fat(t), *[Not(near(e.o, e.t, '1e-4')) for e in edges(t)]), rel='t.a', timeout=30, uses=['line.intersection'])
both('orthocenter', [], lambda t, a, r: {'exists': r.valid, 'altitude of a': dot(t.a, r, NS(x=t.a.x + t.c.x - t.b.x, y=t.a.y + t.c.y - t.b.y)) == 0,
                                         'altitude of b': dot(t.b, r, NS(x=t.b.x + t.c.x - t.a.x, y=t.b.y + t.c.y - t.a.y)) == 0,
                                         'altitude of c': dot(t.c, r, NS(x=t.c.x + t.b.x - t.a.x, y=t.c.y + t.b.y - t.a.y)) == 0}, VECV, 'tri_orthocenter',
     requires=fat, rel='t.a', timeout=30, uses=['line.intersection'])
COLL = dict(ghosts=[('k', REAL)], requires=lambda a: And(a.c.x == a.a.x + a.k * (a.b.x - a.a.x), a.c.y == a.a.y + a.k * (a.b.y - a.a.y), *[Not(near(e.o, e.t, '1e-3')) for e in edges(a)]),
            search=lambda rng, v: setattr(v, 'c', NS(x=v.a.x + v.k * (v.b.x - v.a.x), y=v.a.y + v.k * (v.b.y - v.a.y))), rel='a', timeout=30, uses=['line.intersection'], history=False)
contract('tri.circumcenter_collinear', P, T + 'tri_circumcenter', ABC, lambda w, o: w.Triangle2D.tri_circumcenter(o.a, o.b, o.c), result=VECV,
         ensures=lambda a, r: {'no center on a line': Not(r.valid)}, **COLL)
contract('tri.orthocenter_collinear', P, T + 'tri_orthocenter', ABC, lambda w, o: w.Triangle2D.tri_orthocenter(o.a, o.b, o.c), result=VECV,
         ensures=lambda a, r: {'no center on a line': Not(r.valid)}, **COLL)


def _reflects(c1, s1, c2, s2, C, S):
    """(c2, s2) is (c1, s1) mirrored in the direction (C, S)"""
    return [C * C + S * S == 1, c2 == (C * C - S * S) * c1 + 2 * C * S * s1, s2 == 2 * C * S * c1 - (C * C - S * S) * s1]


def _corner(n, o, u, v, r):
    """at the corner o with the edges to u and v: r is on the bisector"""
    du, dv = NS(x=u.x - o.x, y=u.y - o.y), NS(x=v.x - o.x, y=v.y - o.y)
    p, q = Call('vec.th_dir', v=du), Call('vec.th_dir', v=dv)
    b = Call('ang.bisect_mirror', l=p, r=q)
    k = NS(h=Sqrt(Sq(du.x) + Sq(du.y)), g=Sqrt(Sq(dv.x) + Sq(dv.y)), c1=Cosd(p.d), s1=Sind(p.d), c2=Cosd(q.d), s2=Sind(q.d), C=Cosd(b.d), S=Sind(b.d), u=du, v=dv, p=NS(x=r.x - o.x, y=r.y - o.y))
    k.t = k.C * k.p.x + k.S * k.p.y
    Have(f'mirrored at {n}', And(*_reflects(k.c1, k.s1, k.c2, k.s2, k.C, k.S)))
    Have(f'a unit vector at {n}', k.c1 * k.c1 + k.s1 * k.s1 == 1)
    Fact(f'bisector at {n}', lambda c1, s1, c2, s2, C, S: (_reflects(c1, s1, c2, s2, C, S), (c1 + c2) * S - (s1 + s2) * C == 0), k.c1, k.s1, k.c2, k.s2, k.C, k.S)
    k.ux = [du.x == k.h * k.c1, du.y == k.h * k.s1, dv.x == k.g * k.c2, dv.y == k.g * k.s2]
    Have(f'edges at {n}', And(*k.ux))
    return k


def _on_bisector(n, k):
    Have(f'on the bisector of {n}', k.S * k.p.x == k.C * k.p.y)
    Fact(f'along the bisector of {n}', lambda C, S, x, y: ([C * C + S * S == 1, S * x == C * y], And(x == (C * x + S * y) * C, y == (C * x + S * y) * S)), k.C, k.S, k.p.x, k.p.y)
    Fact(f'equal distances at {n}', lambda h, g, c1, s1, c2, s2, t, C, S, ux, uy, vx, vy, x, y:
         ([ux == h * c1, uy == h * s1, vx == g * c2, vy == g * s2, x == t * C, y == t * S, (c1 + c2) * S - (s1 + s2) * C == 0], (ux * y - uy * x) * g == -(vx * y - vy * x) * h),
         k.h, k.g, k.c1, k.s1, k.c2, k.s2, k.t, k.C, k.S, k.u.x, k.u.y, k.v.x, k.v.y, k.p.x, k.p.y)
    Have(f'equal distances at {n}', (k.u.x * k.p.y - k.u.y * k.p.x) * k.g == -(k.v.x * k.p.y - k.v.y * k.p.x) * k.h)


def _incenter(t, a, r):
    if Proving():
        _incenter_steps(t, r)
    h = [Sqrt(d2(e.o, e.t)) for e in edges(t)]
    f = [cross(e.o, e.t, r) for e in edges(t)]
    return {'exists': r.valid, 'as far from ca as from ab': f[0] * h[2] == f[2] * h[0], 'as far from bc as from ab': f[0] * h[1] == f[1] * h[0],
            'inside': And(*[x * area2(t) > 0 for x in f])}


def _incenter_steps(t, r):
    A, B = _corner('a', t.a, t.b, t.c, r), _corner('b', t.b, t.a, t.c, r)
    D, det = area2(t), A.C * B.S - A.S * B.C
    h0, h1, h2 = [Sqrt(d2(e.o, e.t)) for e in edges(t)]
    for e, h in zip(edges(t), (h0, h1, h2)):
        Fact('positive length', lambda h, x, y: ([h >= 0, h * h == x * x + y * y, Or(x >= Q('1e-4'), y >= Q('1e-4'), x <= -Q('1e-4'), y <= -Q('1e-4'))], h > 0), h, e.t.x - e.o.x, e.t.y - e.o.y)
        Have('positive length', h > 0)
    for e, h, g in zip((A.u, B.u, A.v, B.v), (A.h, B.h, A.g, B.g), (h0, h0, h2, h1)):
        Fact('one length', lambda h, g: ([h >= 0, g > 0, h * h == g * g], h == g), h, g)
        Have('one length', h == g)
    turned = lambda h, c, d, u: ([u == h * c, -u == h * d, h > 0], d == -c)
    Fact('turned back, x', turned, h0, A.c1, B.c1, A.u.x)
    Fact('turned back, y', turned, h0, A.s1, B.s1, A.u.y)
    Have('turned back', And(B.c1 == -A.c1, B.s1 == -A.s1))
    # the lines are not parallel
    both_ = lambda c1, s1, c2, s2, C, S, b1, z1, b2, z2, K, Z: _reflects(c1, s1, c2, s2, C, S) + _reflects(b1, z1, b2, z2, K, Z) + [c1 * c1 + s1 * s1 == 1, b1 == -c1, z1 == -s1]
    terms = (A.c1, A.s1, A.c2, A.s2, A.C, A.S, B.c1, B.s1, B.c2, B.s2, B.C, B.S)
    Fact('double angle', lambda *v: (both_(*v), v[2] * v[9] - v[3] * v[8] == -2 * (v[4] * v[11] - v[5] * v[10]) * (v[4] * v[10] + v[5] * v[11])), *terms)
    Fact('at most one', lambda C, S, K, Z: ([C * C + S * S == 1, K * K + Z * Z == 1], And(C * K + S * Z <= 1, C * K + S * Z >= -1)), A.C, A.S, B.C, B.S)
    Fact('area from c', lambda g, k, c2, s2, b2, z2, vx, vy, wx, wy: ([vx == g * c2, vy == g * s2, wx == k * b2, wy == k * z2], vx * wy - vy * wx == g * k * (c2 * z2 - s2 * b2)),
         h2, h1, A.c2, A.s2, B.c2, B.s2, A.v.x, A.v.y, B.v.x, B.v.y)
    Have('edges at c', And(A.v.x == h2 * A.c2, A.v.y == h2 * A.s2, B.v.x == h1 * B.c2, B.v.y == h1 * B.s2))
    Have('area from c', D == h2 * h1 * (A.c2 * B.s2 - A.s2 * B.c2))
    cosd = A.C * B.C + A.S * B.S
    Have('double angle', A.c2 * B.s2 - A.s2 * B.c2 == -2 * det * cosd)
    Fact('not too long', lambda h, q: ([h > 0, h * h == q, q <= 10000], h <= 100), h1, d2(t.b, t.c))
    Fact('not too long', lambda h, q: ([h > 0, h * h == q, q <= 10000], h <= 100), h2, d2(t.c, t.a))
    Have('not too long', And(h1 <= 100, h2 <= 100))
    Fact('clearly not parallel', lambda D, g, k, m, w, e: ([D == g * k * m, m == -2 * w * e, e <= 1, e >= -1, g > 0, k > 0, g <= 100, k <= 100, Or(D >= Q('0.021'), D <= -Q('0.021'))], Or(w >= Q('1e-6'), w <= -Q('1e-6'))),
         D, h2, h1, A.c2 * B.s2 - A.s2 * B.c2, det, cosd)
    Have('clearly not parallel', Or(det >= Q('1e-6'), det <= -Q('1e-6')))
    Have('exists', r.valid)
    _on_bisector('a', A)
    _on_bisector('b', B)
    # inside
    x, y = A.c1 * A.S - A.s1 * A.C, A.c1 * A.C + A.s1 * A.S
    X, Y = A.c1 * B.S - A.s1 * B.C, A.c1 * B.C + A.s1 * B.S
    half = lambda h, g, c1, s1, c2, s2, C, S, ux, uy, vx, vy: (_reflects(c1, s1, c2, s2, C, S) + [c1 * c1 + s1 * s1 == 1, ux == h * c1, uy == h * s1, vx == g * c2, vy == g * s2],
                                                               ux * vy - uy * vx == 2 * h * g * ((c1 * S - s1 * C) * (c1 * C + s1 * S)))
    for k in (A, B):
        Fact('sine of the double angle', half, k.h, k.g, k.c1, k.s1, k.c2, k.s2, k.C, k.S, k.u.x, k.u.y, k.v.x, k.v.y)
    Fact('same product', lambda c, s, b, z, K, Z: ([b == -c, z == -s], (b * Z - z * K) * (b * K + z * Z) == (c * Z - s * K) * (c * K + s * Z)), A.c1, A.s1, B.c1, B.s1, B.C, B.S)
    Have('half angles', And(D == 2 * h0 * h2 * (x * y), -D == 2 * h0 * h1 * (B.c1 * B.S - B.s1 * B.C) * (B.c1 * B.C + B.s1 * B.S)))
    Fact('half angle of b', lambda h0, h1, m, n, D: ([-D == 2 * h0 * h1 * m, m == n], -D == 2 * h0 * h1 * n), h0, h1, (B.c1 * B.S - B.s1 * B.C) * (B.c1 * B.C + B.s1 * B.S), X * Y, D)
    Have('half angle of b', -D == 2 * h0 * h1 * (X * Y))
    Fact('opposite signs', lambda h0, h1, h2, p, q, D: ([h0 > 0, h1 > 0, h2 > 0, D == 2 * h0 * h2 * p, -D == 2 * h0 * h1 * q, Not(D == 0)], p * q < 0), h0, h1, h2, x * y, X * Y, D)
    Have('opposite signs', x * y * (X * Y) < 0)
    Fact('sign of the crossing', lambda x, y, X, Y: ([x * y * (X * Y) < 0], X * y * (y * X - x * Y) > 0), x, y, X, Y)
    Fact('angle between the bisectors', lambda c, s, C, S, K, Z: ([c * c + s * s == 1], C * Z - S * K == (c * C + s * S) * (c * Z - s * K) - (c * S - s * C) * (c * K + s * Z)), A.c1, A.s1, A.C, A.S, B.C, B.S)
    Have('angle between the bisectors', det == y * X - x * Y)
    Fact('way along', lambda C, S, K, Z, t, s, ux, uy, px, py, qx, qy, h, c, z: ([px == t * C, py == t * S, qx == s * K, qy == s * Z, px - qx == ux, py - qy == uy, ux == h * c, uy == h * z],
                                                                                t * (C * Z - S * K) == h * (c * Z - z * K)),
         A.C, A.S, B.C, B.S, A.t, B.t, A.u.x, A.u.y, A.p.x, A.p.y, B.p.x, B.p.y, h0, A.c1, A.s1)
    Have('way along', A.t * det == h0 * X)
    Fact('forward', lambda t, w, h, X, y, e: ([t * w == h * X, w == e, X * y * e > 0, h > 0], t * y > 0), A.t, det, h0, X, y, y * X - x * Y)
    Have('forward', A.t * y > 0)
    f0 = cross(t.a, t.b, r)
    Fact('on the side of c', lambda h0, h2, t, x, y, c, s, C, S, ux, uy, px, py, D: ([ux == h0 * c, uy == h0 * s, px == t * C, py == t * S, x == c * S - s * C, D == 2 * h0 * h2 * (x * y), t * y > 0, h0 > 0, h2 > 0, Not(D == 0)],
                                                                               (ux * py - uy * px) * D > 0),
         h0, h2, A.t, x, y, A.c1, A.s1, A.C, A.S, A.u.x, A.u.y, A.p.x, A.p.y, D)
    Have('on the side of c', f0 * D > 0)
    f1, f2 = cross(t.b, t.c, r), cross(t.c, t.a, r)
    for k, m, f, g, h in ((A, f0, f2, h2, h0), (B, -f0, -f1, h1, h0)):
        Fact('as far', lambda p, q, g, h, m, f, G, H: ([p * g == -q * h, g == G, h == H, p == m, q == -f], m * G == f * H), k.u.x * k.p.y - k.u.y * k.p.x, k.v.x * k.p.y - k.v.y * k.p.x, k.g, k.h, m, f, g, h)
        Have('as far', m * g == f * h)
    Have('as far from ca', f0 * h2 == f2 * h0)
    Have('as far from bc', f0 * h1 == f1 * h0)
    sign = lambda f, g, h, k, D: ([f * h == g * k, f * D > 0, h > 0, k > 0], g * D > 0)
    Fact('on the side of b', sign, f0, f2, h2, h0, D)
    Fact('on the side of a', sign, f0, f1, h1, h0, D)
    Have('inside', And(f2 * D > 0, f1 * D > 0))


both('incenter', [], _incenter, VECV, 'tri_incenter', requires=lambda t: And(Abs(area2(t)) >= Q('0.021'), *[And(d2(e.o, e.t) <= 10000, Not(near(e.o, e.t, '1e-4'))) for e in edges(t)]), rel='t.a', timeout=30, uses=['line.intersection', 'ang.bisect_mirror', 'vec.th_dir'], weight=3)


def on_edge(e, p):
    return And(cross(e.o, e.t, p) == 0, in_box(e, p, Q('1e-4')))


def _cut(a, r):
    d = {'at most two points': len(r) <= 2, 'valid points': And(*[p.valid for p in r]), 'on the line': And(*[on_line(a.l, p) for p in r]),
         'on the border': And(*[Or(*[on_edge(e, p) for e in edges(a.t)]) for p in r])}
    if len(r) == 2:
        d['different points'] = Not(near(r[0], r[1]))
    return d


def corners(t, l):
    return [l.a * p.x + l.b * p.y + l.c for p in (t.a, t.b, t.c)]


def clear(t, l):
    """the line passes every corner at a distance, or exactly through it"""
    n = Sq(l.a) + Sq(l.b)
    return And(n >= Q('1e-2'), *[Or(v == 0, v * v >= Q('1e-7') * n) for v in [l.a * p.x + l.b * p.y + l.c for p in (t.a, t.b, t.c)]], Not(And(*[l.a * p.x + l.b * p.y + l.c == 0 for p in (t.a, t.b, t.c)])))


def _border(i):
    def f(rng, v):
        e = edges(v.t)[i]
        v.k = rng.choice([0, 1, .5, .25, .75])
        v.l.c = -(v.l.a * (e.o.x + v.k * (e.t.x - e.o.x)) + v.l.b * (e.o.y + v.k * (e.t.y - e.o.y)))
    return f


def others(t, i):
    return [e for j, e in enumerate(edges(t)) if j != i]


def lonely(t, i, g):
    """g, on side i, is not near the line of another side"""
    return And(*[Abs(cross(e.o, e.t, g)) > Q('1e-6') * (Abs(e.t.x - e.o.x) + Abs(e.t.y - e.o.y)) for e in others(t, i)])


def _found(i):
    def f(a, r):
        g = point_at(edges(a.t)[i], a.k)
        for p in r:
            for e in others(a.t, i):
                Fact('about a small step', lambda x, y, u, v: ([Abs(u) < Q('1e-6'), Abs(v) < Q('1e-6')], Abs(x * v - y * u) <= Q('1e-6') * (Abs(x) + Abs(y))),
                     e.t.x - e.o.x, e.t.y - e.o.y, g.x - p.x, g.y - p.y)
        return {'the crossing of the side is found': Or(*[near(g, p) for p in r]),
                'exactly, unless another side is near': Implies(lonely(a.t, i, g), Or(*[same(g, p) for p in r]))}
    return f


contract('tri.intersection_line', P, T + 'intersection', [('t', TRI), ('l', LINE)], lambda w, o: o.t.intersection(o.l), result=HITS, ensures=_cut,
         timeout=30, weight=4, uses=['seg.intersection_line'])
for i, nm in enumerate(('ab', 'bc', 'ca')):
    contract(f'tri.intersection_line_found.{nm}', P, T + 'intersection', [('t', TRI), ('l', LINE)], lambda w, o: o.t.intersection(o.l), result=HITS,
             ghosts=[('k', UNIT)], requires=lambda a, i=i: [clear(a.t, a.l), a.k >= 0, a.k <= 1, on_line(a.l, point_at(edges(a.t)[i], a.k)), Abs(dirl(edges(a.t)[i], a.l)) >= Q('1e-5')],
             ensures=_found(i), timeout=30, weight=4, search=_border(i), history=False, uses=['seg.intersection_line'], facts=['seg.intersection_line_at'],
             split=lambda a: [c for v in corners(a.t, a.l) for c in (v == 0, v > 0)])

for nm in ('tri.intersection_line', 'tri.intersection_line_found.ab', 'tri.intersection_line_found.bc', 'tri.intersection_line_found.ca'):
    summary(nm, T + 'intersection', lambda w, t, l: dict(t=t, l=l) if isinstance(l, w.Line2D) else None)


def ray_line(y):
    c, s = Cosd(y.d), Sind(y.d)
    return NS(a=-s, b=c, c=s * y.o.x - c * y.o.y)


def seg_line(s):
    dx, dy = s.t.x - s.o.x, s.t.y - s.o.y
    return NS(a=-dy, b=dx, c=dy * s.o.x - dx * s.o.y)


def _hits(a, r):
    return {'at most two points': len(r) <= 2, 'valid points': And(*[p.valid for p in r]),
            'on the border': And(*[Or(*[on_edge(e, p) for e in edges(a.t)]) for p in r])}


contract('tri.intersection_ray', P, T + 'intersection', [('t', TRI), ('y', RAY)], lambda w, o: o.t.intersection(o.y), result=HITS, timeout=30, weight=4,
         ensures=lambda a, r: dict(_hits(a, r), **{'on the line of the ray': And(*[aside(a.y, p) == 0 for p in r]), 'not behind the origin': And(*[Or(ahead(a.y, p) >= 0, near(p, a.y.o)) for p in r])}),
         uses=['tri.intersection_line', 'ray.in_right_dir_on'])
contract('tri.intersection_seg', P, T + 'intersection', [('t', TRI), ('s', SEG)], lambda w, o: o.t.intersection(o.s), result=HITS, timeout=30, weight=4,
         ensures=lambda a, r: dict(_hits(a, r), **{'on the line of the segment': And(*[cross(a.s.o, a.s.t, p) == 0 for p in r]), 'within the segment': And(*[in_box(a.s, p, Q('1e-4')) for p in r])}),
         uses=['tri.intersection_line'])


def _from(i):
    def f(rng, v):
        e = edges(v.t)[i]
        v.k = rng.choice([0, 1, .5, .25, .75])
        g = NS(x=e.o.x + v.k * (e.t.x - e.o.x), y=e.o.y + v.k * (e.t.y - e.o.y))
        if hasattr(v, 'y'):
            v.j = abs(v.j) * rng.choice([0, 1, 1, 1])
            v.y.o = NS(x=g.x - v.j * math.cos(math.radians(v.y.d)), y=g.y - v.j * math.sin(math.radians(v.y.d)))
        else:
            v.j = rng.choice([0, 1, .5, .25])
            d = NS(x=v.s.t.x - v.s.o.x, y=v.s.t.y - v.s.o.y)
            v.s = NS(o=NS(x=g.x - v.j * d.x, y=g.y - v.j * d.y), t=NS(x=g.x + (1 - v.j) * d.x, y=g.y + (1 - v.j) * d.y))
    return f


for i, nm in enumerate(('ab', 'bc', 'ca')):
    k = dict(result=HITS, timeout=30, weight=4, history=False, search=_from(i), facts=[f'tri.intersection_line_found.{nm}'],
             ensures=lambda a, r, i=i: {'the crossing of the side is found': Or(*[same(point_at(edges(a.t)[i], a.k), p) for p in r])})
    contract(f'tri.intersection_ray_found.{nm}', P, T + 'intersection', [('t', TRI), ('y', RAY)], lambda w, o: o.t.intersection(o.y), ghosts=[('k', UNIT), ('j', NONNEG)],
             requires=lambda a, i=i: [clear(a.t, ray_line(a.y)), a.k >= 0, a.k <= 1, Abs(dirl(edges(a.t)[i], ray_line(a.y))) >= Q('1e-5'), on_line(ray_line(a.y), point_at(edges(a.t)[i], a.k)), lonely(a.t, i, point_at(edges(a.t)[i], a.k)),
                                      same(point_at(edges(a.t)[i], a.k), NS(x=a.y.o.x + a.j * Cosd(a.y.d), y=a.y.o.y + a.j * Sind(a.y.d))),
                                      aside(a.y, point_at(edges(a.t)[i], a.k)) == 0, ahead(a.y, point_at(edges(a.t)[i], a.k)) >= 0],
             uses=['tri.intersection_line', 'ray.in_right_dir_on'], **k)
    contract(f'tri.intersection_seg_found.{nm}', P, T + 'intersection', [('t', TRI), ('s', SEG)], lambda w, o: o.t.intersection(o.s), ghosts=[('k', UNIT), ('j', UNIT)],
             requires=lambda a, i=i: [clear(a.t, seg_line(a.s)), a.k >= 0, a.k <= 1, a.j >= 0, a.j <= 1, Abs(dirl(edges(a.t)[i], seg_line(a.s))) >= Q('1e-5'), on_line(seg_line(a.s), point_at(edges(a.t)[i], a.k)), lonely(a.t, i, point_at(edges(a.t)[i], a.k)),
                                      same(point_at(edges(a.t)[i], a.k), point_at(a.s, a.j)),
                                      in_box(a.s, point_at(edges(a.t)[i], a.k), 0)],
             uses=['tri.intersection_line'], **k)
