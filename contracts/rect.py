"""Rect2D and Size2D: construction, moving and resizing (C13); containment, overlap, cutting lines (C14)."""
from pyvc.contract import contract, summary
from pyvc.shapes import *
from pyvc.spec import *
from .geom import *

R, Z = 'rect_2d.Rect2D.', 'size_2d.Size2D.'
E6 = '1e-6'


def is_rect(r, x, y, l, w):
    return And(r.x == x, r.y == y, r.l == l, r.w == w)


# ---------------------------------------------------------------- C13
P = 'C13'
contract('size.ctor', P, Z + '__init__', [('l', REAL), ('w', REAL)], lambda w, o: w.Size2D(o.l, o.w), result=SIZE,
         ensures=lambda a, r: And(r.l == Abs(a.l), r.w == Abs(a.w)), exact=True)
contract('size.ctor0', P, Z + '__init__', [], lambda w, o: w.Size2D(), result=SIZE, ensures=lambda a, r: And(r.l == 0, r.w == 0))
contract('size.assign', P, Z + 'assign', [('s', SIZE), ('l', REAL), ('w', REAL)], lambda w, o: o.s.assign(o.l, o.w), mut=['s'],
         ensures=lambda a, r, p: And(p.s.l == Abs(a.l), p.s.w == Abs(a.w)), exact=True)
contract('size.set_length', P, Z + 'set_length', [('s', SIZE), ('l', REAL)], lambda w, o: o.s.set_length(o.l), mut=['s'],
         ensures=lambda a, r, p: And(p.s.l == Abs(a.l), p.s.w == a.s.w), exact=True)
contract('size.set_width', P, Z + 'set_width', [('s', SIZE), ('l', REAL)], lambda w, o: o.s.set_width(o.l), mut=['s'],
         ensures=lambda a, r, p: And(p.s.w == Abs(a.l), p.s.l == a.s.l), exact=True)
contract('size.diagonal', P, Z + 'diagonal', [('s', SIZE)], lambda w, o: o.s.diagonal(), result=REAL,
         ensures=lambda a, r: And(r >= 0, r * r == Sq(a.s.l) + Sq(a.s.w)))
contract('size.is_valid', P, Z + 'is_valid', [('s', SIZE)], lambda w, o: o.s.is_valid(), result=BOOL,
         ensures=lambda a, r: Iff(r, And(a.s.l > 0, a.s.w > 0)), exact=True)
contract('size.eq', P, Z + '__eq__', [('s', SIZE), ('u', SIZE)], lambda w, o: o.s == o.u, result=BOOL,
         ensures=lambda a, r: Iff(r, And(Abs(a.s.l - a.u.l) < Q(E6), Abs(a.s.w - a.u.w) < Q(E6))))

contract('rect.ctor0', P, R + '__init__', [], lambda w, o: w.Rect2D(), result=RECT, ensures=lambda a, r: is_rect(r, 0, 0, 0, 0))
contract('rect.ctor4', P, R + '__init__', [('x', REAL), ('y', REAL), ('l', REAL), ('w', REAL)], lambda w, o: w.Rect2D(o.x, o.y, o.l, o.w), result=RECT,
         ensures=lambda a, r: is_rect(r, a.x, a.y, Abs(a.l), Abs(a.w)), exact=True)
contract('rect.ctor3', P, R + '__init__', [('p', VEC), ('l', REAL), ('w', REAL)], lambda w, o: w.Rect2D(o.p, o.l, o.w), result=RECT,
         ensures=lambda a, r: is_rect(r, a.p.x, a.p.y, Abs(a.l), Abs(a.w)), exact=True)
contract('rect.ctor_size', P, R + '__init__', [('p', VEC), ('s', SIZE)], lambda w, o: w.Rect2D(o.p, o.s), result=RECT,
         ensures=lambda a, r: is_rect(r, a.p.x, a.p.y, a.s.l, a.s.w), exact=True)


def corners(r, p, q):
    return {'leftmost': r.x == Min(p.x, q.x), 'topmost': r.y == Min(p.y, q.y), 'length': r.l == Abs(p.x - q.x), 'width': r.w == Abs(p.y - q.y)}


contract('rect.ctor_corners', P, R + '__init__', [('p', VEC), ('q', VEC)], lambda w, o: w.Rect2D(o.p, o.q), result=RECT,
         ensures=lambda a, r: corners(r, a.p, a.q))
contract('rect.ctor_copy', P, R + '__init__', [('t', RECT)], lambda w, o: w.Rect2D(o.t), result=RECT, ensures=lambda a, r: RECT.eq(r, a.t), exact=True)
contract('rect.assign4', P, R + 'assign', [('t', RECT), ('x', REAL), ('y', REAL), ('l', REAL), ('w', REAL)], lambda w, o: o.t.assign(o.x, o.y, o.l, o.w),
         result=RECT, returns='t', mut=['t'], ensures=lambda a, r, p: is_rect(p.t, a.x, a.y, Abs(a.l), Abs(a.w)), exact=True)
contract('rect.assign3', P, R + 'assign', [('t', RECT), ('p', VEC), ('l', REAL), ('w', REAL)], lambda w, o: o.t.assign(o.p, o.l, o.w),
         result=RECT, returns='t', mut=['t'], ensures=lambda a, r, p: is_rect(p.t, a.p.x, a.p.y, Abs(a.l), Abs(a.w)), exact=True)
contract('rect.assign_size', P, R + 'assign', [('t', RECT), ('p', VEC), ('s', SIZE)], lambda w, o: o.t.assign(o.p, o.s),
         result=RECT, returns='t', mut=['t'], ensures=lambda a, r, p: is_rect(p.t, a.p.x, a.p.y, a.s.l, a.s.w), exact=True)
contract('rect.assign_corners', P, R + 'assign', [('t', RECT), ('p', VEC), ('q', VEC)], lambda w, o: o.t.assign(o.p, o.q),
         result=RECT, returns='t', mut=['t'], ensures=lambda a, r, p: corners(p.t, a.p, a.q))
contract('rect.assign_copy', P, R + 'assign', [('t', RECT), ('u', RECT)], lambda w, o: o.t.assign(o.u),
         result=RECT, returns='t', mut=['t'], ensures=lambda a, r, p: RECT.eq(p.t, a.u), exact=True)
contract('rect.from_center4', P, R + 'from_center', [('x', REAL), ('y', REAL), ('l', NONNEG), ('w', NONNEG)], lambda w, o: w.Rect2D.from_center(o.x, o.y, o.l, o.w), result=RECT,
         ensures=lambda a, r: {'center x': 2 * r.x + r.l == 2 * a.x, 'center y': 2 * r.y + r.w == 2 * a.y, 'size': And(r.l == a.l, r.w == a.w)})
contract('rect.from_center3', P, R + 'from_center', [('p', VEC), ('l', NONNEG), ('w', NONNEG)], lambda w, o: w.Rect2D.from_center(o.p, o.l, o.w), result=RECT,
         ensures=lambda a, r: {'center x': 2 * r.x + r.l == 2 * a.p.x, 'center y': 2 * r.y + r.w == 2 * a.p.y, 'size': And(r.l == a.l, r.w == a.w)})

# edges and corners
for ms, f in ((('left', 'min_x'), lambda t: t.x), (('right', 'max_x'), lambda t: t.x + t.l), (('top', 'min_y'), lambda t: t.y), (('bottom', 'max_y'), lambda t: t.y + t.w)):
    for m in ms:
        contract(f'rect.{m}', P, R + m, [('t', RECT)], lambda w, o, m=m: getattr(o.t, m)(), result=REAL, ensures=lambda a, r, f=f: r == f(a.t))
for m, fx, fy in (('top_left', 0, 0), ('top_right', 2, 0), ('bottom_left', 0, 2), ('bottom_right', 2, 2), ('center', 1, 1)):
    contract(f'rect.{m}', P, R + m, [('t', RECT)], lambda w, o, m=m: getattr(o.t, m)(), result=VECV,
             ensures=lambda a, r, fx=fx, fy=fy: And(r.valid, 2 * r.x == 2 * a.t.x + fx * a.t.l, 2 * r.y == 2 * a.t.y + fy * a.t.w))
contract('rect.top_left_', P, R + 'top_left_', [('t', RECT)], lambda w, o: o.t.top_left_(), result=VECV, fresh=False,
         ensures=lambda a, r: And(r.valid, r.x == a.t.x, r.y == a.t.y))
contract('rect.size', P, R + 'size', [('t', RECT)], lambda w, o: o.t.size(), result=SIZE, ensures=lambda a, r: And(r.l == a.t.l, r.w == a.t.w), exact=True)
contract('rect.size_', P, R + 'size_', [('t', RECT)], lambda w, o: o.t.size_(), result=SIZE, fresh=False, ensures=lambda a, r: And(r.l == a.t.l, r.w == a.t.w), exact=True)
contract('rect.is_valid', P, R + 'is_valid', [('t', RECT)], lambda w, o: o.t.is_valid(), result=BOOL, ensures=lambda a, r: Iff(r, And(a.t.l > 0, a.t.w > 0)), exact=True)
contract('rect.area', P, R + 'area', [('t', RECT)], lambda w, o: o.t.area(), result=REAL, ensures=lambda a, r: r == a.t.l * a.t.w)
for m, (x0, y0), (x1, y1) in (('left_edge', (0, 0), (0, 1)), ('right_edge', (1, 0), (1, 1)), ('top_edge', (0, 0), (1, 0)), ('bottom_edge', (0, 1), (1, 1))):
    contract(f'rect.{m}', P, R + m, [('t', RECT)], lambda w, o, m=m: getattr(o.t, m)(), result=LINE, requires=lambda a: And(a.t.l >= Q(E6), a.t.w >= Q(E6)),
             ensures=lambda a, r, x0=x0, y0=y0, x1=x1, y1=y1: {
                 'one corner': on_line(r, NS(x=a.t.x + x0 * a.t.l, y=a.t.y + y0 * a.t.w)), 'other corner': on_line(r, NS(x=a.t.x + x1 * a.t.l, y=a.t.y + y1 * a.t.w)),
                 'proper': Or(Not(r.a == 0), Not(r.b == 0))})

# moving keeps the size
for ms, f in ((('move_left', 'move_min_x'), lambda t, v: (v, t.y)), (('move_right', 'move_max_x'), lambda t, v: (v - t.l, t.y)),
              (('move_top', 'move_min_y'), lambda t, v: (t.x, v)), (('move_bottom', 'move_max_y'), lambda t, v: (t.x, v - t.w))):
    for m in ms:
        contract(f'rect.{m}', P, R + m, [('t', RECT), ('v', REAL)], lambda w, o, m=m: getattr(o.t, m)(o.v), mut=['t'],
                 ensures=lambda a, r, p, f=f: is_rect(p.t, *f(a.t, a.v), a.t.l, a.t.w))
for m, k in (('move_top_left', 0), ('move_bottom_right', 2), ('move_center', 1)):
    contract(f'rect.{m}', P, R + m, [('t', RECT), ('q', VEC)], lambda w, o, m=m: getattr(o.t, m)(o.q), mut=['t'],
             ensures=lambda a, r, p, k=k: And(2 * p.t.x == 2 * a.q.x - k * a.t.l, 2 * p.t.y == 2 * a.q.y - k * a.t.w, p.t.l == a.t.l, p.t.w == a.t.w))


# setting an edge keeps the opposite one
def span(p, lo, hi):
    return And(p.t.x == Min(lo, hi), p.t.l == Abs(lo - hi))


def spany(p, lo, hi):
    return And(p.t.y == Min(lo, hi), p.t.w == Abs(lo - hi))


for ms, f in ((('set_left', 'set_min_x'), lambda a, p: {'x': span(p, a.v, a.t.x + a.t.l), 'y': And(p.t.y == a.t.y, p.t.w == a.t.w)}),
              (('set_right', 'set_max_x'), lambda a, p: {'x': span(p, a.v, a.t.x), 'y': And(p.t.y == a.t.y, p.t.w == a.t.w)}),
              (('set_top', 'set_min_y'), lambda a, p: {'y': spany(p, a.v, a.t.y + a.t.w), 'x': And(p.t.x == a.t.x, p.t.l == a.t.l)}),
              (('set_bottom', 'set_max_y'), lambda a, p: {'y': spany(p, a.v, a.t.y), 'x': And(p.t.x == a.t.x, p.t.l == a.t.l)})):
    for m in ms:
        contract(f'rect.{m}', P, R + m, [('t', RECT), ('v', REAL)], lambda w, o, m=m: getattr(o.t, m)(o.v), mut=['t'],
                 ensures=lambda a, r, p, f=f: f(a, p))
for m, k in (('set_top_left', 1), ('set_bottom_right', 0)):
    for n in (1, 2):
        contract(f'rect.{m}{n}', P, R + m, [('t', RECT), ('q', VEC)],
                 lambda w, o, m=m, n=n: getattr(o.t, m)(o.q) if n == 1 else getattr(o.t, m)(o.q.x(), o.q.y()), mut=['t'], returns='t', result=RECT,
                 ensures=lambda a, r, p, k=k: {'x': span(p, a.q.x, a.t.x + k * a.t.l), 'y': spany(p, a.q.y, a.t.y + k * a.t.w)})
contract('rect.set_length', P, R + 'set_length', [('t', RECT), ('v', REAL)], lambda w, o: o.t.set_length(o.v), mut=['t'],
         ensures=lambda a, r, p: is_rect(p.t, a.t.x, a.t.y, Abs(a.v), a.t.w), exact=True)
contract('rect.set_width', P, R + 'set_width', [('t', RECT), ('v', REAL)], lambda w, o: o.t.set_width(o.v), mut=['t'],
         ensures=lambda a, r, p: is_rect(p.t, a.t.x, a.t.y, a.t.l, Abs(a.v)), exact=True)
contract('rect.set_size2', P, R + 'set_size', [('t', RECT), ('l', REAL), ('w', REAL)], lambda w, o: o.t.set_size(o.l, o.w), mut=['t'],
         ensures=lambda a, r, p: is_rect(p.t, a.t.x, a.t.y, Abs(a.l), Abs(a.w)), exact=True)
contract('rect.set_size1', P, R + 'set_size', [('t', RECT), ('s', SIZE)], lambda w, o: o.t.set_size(o.s), mut=['t'],
         ensures=lambda a, r, p: is_rect(p.t, a.t.x, a.t.y, a.s.l, a.s.w), exact=True)

# ---------------------------------------------------------------- C14
P = 'C14'


def inside(t, p, m=0):
    return And(p.x >= t.x - m, p.x <= t.x + t.l + m, p.y >= t.y - m, p.y <= t.y + t.w + m)


def on_border(t, p):
    return And(inside(t, p), Or(p.x == t.x, p.x == t.x + t.l, p.y == t.y, p.y == t.y + t.w))


contract('rect.contains', P, R + 'contains', [('t', RECT), ('p', VEC)], lambda w, o: o.t.contains(o.p), result=BOOL,
         ensures=lambda a, r: Iff(r, inside(a.t, a.p)), exact=True)
contract('rect.contains_almost', P, R + 'contains_almost', [('t', RECT), ('p', VEC), ('e', NONNEG)], lambda w, o: o.t.contains_almost(o.p, o.e), result=BOOL,
         ensures=lambda a, r: Iff(r, inside(a.t, a.p, a.e)))
contract('rect.intersected', P, R + 'intersected', [('t', RECT), ('u', RECT)], lambda w, o: o.t.intersected(o.u), result=RECT, ghosts=[('g', VEC)],
         ensures=lambda a, r: {
             'common points': Implies(And(r.l > 0, r.w > 0), Iff(inside(r, a.g), And(inside(a.t, a.g), inside(a.u, a.g)))),
             'empty only without common area': Implies(Not(And(r.l > 0, r.w > 0)),
                                                       Not(And(a.g.x > a.t.x, a.g.x < a.t.x + a.t.l, a.g.y > a.t.y, a.g.y < a.t.y + a.t.w,
                                                               a.g.x > a.u.x, a.g.x < a.u.x + a.u.l, a.g.y > a.u.y, a.g.y < a.u.y + a.u.w))),
             'empty is empty': Implies(Not(And(r.l > 0, r.w > 0)), is_rect(r, 0, 0, 0, 0))})
contract('rect.united', P, R + 'united', [('t', RECT), ('u', RECT)], lambda w, o: o.t.united(o.u), result=RECT,
         ensures=lambda a, r: {
             'smallest cover': Implies(And(a.t.l > 0, a.t.w > 0, a.u.l > 0, a.u.w > 0),
                                       And(r.x == Min(a.t.x, a.u.x), r.y == Min(a.t.y, a.u.y), r.x + r.l == Max(a.t.x + a.t.l, a.u.x + a.u.l),
                                           r.y + r.w == Max(a.t.y + a.t.w, a.u.y + a.u.w))),
             'an empty operand': Implies(Not(And(a.t.l > 0, a.t.w > 0, a.u.l > 0, a.u.w > 0)), is_rect(r, 0, 0, 0, 0))})




def regular(a):
    """the rectangle is not degenerate and the line is not nearly parallel to a side it does not follow exactly"""
    t, l = a.t, a.l
    return And(t.l >= Q('1e-2'), t.w >= Q('1e-2'), Or(l.a == 0, Abs(l.a) >= Q('1e-2')), Or(l.b == 0, Abs(l.b) >= Q('1e-2')), Or(Not(l.a == 0), Not(l.b == 0)))


def splits(t, l):
    """the line has corners of t on both sides"""
    e = [l.a * x + l.b * y + l.c for x in (t.x, t.x + t.l) for y in (t.y, t.y + t.w)]
    return And(Or(*[v >= Q('1e-4') for v in e]), Or(*[v <= -Q('1e-4') for v in e]))


def off_corners(t, g):
    return And(*[Not(near(g, NS(x=x, y=y), '1e-5')) for x in (t.x, t.x + t.l) for y in (t.y, t.y + t.w)])


VLIST = ListOf(VECV, most=2)


def _cut(a, r):
    d = {'at most two points': len(r) <= 2, 'valid points': And(*[p.valid for p in r]), 'on the line': And(*[on_line(a.l, p) for p in r]),
         'on the border': And(*[on_border(a.t, p) for p in r])}
    if len(r) == 2:
        d['different points'] = Not(near(r[0], r[1]))
    return d


def _border(rng, v):
    """g on the border and the line through it"""
    k = rng.choice([0, 0, 1, .5, .25])
    v.g = rng.choice([NS(x=v.t.x + k * v.t.l, y=v.t.y), NS(x=v.t.x + k * v.t.l, y=v.t.y + v.t.w), NS(x=v.t.x, y=v.t.y + k * v.t.w), NS(x=v.t.x + v.t.l, y=v.t.y + k * v.t.w)])
    v.l.c = -(v.l.a * v.g.x + v.l.b * v.g.y)


contract('rect.intersection_line', P, R + 'intersection', [('t', RECT), ('l', LINE)], lambda w, o: o.t.intersection(o.l), result=VLIST, ensures=_cut,
         timeout=30, weight=4, max_paths=4000, uses=['line.intersection'])
contract('rect.intersection_line_found', P, R + 'intersection', [('t', RECT), ('l', LINE)], lambda w, o: o.t.intersection(o.l), result=VLIST,
         ghosts=[('g', VEC)], requires=lambda a: [regular(a), splits(a.t, a.l), on_line(a.l, a.g), on_border(a.t, a.g)],
         ensures=lambda a, r: {'every common point is found': Or(*[near(a.g, p) for p in r]),
                               'exactly, away from the corners': Implies(off_corners(a.t, a.g), Or(*[same(a.g, p) for p in r]))}, timeout=30, weight=4, max_paths=4000, search=_border, history=False, uses=['line.intersection'])


def ray_line(y):
    c, s = Cosd(y.d), Sind(y.d)
    return NS(a=-s, b=c, c=s * y.o.x - c * y.o.y)


def seg_line(s):
    dx, dy = s.t.x - s.o.x, s.t.y - s.o.y
    return NS(a=-dy, b=dx, c=dy * s.o.x - dx * s.o.y)


def _cut_ray(a, r):
    from .ray import ahead, aside
    return {'at most two points': len(r) <= 2, 'valid points': And(*[p.valid for p in r]), 'on the border': And(*[on_border(a.t, p) for p in r]),
            'on the line of the ray': And(*[aside(a.y, p) == 0 for p in r]), 'not behind the origin': And(*[Or(ahead(a.y, p) >= 0, near(p, a.y.o)) for p in r])}


def _border_ray(rng, v):
    import math
    k = rng.choice([0, 1, .5, .25])
    v.g = rng.choice([NS(x=v.t.x + k * v.t.l, y=v.t.y), NS(x=v.t.x + k * v.t.l, y=v.t.y + v.t.w), NS(x=v.t.x, y=v.t.y + k * v.t.w), NS(x=v.t.x + v.t.l, y=v.t.y + k * v.t.w)])
    if hasattr(v, 'y'):
        v.k = abs(v.k)
        v.y.o = NS(x=v.g.x - v.k * math.cos(math.radians(v.y.d)), y=v.g.y - v.k * math.sin(math.radians(v.y.d)))
    else:
        v.k = rng.choice([0, 1, .5, .25])
        d = NS(x=v.s.t.x - v.s.o.x, y=v.s.t.y - v.s.o.y)
        v.s = NS(o=NS(x=v.g.x - v.k * d.x, y=v.g.y - v.k * d.y), t=NS(x=v.g.x + (1 - v.k) * d.x, y=v.g.y + (1 - v.k) * d.y))


contract('rect.intersection_ray', P, R + 'intersection', [('t', RECT), ('y', RAY)], lambda w, o: o.t.intersection(o.y), result=VLIST, ensures=_cut_ray,
         timeout=30, weight=4, uses=['rect.intersection_line', 'ray.in_right_dir_on'])
contract('rect.intersection_ray_found', P, R + 'intersection', [('t', RECT), ('y', RAY)], lambda w, o: o.t.intersection(o.y), result=VLIST,
         ghosts=[('g', VEC), ('k', NONNEG)],
         requires=lambda a: [regular(NS(t=a.t, l=ray_line(a.y))), splits(a.t, ray_line(a.y)),
                             And(a.g.x == a.y.o.x + a.k * Cosd(a.y.d), a.g.y == a.y.o.y + a.k * Sind(a.y.d)), on_border(a.t, a.g)],
         ensures=lambda a, r: {'every common point is found': Or(*[near(a.g, p) for p in r])}, timeout=30, weight=4, max_paths=4000, search=_border_ray,
         history=False, uses=['rect.intersection_line', 'ray.in_right_dir_on'], facts=['rect.intersection_line_found'])


def _cut_seg(a, r):
    return {'at most two points': len(r) <= 2, 'valid points': And(*[p.valid for p in r]), 'on the border': And(*[on_border(a.t, p) for p in r]),
            'on the line of the segment': And(*[cross(a.s.o, a.s.t, p) == 0 for p in r]), 'within the segment': And(*[in_box(a.s, p, Q('1e-4')) for p in r])}


contract('rect.intersection_seg', P, R + 'intersection', [('t', RECT), ('s', SEG)], lambda w, o: o.t.intersection(o.s), result=VLIST, ensures=_cut_seg,
         timeout=30, weight=4, uses=['rect.intersection_line'])
contract('rect.intersection_seg_found', P, R + 'intersection', [('t', RECT), ('s', SEG)], lambda w, o: o.t.intersection(o.s), result=VLIST,
         ghosts=[('g', VEC), ('k', UNIT)],
         requires=lambda a: [regular(NS(t=a.t, l=seg_line(a.s))), splits(a.t, seg_line(a.s)),
                             And(cross(a.s.o, a.s.t, a.g) == 0, in_box(a.s, a.g, 0)), on_border(a.t, a.g), off_corners(a.t, a.g)],
         ensures=lambda a, r: {'every common point is found': Or(*[near(a.g, p) for p in r])}, timeout=30, weight=4, search=_border_ray,
         history=False, uses=['rect.intersection_line'], facts=['rect.intersection_line_found'])
for cid in ('rect.intersection_line', 'rect.intersection_line_found'):
    summary(cid, R + 'intersection', lambda w, t, l: dict(t=t, l=l) if isinstance(l, w.Line2D) else None)
