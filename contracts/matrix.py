"""Matrix2D: affine maps (C20)."""
from pyvc.contract import contract
from pyvc.shapes import *
from pyvc.spec import *
from .geom import *

M = 'matrix_2d.Matrix2D.'
P = 'C20'


def app(m, p):
    return NS(x=m.m11 * p.x + m.m12 * p.y + m.dx, y=m.m21 * p.x + m.m22 * p.y + m.dy)


def det(m):
    return m.m11 * m.m22 - m.m12 * m.m21


def is_mat(m, *v):
    return And(*[getattr(m, k) == x for k, x in zip(MAT.F, v)])


contract('mat.ctor0', P, M + '__init__', [], lambda w, o: w.Matrix2D(), result=MAT, ensures=lambda a, r: is_mat(r, 1, 0, 0, 1, 0, 0))
contract('mat.ctor', P, M + '__init__', [('a', REAL), ('b', REAL), ('c', REAL), ('d', REAL), ('x', REAL), ('y', REAL)],
         lambda w, o: w.Matrix2D(o.a, o.b, o.c, o.d, o.x, o.y), result=MAT, ensures=lambda a, r: is_mat(r, a.a, a.b, a.c, a.d, a.x, a.y), exact=True)
contract('mat.assign', P, M + 'assign', [('m', MAT), ('a', REAL), ('b', REAL), ('c', REAL), ('d', REAL), ('x', REAL), ('y', REAL)],
         lambda w, o: o.m.assign(o.a, o.b, o.c, o.d, o.x, o.y), mut=['m'], ensures=lambda a, r, p: is_mat(p.m, a.a, a.b, a.c, a.d, a.x, a.y), exact=True)
contract('mat.reset', P, M + 'reset', [('m', MAT)], lambda w, o: o.m.reset(), mut=['m'], ensures=lambda a, r, p: is_mat(p.m, 1, 0, 0, 1, 0, 0))
for k, f in (('m11', 'm11'), ('m12', 'm12'), ('m21', 'm21'), ('m22', 'm22'), ('dxtf', 'dx'), ('dytf', 'dy')):
    contract(f'mat.{k}', P, M + k, [('m', MAT)], lambda w, o, k=k: getattr(o.m, k)(), result=REAL, ensures=lambda a, r, f=f: r == getattr(a.m, f), exact=True)
contract('mat.det', P, M + 'det', [('m', MAT)], lambda w, o: o.m.det(), result=REAL, ensures=lambda a, r: r == det(a.m))
contract('mat.invertible', P, M + 'invertible', [('m', MAT)], lambda w, o: o.m.invertible(), result=BOOL, ensures=lambda a, r: Iff(r, Abs(det(a.m)) > Q('1e-6')))
for nm, f in (('transform1', lambda w, o: o.m.transform(o.p)), ('transform2', lambda w, o: o.m.transform(o.p.x(), o.p.y())), ('mul_vec', lambda w, o: o.m * o.p)):
    contract(f'mat.{nm}', P, M + ('__mul__' if nm == 'mul_vec' else 'transform'), [('m', MAT), ('p', VEC)], f, result=VECV,
             ensures=lambda a, r: And(r.valid, same(r, app(a.m, a.p))))
contract('mat.transform_vec', P, M + 'transform_vec', [('m', MAT), ('p', VEC)], lambda w, o: o.m.transform_vec(o.p), result=VEC, mut=['p'], returns='p',
         ensures=lambda a, r, p: same(p.p, app(a.m, a.p)))
contract('mat.inverted', P, M + 'inverted', [('m', MAT), ('p', VEC)], lambda w, o: (o.m.inverted(), o.m.inverted().transform(o.m.transform(o.p)), o.m.transform(o.m.inverted().transform(o.p))),
         result=Pair(MAT, VEC, VEC), requires=lambda a: Abs(det(a.m)) > Q('1e-6'),
         ensures=lambda a, r: {'undoes the map': same(r[1], a.p), 'is undone by the map': same(r[2], a.p), 'determinant': det(r[0]) * det(a.m) == 1})
contract('mat.inverted_singular', P, M + 'inverted', [('m', MAT)], lambda w, o: o.m.inverted(), result=MAT, requires=lambda a: det(a.m) == 0,
         ensures=lambda a, r: {'the identity stands in': is_mat(r, 1, 0, 0, 1, 0, 0)}, exact=True, history=False, search=lambda rng, v: flat(rng, v.m))


def flat(rng, m):
    k = rng.choice([0.0, 1.0, -2.0, 0.5])
    m.m11, m.m12 = float(rng.randint(-9, 9)), float(rng.randint(-9, 9))
    m.m21, m.m22 = k * m.m11, k * m.m12


def imul(x, y):
    x *= y
    return x


contract('mat.mul', P, M + '__mul__', [('m', MAT), ('n', MAT)], lambda w, o: o.m * o.n, result=MAT, ghosts=[('g', VEC)],
         ensures=lambda a, r: {'right operand first, then the left one': same(app(r, a.g), app(a.m, app(a.n, a.g))), 'determinant': det(r) == det(a.m) * det(a.n)})
contract('mat.imul', P, M + '__imul__', [('m', MAT), ('n', MAT)], lambda w, o: imul(o.m, o.n), result=MAT, mut=['m'], returns='m', ghosts=[('g', VEC)],
         ensures=lambda a, r, p: {'right operand first, then the left one': same(app(p.m, a.g), app(a.m, app(a.n, a.g)))})
contract('mat.imul_self', P, M + '__imul__', [('m', MAT)], lambda w, o: imul(o.m, o.m), result=MAT, mut=['m'], returns='m', ghosts=[('g', VEC)],
         ensures=lambda a, r, p: {'applied twice': same(app(p.m, a.g), app(a.m, app(a.m, a.g)))})
contract('mat.mul_assoc', P, M + '__mul__', [('m', MAT), ('n', MAT), ('k', MAT)], lambda w, o: ((o.m * o.n) * o.k, o.m * (o.n * o.k)), result=Pair(MAT, MAT),
         ensures=lambda a, r: MAT.eq(r[0], r[1]))
contract('mat.translate', P, M + 'translate', [('m', MAT), ('x', REAL), ('y', REAL)], lambda w, o: o.m.translate(o.x, o.y), mut=['m'], ghosts=[('g', VEC)],
         ensures=lambda a, r, p: {'shifted afterwards': same(app(p.m, a.g), NS(x=app(a.m, a.g).x + a.x, y=app(a.m, a.g).y + a.y))})
contract('mat.scale', P, M + 'scale', [('m', MAT), ('x', REAL), ('y', REAL)], lambda w, o: o.m.scale(o.x, o.y), mut=['m'], ghosts=[('g', VEC)],
         ensures=lambda a, r, p: {'scaled afterwards': same(app(p.m, a.g), NS(x=app(a.m, a.g).x * a.x, y=app(a.m, a.g).y * a.y))})


def rot(p, d):
    return NS(x=p.x * Cosd(d) - p.y * Sind(d), y=p.x * Sind(d) + p.y * Cosd(d))


contract('mat.rotate', P, M + 'rotate', [('m', MAT), ('d', ANG)], lambda w, o: o.m.rotate(o.d), mut=['m'], ghosts=[('g', VEC)],
         ensures=lambda a, r, p: {'turned afterwards': same(app(p.m, a.g), rot(app(a.m, a.g), a.d.d))})
contract('mat.make_translation', P, M + 'make_translation', [('x', REAL), ('y', REAL)], lambda w, o: w.Matrix2D.make_translation(o.x, o.y), result=MAT,
         ensures=lambda a, r: is_mat(r, 1, 0, 0, 1, a.x, a.y), exact=True)
contract('mat.make_scaling', P, M + 'make_scaling', [('x', REAL), ('y', REAL)], lambda w, o: w.Matrix2D.make_scaling(o.x, o.y), result=MAT,
         ensures=lambda a, r: is_mat(r, a.x, 0, 0, a.y, 0, 0), exact=True)
contract('mat.make_rotation', P, M + 'make_rotation', [('d', ANG)], lambda w, o: w.Matrix2D.make_rotation(o.d), result=MAT, ghosts=[('g', VEC)],
         ensures=lambda a, r: {'turns': same(app(r, a.g), rot(a.g, a.d.d)), 'keeps lengths': Sq(app(r, a.g).x) + Sq(app(r, a.g).y) == Sq(a.g.x) + Sq(a.g.y), 'determinant': det(r) == 1})
contract('mat.eq', P, M + '__eq__', [('m', MAT), ('n', MAT)], lambda w, o: (o.m == o.n, o.m != o.n), result=Pair(BOOL, BOOL),
         ensures=lambda a, r: {'eq': Iff(r[0], MAT.eq(a.m, a.n)), 'ne': Iff(r[1], Not(r[0]))}, exact=True)
