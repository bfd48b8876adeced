"""soccer_math: inertia, dashes and wind (C22); rounding, quantisation and ranges (C23)."""
from pyvc.contract import contract, summary
from pyvc.shapes import *
from pyvc.spec import *
from .geom import *

F = 'soccer_math.'



def fn(w, name):
    return getattr(w.load('pyrusgeom.soccer_math'), name)


def call(name, *ks):
    return lambda w, o: fn(w, name)(*[getattr(o, k) for k in ks])


# ---------------------------------------------------------------- C22
P = 'C22'


def decay(rng, v):
    v.d = rng.choice([0.4, 0.94, 0.5, 0.25, 0.0, 0.9, 1.5, 2.0, rng.random()])
    if hasattr(v, 'n'):
        v.n = CInt(rng.randint(0, 30))


DEC = lambda a: And(a.d >= 0, Abs(a.d - 1) > Q('1e-3'))
contract('sm.travel', P, F + 'inertia_n_step_travel', [('v', VEC), ('n', NAT), ('d', REAL)],
         lambda w, o: (fn(w, 'inertia_n_step_travel')(o.v, o.n, o.d), fn(w, 'inertia_n_step_travel')(o.v, o.n + 1, o.d)), result=Pair(VECV, VECV),
         requires=DEC, search=decay, history=False,
         ensures=lambda a, r: {'nothing in no step': Implies(a.n == 0, And(r[0].x == 0, r[0].y == 0)),
                               'one more step adds the decayed velocity': And(r[1].x == r[0].x + a.v.x * Pow(a.d, a.n), r[1].y == r[0].y + a.v.y * Pow(a.d, a.n)),
                               'valid': And(r[0].valid, r[1].valid)})
contract('sm.distance', P, F + 'inertia_n_step_distance', [('v', REAL), ('n', NAT), ('d', REAL)],
         lambda w, o: (fn(w, 'inertia_n_step_distance')(o.v, o.n, o.d), fn(w, 'inertia_n_step_distance')(o.v, o.n + 1, o.d)), result=Pair(REAL, REAL),
         requires=DEC, search=decay, history=False,
         ensures=lambda a, r: {'nothing in no step': Implies(a.n == 0, r[0] == 0), 'one more step adds the decayed speed': r[1] == r[0] + a.v * Pow(a.d, a.n)})
contract('sm.point', P, F + 'inertia_n_step_point', [('p', VEC), ('v', VEC), ('n', NAT), ('d', REAL)],
         lambda w, o: (fn(w, 'inertia_n_step_point')(o.p, o.v, o.n, o.d), fn(w, 'inertia_n_step_travel')(o.v, o.n, o.d)), result=Pair(VECV, VECV),
         requires=DEC, search=decay, ensures=lambda a, r: And(r[0].valid, r[0].x == a.p.x + r[1].x, r[0].y == a.p.y + r[1].y), history=False)
contract('sm.final_travel', P, F + 'inertia_final_travel', [('v', VEC), ('n', NAT), ('d', REAL)],
         lambda w, o: (fn(w, 'inertia_final_travel')(o.v, o.d), fn(w, 'inertia_n_step_travel')(o.v, o.n, o.d)), result=Pair(VECV, VECV),
         requires=DEC, search=decay, history=False,
         ensures=lambda a, r: {'limit': And(r[0].valid, r[0].x * (1 - a.d) == a.v.x, r[0].y * (1 - a.d) == a.v.y),
                               'what remains after n steps decays': And(r[0].x - r[1].x == r[0].x * Pow(a.d, a.n), r[0].y - r[1].y == r[0].y * Pow(a.d, a.n))})
contract('sm.final_point', P, F + 'inertia_final_point', [('p', VEC), ('v', VEC), ('d', REAL)], call('inertia_final_point', 'p', 'v', 'd'), result=VECV, requires=DEC, search=decay,
         ensures=lambda a, r: And(r.valid, (r.x - a.p.x) * (1 - a.d) == a.v.x, (r.y - a.p.y) * (1 - a.d) == a.v.y))
contract('sm.final_distance', P, F + 'inertia_final_distance', [('v', REAL), ('d', REAL)], call('inertia_final_distance', 'v', 'd'), result=REAL, requires=DEC, search=decay,
         ensures=lambda a, r: r * (1 - a.d) == a.v)


def series(rng, v):
    v.q = rng.choice([0.5, 0.94, 2.0, 1.25, 0.25, rng.random() + .01])
    if hasattr(v, 'n'):
        v.n = CInt(rng.randint(1, 30))
    if hasattr(v, 'f'):
        v.f = rng.choice([1.0, 3.0, 0.125, v.f])
        v.s = rng.choice([1.0, 3.0, 0.125, 1.75, 0.0, 1e-11, -1.0, v.s])


contract('sm.first_term', P, F + 'calc_first_term_geom_series', [('s', REAL), ('q', REAL), ('n', POSINT)], call('calc_first_term_geom_series', 's', 'q', 'n'), result=REAL,
         requires=lambda a: And(a.q > 0, Abs(a.q - 1) > Q('1e-3'), Abs(1 - Pow(a.q, a.n)) > Q('1e-6')), search=series, history=False,
         ensures=lambda a, r: {'the series sums up': r * (1 - Pow(a.q, a.n)) == a.s * (1 - a.q)})


def _length(a, r):
    small = Q('1e-10')
    tmp = a.f + a.s * (a.q - 1)
    bad = Or(a.f <= small, a.s < 0, a.q <= small)
    return {'impossible': Implies(bad, r == -1), 'nothing to sum': Implies(And(Not(bad), a.s <= small), r == 0),
            'out of reach': Implies(And(Not(bad), a.s > small, tmp <= small * a.f), r == -1),
            'the series sums up': Implies(And(Not(bad), a.s > small, tmp > small * a.f), r * Log(Ite(a.q > small, a.q, Q('0.5'))) == Log(1 + a.s * (a.q - 1) / Ite(a.f > small, a.f, 1)))}


contract('sm.length', P, F + 'calc_length_geom_series', [('f', REAL), ('s', REAL), ('q', REAL)], call('calc_length_geom_series', 'f', 's', 'q'), result=REAL,
         requires=lambda a: And(Abs(a.q - 1) > Q('1e-3'), Or(a.f > Q('1e-9'), a.f <= Q('1e-10')), Or(a.q > Q('1e-9'), a.q <= 0)), ensures=_length, search=series)
contract('sm.kick_rate', P, F + 'kick_rate', [('d', REAL), ('a', DEG), ('k', REAL), ('b', REAL), ('p', REAL), ('m', POS)], call('kick_rate', 'd', 'a', 'k', 'b', 'p', 'm'), result=REAL,
         ensures=lambda a, r: r * 720 * a.m == a.k * (720 * a.m - Abs(a.a) * a.m - 180 * (a.d - a.b - a.p)))
contract('sm.dir_rate', P, F + 'dir_rate', [('d', DEG), ('b', REAL), ('s', REAL)], call('dir_rate', 'd', 'b', 's'), result=REAL, requires=lambda a: Abs(a.d) <= 180,
         ensures=lambda a, r: {'front half: from 1 to the side rate': Implies(Abs(a.d) <= 90, r * 90 == (90 - Abs(a.d)) + a.s * Abs(a.d)),
                               'back half: from the side rate to the back rate': Implies(Abs(a.d) >= 90, r * 90 == a.s * (180 - Abs(a.d)) + a.b * (Abs(a.d) - 90))})
contract('sm.effective_turn', P, F + 'effective_turn', [('t', REAL), ('v', NONNEG), ('i', NONNEG)], call('effective_turn', 't', 'v', 'i'), result=REAL,
         ensures=lambda a, r: r * (1 + a.i * a.v) == a.t)
contract('sm.final_speed', P, F + 'final_speed', [('p', REAL), ('k', REAL), ('e', REAL), ('d', REAL)], call('final_speed', 'p', 'k', 'e', 'd'), result=REAL, requires=DEC, search=decay,
         ensures=lambda a, r: r * (1 - a.d) == Abs(a.p) * a.k * a.e)
contract('sm.can_over_speed_max', P, F + 'can_over_speed_max', [('p', REAL), ('k', REAL), ('e', REAL), ('d', REAL), ('m', REAL)], call('can_over_speed_max', 'p', 'k', 'e', 'd', 'm'), result=BOOL,
         ensures=lambda a, r: Iff(r, Abs(a.p) * a.k * a.e > a.m * (1 - a.d)))


def _wind(a, r):
    k = a.w * a.u
    return {'drift': And(r.valid, r.x * k == a.s * a.f * Cosd(a.d), r.y * k == a.s * a.f * Sind(a.d))}


WARGS = [('s', REAL), ('w', POS), ('f', REAL), ('d', DEG), ('u', POS), ('k', REAL)]
contract('sm.wind_effect', P, F + 'wind_effect', WARGS, lambda w, o: fn(w, 'wind_effect')(o.s, o.w, o.f, o.d, o.u, o.k, None), result=VECV, ensures=_wind)
contract('sm.wind_effect_error', P, F + 'wind_effect', WARGS + [('e', VEC)], lambda w, o: fn(w, 'wind_effect')(o.s, o.w, o.f, o.d, o.u, o.k, o.e), result=VECV, mut=['e'],
         ensures=lambda a, r, p: dict(_wind(a, r), error=And(p.e.x * a.w * a.u == a.s * a.f * Cosd(a.d) * a.k, p.e.y * a.w * a.u == a.s * a.f * Sind(a.d) * a.k)))

# ---------------------------------------------------------------- C23
P = 'C23'
contract('sm.r_int', P, F + 'r_int', [('x', REAL)], call('r_int', 'x'), result=INT,
         ensures=lambda a, r: {'nearest whole number, halves away from zero': r * Q('1') == RInt(a.x), 'within a half': Abs(r - a.x) <= Q('0.5')}, exact=True,
         search=lambda rng, v: setattr(v, 'x', rng.choice([v.x, rng.randint(-20, 20) / 2, rng.randint(-20, 20) / 4])))
for m, names in (('bound', 'num_0 num_1 num_2'), ('min_max', 'low number high')):
    contract(f'sm.{m}', P, F + m, [('a', REAL), ('x', REAL), ('b', REAL)], call(m, 'a', 'x', 'b'), result=REAL, exact=True,
             ensures=lambda a, r: {'inside the bounds it is kept': Implies(And(a.a <= a.x, a.x <= a.b), r == a.x), 'never above the upper bound': r <= a.b,
                                   'never below the lower bound': Implies(a.a <= a.b, r >= a.a),
                                   'the nearer bound otherwise': Implies(a.a <= a.b, And(Implies(a.x <= a.a, r == a.a), Implies(a.x >= a.b, r == a.b)))})


def qstep(rng, v):
    v.q = rng.choice([0.1, 0.01, 0.5, 1.0, 0.05, 2.0])
    if hasattr(v, 'd'):
        v.d = rng.choice([abs(v.d) + 1, rng.randint(1, 400) / 10, rng.random() * 60 + .2])


contract('sm.quantize', P, F + 'quantize', [('v', REAL), ('q', POS)], call('quantize', 'v', 'q'), result=REAL, search=qstep,
         ensures=lambda a, r: {'nearest multiple': r == RInt(a.v / a.q) * a.q, 'within half a step': Abs(r - a.v) * 2 <= a.q})
contract('sm.unquantize_min', P, F + 'unquantize_min', [('v', REAL), ('q', POS)], call('unquantize_min', 'v', 'q'), result=REAL, search=qstep,
         ensures=lambda a, r: {'half a step below the nearest multiple': 2 * r == (2 * RInt(a.v / a.q) - 1) * a.q, 'a lower bound': And(r <= a.v, r >= a.v - a.q)})
contract('sm.unquantize_max', P, F + 'unquantize_max', [('v', REAL), ('q', POS)], call('unquantize_max', 'v', 'q'), result=REAL, search=qstep,
         ensures=lambda a, r: {'half a step above the nearest multiple': 2 * r == (2 * RInt(a.v / a.q) + 1) * a.q, 'an upper bound': And(r >= a.v, r <= a.v + a.q)})
contract('sm.quantize_dist', P, F + 'quantize_dist', [('d', POS), ('q', POS)], call('quantize_dist', 'd', 'q'), result=REAL, search=qstep, uses=['sm.quantize'],
         requires=lambda a: And(a.d >= Q('0.01'), a.d <= 1000, a.q >= Q('0.001')),
         ensures=lambda a, r: {'quantised logarithm, then tenths': r * 10 == RInt(10 * Exp(a.q * RInt(Log(a.d + Q('1e-10')) / a.q)))})


def _err(a, r):
    lo = (2 * RInt(10 * a.d) - 1) / 20
    hi = (2 * RInt(10 * a.d) + 1) / 20
    e0 = Exp((RInt(Log(lo) / a.q) - Q('0.5')) * a.q)
    e1 = Exp((RInt(Log(hi) / a.q) + Q('0.5')) * a.q)
    return {'width of the interval': r == Abs(e1 - e0)}


contract('sm.unquantize_error', P, F + 'unquantize_error', [('d', POS), ('q', POS)], call('unquantize_error', 'd', 'q'), result=REAL, search=qstep, uses=['sm.unquantize_min', 'sm.unquantize_max'],
         requires=lambda a: And(a.d >= Q('0.1'), a.d <= 1000, a.q >= Q('0.001')), ensures=_err)

N = 6


def _range(start, stop, step):
    def f(a, r):
        s, e, d = start(a), stop(a), step(a)
        out = {'every element is reached by whole steps': And(*[x == s + i * d for i, x in enumerate(r)]),
               'all inside': And(*[Ite_(d, x, e) for x in r]), 'goes on to the end': Not(Ite_(d, s + len(r) * d, e))}
        return out
    return f


def Ite_(d, x, e):
    """x is still before the end e when going in steps of d"""
    return Or(And(d > 0, x < e), And(d < 0, x > e))


def few(rng, v):
    if hasattr(v, 'd'):
        v.d = rng.choice([0.1, 0.5, 1.0, -1.0, -0.25, 2.5])
        v.b = v.a + v.d * rng.choice([0, 1, 2, 2.5, 3, 4.75, -1])
    elif hasattr(v, 'a'):
        v.b = v.a + rng.choice([0, 1, 2, 2.5, 3, 4.75, -1])
    else:
        v.b = rng.choice([0, 1, 2, 2.5, 3, 4.75, -1])


RL = ListOf(REAL)
zero, one = (lambda a: 0), (lambda a: 1)
contract('sm.f_range3', P, F + 'f_range', [('a', REAL), ('b', REAL), ('d', REAL)], call('f_range', 'a', 'b', 'd'), result=RL, bounded=f'at most {N} elements',
         requires=lambda a: Or(And(a.d > Q('1e-3'), a.b <= a.a + N * a.d), And(a.d < -Q('1e-3'), a.b >= a.a + N * a.d)), search=few,
         ensures=_range(lambda a: a.a, lambda a: a.b, lambda a: a.d))
contract('sm.f_range2', P, F + 'f_range', [('a', REAL), ('b', REAL)], call('f_range', 'a', 'b'), result=RL, bounded=f'at most {N} elements',
         requires=lambda a: a.b <= a.a + N, ensures=_range(lambda a: a.a, lambda a: a.b, one), search=few)
contract('sm.f_range1', P, F + 'f_range', [('b', REAL)], call('f_range', 'b'), result=RL, bounded=f'at most {N} elements',
         requires=lambda a: a.b <= N, ensures=_range(zero, lambda a: a.b, one), search=few)



# any number of elements: every element is an obligation where it is yielded
def _each(start, stop, step):
    def f(a, k, x):
        s, e, d = start(a), stop(a), step(a)
        return {'every element is reached by whole steps': x == s + k * d, 'all inside': Ite_(d, x, e)}
    return f


def _end(start, stop, step):
    def f(a, r):
        if not Proving():
            return _range(start, stop, step)(a, r)
        s, e, d = start(a), stop(a), step(a)
        return {'goes on to the end': Not(Ite_(d, s + Len(r) * d, e))}
    return f


def steps(start, step):
    return [('whole steps', 'real', lambda x, i: x == start(core.cur().views) + i * step(core.cur().views))]


def many(rng, v):
    few(rng, v)
    if rng.random() < .3:
        a, d = getattr(v, 'a', 0), getattr(v, 'd', 1)
        v.b = a + d * rng.choice([7, 8.5, 20, 33, 64, 100.5])


_a, _b, _d = (lambda a: a.a), (lambda a: a.b), (lambda a: a.d)
contract('sm.f_range3.any', P, F + 'f_range', [('a', REAL), ('b', REAL), ('d', REAL)], call('f_range', 'a', 'b', 'd'), result=RL, search=many, fresh=False, exact=True,
         requires=lambda a: Or(And(a.d > Q('1e-3'), a.b <= a.a + 1000 * a.d), And(a.d < -Q('1e-3'), a.b >= a.a + 1000 * a.d)) if not Proving() else a.d != 0,
         yields=_each(_a, _b, _d), ensures=_end(_a, _b, _d), invariants=steps(_a, _d))
contract('sm.f_range2.any', P, F + 'f_range', [('a', REAL), ('b', REAL)], call('f_range', 'a', 'b'), result=RL, search=many, fresh=False, exact=True,
         requires=lambda a: a.b <= a.a + 1000 if not Proving() else True, yields=_each(_a, _b, one), ensures=_end(_a, _b, one), invariants=steps(_a, one))
contract('sm.f_range1.any', P, F + 'f_range', [('b', REAL)], call('f_range', 'b'), result=RL, search=many, fresh=False, exact=True,
         requires=lambda a: a.b <= 1000 if not Proving() else True, yields=_each(zero, _b, one), ensures=_end(zero, _b, one), invariants=steps(zero, one))

for m in ('quantize', 'unquantize_min', 'unquantize_max'):
    summary(f'sm.{m}', F + m, lambda w, v, q: dict(v=v, q=q))
