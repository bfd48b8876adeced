"""Contracts on concrete inputs: replaying solver counterexamples against the code CPython runs, and searching for
failing inputs where the verifier gives none.

A failed clause counts only when it fails on the real code in double precision (beyond an error bound of 1e-9
relative to the inputs) and also in 60-digit arithmetic (bound 1e-38): rounding is never reported.
"""
from __future__ import annotations
import json
import math
import os
import random
import signal
import sys
import time
import types
from fractions import Fraction
import mpmath
from . import core, spec, shims, loader, shapes
from .shapes import NS, map_ns, leaves, WrongType, Obj, ListOf, Pair, ANY, Any_, relativise
from .spec import Ctx, CInt, MPF
from .verify import graph

FLOAT_T = MPF('1e-9')
HP_T = MPF('1e-38')


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


class timer:
    """CPU-time limit for one call"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.old = signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)


class Failure:
    def __init__(self, clause, detail, kind):
        self.clause, self.detail, self.kind = clause, detail, kind

    def __repr__(self):
        return f'{self.clause}: {self.detail}'


def to_mode(w, v):
    """leaf numbers as the world's arithmetic has them"""
    def f(x):
        if isinstance(x, (bool, CInt)) or x is None:
            return x
        if w.mode == 'hp':
            return MPF(x)
        return float(x)
    return map_ns(f, v)


def plain(v):
    def f(x):
        if isinstance(x, CInt):
            return int(x)
        return x
    return map_ns(f, v)


def set_ctx(w, exact, vals):
    Ctx.T = FLOAT_T if w.mode == 'real' else HP_T
    Ctx.exact = exact
    m = MPF(1)
    for _, x in leaves(vals):
        if not isinstance(x, bool) and x is not None:
            m = max(m, abs(MPF(x)))
    Ctx.scale = m


def pre_ok(c, vals):
    """requires and shape constraints, evaluated exactly on the given inputs"""
    Ctx.T, Ctx.exact, Ctx.scale = HP_T, True, MPF(1)
    a = map_ns(spec.cin, vals)
    for n, s in list(c.args) + list(c.ghosts):
        if s.constrain(getattr(a, n)) is not True:
            return False
    if c.requires:
        q = c.requires(a)
        for e in (q if isinstance(q, (list, tuple)) else [q]):
            if e is not True:
                return False
    return True


def age(w, s, v, rng):
    """an object that has lived: built with other values, queried, then brought to v"""
    try:
        other = map_ns(lambda x: x if isinstance(x, bool) else (x * 0 + 3 if isinstance(x, CInt) else x * 0 + rng.choice(
            [0.5, 1.5, 2.0, 3.0])), v)
        if hasattr(other, 'r1') and hasattr(other, 'r0'):
            other.r1 = other.r0 + 1
        o = s.build(w, other)
        qs = list(s.queries)
        rng.shuffle(qs)
        for q in qs[:rng.randrange(0, len(qs) + 1)]:
            try:
                getattr(o, q)()
            except Exception:
                pass
        o = s.remake(w, o, plain(v), rng)
        if o is None:
            return None
        for q in qs[:rng.randrange(0, 3)]:
            try:
                getattr(o, q)()
            except Exception:
                pass
        got = s.read(w, o)
        for (_, x), (_, y) in zip(leaves(got), leaves(v)):
            if isinstance(x, bool) or isinstance(y, bool):
                if x != y:
                    return None
            elif abs(x - y) > 1e-12 * max(1, abs(y)):
                return None
        if len(list(leaves(got))) != len(list(leaves(v))):
            return None
        return o
    except Exception:
        return None


def same(s, w, o, v):
    """view of o is v (bitwise)"""
    try:
        got = s.read(w, o)
    except Exception as e:
        return f'{type(e).__name__}: {e}'
    a, b = list(leaves(got)), list(leaves(v))
    if len(a) != len(b):
        return f'{len(a)} values instead of {len(b)}'
    for (n, x), (_, y) in zip(a, b):
        if isinstance(x, bool) or isinstance(y, bool) or x is None:
            if x is not y:
                return f'{n} {y} -> {x}'
        elif abs(x - y) > (MPF('1e-12') if w.mode == 'real' else MPF('1e-45')) * max(1, abs(y)):
            return f'{n} {y} -> {x}'
    return None


VIEWS = {s.cls: s for s in (shapes.VECV, shapes.ANG, shapes.LINE, shapes.SEG, shapes.RAY, shapes.CIRCLE, shapes.SIZE, shapes.RECT,
                            shapes.TRI, shapes.MAT, shapes.SECTOR, shapes.Poly())}


def reading(w, o):
    """the numbers an answer consists of, through its public interface"""
    if o is None or isinstance(o, (bool, str, int, float, MPF)):
        return [o]
    if isinstance(o, (list, tuple)):
        return [len(o)] + [y for x in o for y in reading(w, x)]
    s = VIEWS.get(type(o).__name__)
    if s is None:
        return []
    return [x for _, x in leaves(s.read(w, o))]


def like_new(w, s, o, v):
    """every query answers as for a newly built object with the same view; None or the difference"""
    try:
        twin = s.build(w, v)
    except Exception:
        return None
    for q in s.queries:
        if q in ('__repr__', '__hash__') or q == 'is_valid' and s.cls == 'Vector2D':
            continue
        try:
            want = getattr(twin, q)()
        except Exception:
            continue
        try:
            got = getattr(o, q)()
        except Exception as e:
            return f'{q}() raises {type(e).__name__}: {e}'
        a, b = reading(w, got), reading(w, want)
        if len(a) != len(b):
            return f'{q}() is {got} instead of {want}'
        for x, y in zip(a, b):
            if isinstance(x, (bool, str, type(None))) or isinstance(y, (bool, str, type(None))):
                if x != y:
                    return f'{q}() is {got} instead of {want}'
            elif not abs(x - y) <= 1e-6 * max(1, abs(y), float(Ctx.scale)):
                return f'{q}() is {got} instead of {want}'
    return None


def evaluate(c, w, vals, exact=False, aged=None, poison=True):
    """None when every clause holds (or cannot be decided), a Failure otherwise"""
    vals = to_mode(w, vals)
    set_ctx(w, exact, vals)
    argn = [n for n, _ in c.args]
    objs = {}
    try:
        for n, s in c.args:
            o = None
            if aged is not None and isinstance(s, Obj):
                o = age(w, s, getattr(vals, n), aged)
            objs[n] = s.build(w, plain(getattr(vals, n))) if o is None else o
    except Exception as e:
        return Failure('constructing the arguments does not raise', f'{type(e).__name__}: {e}', 'no-exception')
    objs = NS(**objs)
    before = graph(tuple(objs))
    try:
        with timer(10):
            r = c.call(w, objs)
            if isinstance(r, types.GeneratorType):
                r = list(r)
    except Hang:
        return Failure('terminates', 'still running after 10 s of CPU time', 'no-exception')
    except OverflowError:
        return None
    except Exception as e:
        if c.raises and isinstance(e, c.raises):
            return None
        return Failure(f'no {type(e).__name__}', str(e), 'no-exception')
    if c.raises:
        return Failure(f'raises {getattr(c.raises, "__name__", c.raises)}', 'returned normally', 'raises')
    try:
        res = c.result.read(w, r)
    except WrongType as e:
        return Failure('result type', str(e), 'result-type')
    except Exception as e:
        return Failure('result readable', f'{type(e).__name__}: {e}', 'result-type')
    for n, s in c.args:
        if n not in c.mut and not isinstance(s, Any_):
            d = same(s, w, getattr(objs, n), getattr(vals, n))
            if d:
                return Failure(f'frame: {n} unchanged', d, 'frame')
    if c.returns and r is not getattr(objs, c.returns):
        return Failure(f'returns {c.returns} itself', 'another object', 'identity')
    post = NS(**{n: s.read(w, getattr(objs, n)) for n, s in c.args if not isinstance(s, Any_)})
    if c.ensures:
        set_ctx(w, exact, vals)
        try:
            a_ = map_ns(spec.cin, vals)
            r_ = map_ns(spec.cout, res)
            p_ = map_ns(spec.cout, post)
        except spec.NaNResult:
            return Failure('result is a number', 'nan', 'ensures')
        k = c.ensures.__code__.co_argcount - len(c.ensures.__defaults__ or ())
        cl = c.ensures(*([a_, r_, p_][:k]))
        if not isinstance(cl, dict):
            cl = {'post': cl}
        for name, e in cl.items():
            e = e() if isinstance(e, types.FunctionType) else e
            if e is False:
                return Failure(name, f'result {res!r}' + (f', afterwards {post!r}' if c.mut else ''), 'ensures')
    if c.kinds is None:
        for n, s, o, v in [(n, s, getattr(objs, n), getattr(post, n)) for n, s in c.args if n in c.mut] + [('the result', c.result, r, res)]:
            if isinstance(s, Obj) and s.queries:
                d = like_new(w, s, o, v)
                if d:
                    return Failure(f'{n} reads like a newly built one', d, 'ensures')
    if not poison:
        return None
    # shared state: change the result (or the arguments) through the interface and look at the others
    if c.fresh and not c.returns and isinstance(c.result, (Obj, ListOf, Pair)):
        try:
            c.result.poison(w, r)
        except Exception:
            pass
        for n, s in c.args:
            if not isinstance(s, Any_):
                d = same(s, w, getattr(objs, n), getattr(post, n))
                if d:
                    return Failure(f'changing the result leaves {n} alone', d, 'fresh')
        if not c.mut:
            f = evaluate(c, w, vals, exact, None, poison=False)
            if f:
                return Failure(f'after changing an earlier result: {f.clause}', f.detail, 'fresh')
            # and the other way round
            try:
                ob2 = NS(**{n: s.build(w, plain(getattr(vals, n))) for n, s in c.args})
                r2 = c.call(w, ob2)
                if isinstance(r2, types.GeneratorType):
                    r2 = list(r2)
                v2 = c.result.read(w, r2)
                for n, s in c.args:
                    if isinstance(s, (Obj, ListOf)):
                        s.poison(w, getattr(ob2, n))
            except Exception:
                return None
            d = same(c.result, w, r2, v2)
            if d:
                return Failure('changing an argument leaves the result alone', d, 'fresh')
    elif c.mut and len(argn) > 1:
        for n, s in c.args:
            if n in c.mut and isinstance(s, Obj):
                for n2, s2 in c.args:
                    if n2 != n and isinstance(s2, (Obj, ListOf)) and n2 not in c.mut:
                        try:
                            s2.poison(w, getattr(objs, n2))
                        except Exception:
                            continue
                        d = same(s, w, getattr(objs, n), getattr(post, n))
                        if d:
                            return Failure(f'changing {n2} later leaves {n} alone', d, 'fresh')
                try:
                    s.poison(w, getattr(objs, n))
                except Exception:
                    continue
    return None


# ----------------------------------------------------------------- generating inputs

STYLES = ('int', 'int', 'half', 'dyadic', 'wide', 'eps', 'mixed', 'mixed', 'zeroish')


def gen(c, rng, style=None):
    style = style or rng.choice(STYLES)
    pool = []

    def coord():
        st = style if style != 'mixed' else rng.choice(('int', 'half', 'wide', 'eps', 'zeroish'))
        if pool and rng.random() < .3:
            v = rng.choice(pool)
            k = rng.random()
            if k < .5:
                return v
            if k < .7:
                return -v
            if st == 'eps':
                return v + rng.choice([1e-7, -1e-7, 2e-6, -2e-6, 1e-4, 5e-7, 1.5e-6, 2 ** -21])
            return v + rng.choice([1.0, -1.0, 0.5, 2.0])
        if st == 'int':
            return float(rng.randint(-4, 4))
        if st == 'half':
            return rng.randint(-12, 12) / 2
        if st == 'dyadic':
            return rng.randint(-512, 512) / 16
        if st == 'wide':
            return rng.choice([rng.uniform(-100, 100), rng.uniform(-5, 5), rng.uniform(-2000, 2000)])
        if st == 'eps':
            return rng.choice([0.0, 1.0, -2.0, 3.0]) + rng.choice([0.0, 1e-7, -1e-7, 2e-6, -2e-6, 1e-4, 1e-5, 9e-7, -5e-7])
        return rng.choice([0.0, 0.0, 1.0, -1.0, 2.0, 10.0])

    def deg():
        k = rng.random()
        if pool and k < .15:
            return rng.choice(pool)
        if k < .55:
            return float(rng.choice([0, 30, 45, 60, 90, 120, 135, 150, 180, -30, -45, -60, -90, -120, -135, -150, -180, 10, -10,
                                     170, -170, 179, -179, 1]))
        if k < .65:
            return rng.choice([0, 90, 180, -90, -180]) + rng.choice([1e-7, -1e-7, 1e-4, -1e-4, 1.0, -1.0])
        if k < .75:
            return float(rng.choice([181, 270, 360, 361, 450, 540, 720, -181, -270, -360, -361, -540, -720, 1000, -1000, 900, 3601]))
        if k < .85:
            return rng.randint(-360, 360) / 2
        return rng.uniform(-180, 180)

    def leaf(name, kind):
        if kind == 'bool':
            return rng.random() < .5
        if kind == 'len':
            if rng.random() < .05:
                return rng.choice([50, 65, 80, 101, 130, 200, 300])
            return rng.choice([0, 1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, rng.randint(10, 40)])
        if kind == 'int':
            return CInt(rng.choice([0, 1, 2, 3, -1, -2, 5, 7, 10, rng.randint(-50, 50)]))
        if kind == 'nat':
            return CInt(rng.choice([0, 1, 2, 3, 4, 5, 10, rng.randint(0, 30)]))
        if kind == 'posint':
            return CInt(rng.choice([1, 2, 3, 4, 5, 10, rng.randint(1, 30)]))
        if kind == 'deg':
            return float(deg())
        if kind == 'unit':
            return rng.choice([0.0, 1.0, 0.5, 0.94, 0.4, 0.9, rng.random()])
        v = coord()
        if kind in ('pos', 'nonneg'):
            v = abs(v)
            if kind == 'pos' and v == 0:
                v = rng.choice([1.0, 0.5, 3.0])
        pool.append(v)
        return v
    vals = NS(**{n: s.fresh(leaf, n) for n, s in list(c.args) + list(c.ghosts)})
    # angles held by objects are normalised
    for n, s in list(c.args) + list(c.ghosts):
        wrap_angles(s, vals, n)
    if c.search:
        c.search(rng, vals)
    return vals


def wrap_angles(s, vals, n):
    v = getattr(vals, n)

    def norm(d):
        if -180.0 <= d <= 180.0:
            return d
        d = math.fmod(d, 360.0)
        return d - 360 if d > 180 else d + 360 if d < -180 else d
    if isinstance(s, ListOf):
        for i, x in enumerate(v):
            h = NS(x=x)
            wrap_angles(s.elem, h, 'x')
            v[i] = h.x
        return
    if s.cls == 'AngleDeg':
        v.d = norm(v.d)
    elif s.cls == 'Ray2D':
        v.d = norm(v.d)
    elif s.cls == 'Sector2D':
        v.s, v.e = norm(v.s), norm(v.e)
        if v.r0 > v.r1:
            v.r0, v.r1 = v.r1, v.r0


def dyadic(vals):
    """small dyadic rationals: + - * of a few of them are exact in double precision"""
    for _, x in leaves(vals):
        if isinstance(x, bool) or x is None:
            continue
        if abs(x) > 4096 or x * 64 != int(x * 64):
            return False
    return True


def from_model(c, model):
    """input values from a solver model (name -> ('q', n, d) | ('i', n) | ('b', v))"""
    def leaf(name, kind):
        v = model.get(name)
        if kind == 'bool':
            return bool(v[1]) if v else False
        if kind in ('int', 'nat', 'posint'):
            if not v:
                return CInt(1 if kind == 'posint' else 0)
            return CInt(v[1] if v[0] == 'i' else v[1] // v[2])
        if not v:
            return 1.0 if kind == 'pos' else 0.0
        if v[0] == 'i':
            return float(v[1])
        try:
            return float(Fraction(v[1], v[2]))
        except OverflowError:
            return 1e6
    v = NS(**{n: s.fresh(leaf, n) for n, s in list(c.args) + list(c.ghosts)})
    return relativise(v, c.rel) if c.rel else v


def model_variants(vals, rng):
    """a model and tidied versions of it"""
    yield vals
    for d in (1, 2, 4, 16, 1024):
        yield map_ns(lambda x: x if isinstance(x, (bool, CInt)) or x is None else round(x * d) / d, vals)
    for k in (0.5, 2.0, 10.0, 1000.0):
        yield map_ns(lambda x: x if isinstance(x, (bool, CInt)) or x is None else x * k, vals)
    for _ in range(6):
        yield map_ns(lambda x: x if isinstance(x, (bool, CInt)) or x is None else x + rng.choice([0, 0, 1e-7, -1e-7, 1e-4, .25, -.5]),
                     vals)


def confirm(c, hp, vals, exact):
    """the same input in 60-digit arithmetic"""
    try:
        return evaluate(c, hp, vals, exact, None, poison=False)
    except (core.Control, AttributeError, TypeError, ImportError):
        return None


def extreme(vals):
    return any(abs(x) > 1e7 or 0 < abs(x) < 1e-9 for _, x in leaves(vals) if not isinstance(x, (bool, type(None))))


def try_input(c, real, hp, vals, rng=None, aged=False):
    """a confirmed Failure on this input, or None; also whether the input met the precondition"""
    try:
        if not pre_ok(c, vals):
            return None, False
    except (ZeroDivisionError, OverflowError, ValueError):
        return None, False
    for exact in ((True, False) if c.exact and dyadic(vals) else (False,)):
        f = evaluate(c, real, vals, exact, rng if aged else None)
        if f is None or c.kinds and f.kind not in c.kinds:
            continue
        if f.kind in ('fresh', 'identity', 'raises'):
            return f, True
        if f.kind in ('no-exception', 'result-type', 'frame'):
            if not extreme(vals):
                return f, True
            continue
        if aged:
            # must be due to the history, or else confirmed below
            g = evaluate(c, real, vals, exact, None, poison=False)
            if g is None:
                f.clause += ' (object with a history)'
                return f, True
        g = confirm(c, hp, vals, exact)
        if g is not None:
            return f, True
    return None, True


def search(c, real, hp, seeds, rng, seconds, limit):
    """looks for an input that breaks the contract; returns (failure, vals, tried)"""
    t0 = time.time()
    tried = 0
    for v in seeds:
        for u in model_variants(v, rng):
            f, ok = try_input(c, real, hp, u, rng)
            tried += ok
            if f:
                return f, u, tried
            if time.time() - t0 > seconds * .5:
                break
    n = 0
    while tried < limit and time.time() - t0 < seconds and n < limit * 40:
        n += 1
        v = gen(c, rng)
        f, ok = try_input(c, real, hp, v, rng, aged=(c.history and n % 3 == 0))
        tried += ok
        if f:
            return f, v, tried
    return None, None, tried


def shrink(c, real, hp, vals, fail, seconds=3.0):
    """smaller numbers that still fail"""
    t0 = time.time()
    if 'history' in fail.clause:
        return vals, fail
    best = vals
    for d in (1, 2, 4, 100):
        u = map_ns(lambda x: x if isinstance(x, (bool, CInt)) or x is None else float(round(x * d)) / d, best)
        f, ok = try_input(c, real, hp, u)
        if f:
            best, fail = u, f
            break
        if time.time() - t0 > seconds:
            break
    return best, fail


def dump(v):
    if isinstance(v, NS):
        return {'ns': {k: dump(x) for k, x in v.__dict__.items()}}
    if isinstance(v, (list, tuple)):
        return [dump(x) for x in v]
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, CInt):
        return {'int': int(v)}
    return float(v)


def undump(v):
    if isinstance(v, dict):
        if 'ns' in v:
            return NS(**{k: undump(x) for k, x in v['ns'].items()})
        return CInt(v['int'])
    if isinstance(v, list):
        return [undump(x) for x in v]
    return v


def main(path):
    from . import check
    with open(path) as f:
        d = json.load(f)
    check.load_contracts()
    from .contract import REGISTRY
    c = [x for x in REGISTRY if x.id == d['contract']][0]
    if d.get('input') is None:
        print(f'{d["contract"]}: no failing input recorded; failed obligation: {d["obligation"]}')
        return 1
    vals = undump(d['input'])
    real = loader.RealWorld().load_all()
    hp = loader.World('hp').load_all()
    print(f'{c.id} on {vals}')
    for k in range(40):
        f, ok = try_input(c, real, hp, vals, random.Random(k), aged=k > 0)
        if f:
            print(f'FAILS {f}')
            return 1
    print('holds' if ok else 'precondition not met')
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
