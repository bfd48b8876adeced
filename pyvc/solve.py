"""Discharging obligations: z3 (nlsat, default) and cvc5, in worker processes."""
from __future__ import annotations
import multiprocessing as mp
import os
import time
from fractions import Fraction
import z3
from . import core


VARS = {}


def vars_of(e, cache=None):
    k = e.get_id()
    if k in VARS:
        return VARS[k][1]
    acc = set()
    seen = set()
    st = [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(t.decl().name())
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(t.decl().name())
            st.extend(t.children())
        elif z3.is_quantifier(t):
            st.append(t.body())
    VARS[k] = (e, acc)
    return acc


is_const = core.is_const


def linearly(pc, goal, ms=400):
    """goal follows from pc with every product of variables taken as a variable"""
    s = z3.Solver()
    s.set('timeout', ms)
    for e in list(pc) + [z3.Not(goal)]:
        f, sq = core.flat(e)
        s.add(f)
        for v in sq:
            s.add(v >= 0)
    if s.check() == z3.unsat:
        return True
    sub, pairs = solve_eqs(list(pc))
    return bool(pairs) and linearly_(sub + [z3.Not(z3.substitute(goal, *pairs))], ms)


def linearly_(es, ms):
    s = z3.Solver()
    s.set('timeout', ms)
    for e in es:
        f, sq = core.flat(e)
        s.add(f)
        for v in sq:
            s.add(v >= 0)
    return s.check() == z3.unsat


def conjuncts(e):
    if z3.is_and(e):
        return [c for x in e.children() for c in conjuncts(x)]
    return [e]


def is_var(t):
    return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort().kind() == z3.Z3_REAL_SORT


def solve_eqs(pc):
    """(pc with defined variables replaced, the replacements): v == term, v not in term"""
    pairs = []
    es = [c for e in pc for c in conjuncts(e)]
    for _ in range(12):
        found = None
        for e in es:
            if z3.is_eq(e):
                l, r = e.children()
                if is_var(r) and not is_var(l):
                    l, r = r, l
                if is_var(l) and not is_const(r) and str(l) not in vars_of(r, {}):
                    found = (l, r)
                    break
        if not found:
            break
        es = [z3.substitute(e, found) for e in es]
        pairs = [(v, z3.substitute(t, found)) for v, t in pairs] + [found]
    return es, pairs


def cone(pc, goal, rounds=99):
    cache = {}
    need = set(vars_of(goal, cache))
    rest = [(e, vars_of(e, cache)) for e in pc]
    out = []
    for _ in range(rounds):
        more, keep = [], []
        for e, vs in rest:
            (more if (vs & need or not vs) else keep).append((e, vs))
        if not more:
            break
        out += [e for e, _ in more]
        for _, vs in more:
            need |= vs
        rest = keep
    return out


def trivially(pc, goal):
    """goal holds by polynomial normalisation or is literally assumed"""
    if z3.is_true(goal):
        return True
    g = z3.simplify(goal, som=True, arith_lhs=True)
    if z3.is_true(g):
        return True
    ids = {e.get_id() for e in pc}
    return goal.get_id() in ids


def smt2(pc, goal):
    s = z3.Solver()
    for e in pc:
        s.add(e)
    s.add(z3.Not(goal))
    return s.to_smt2()


def _z3_try(text, how, ms):
    ctx = z3.Context()
    if how == 'nlsat':
        t = z3.AndThen(z3.With('simplify', som=False, ctx=ctx) if False else z3.Tactic('simplify', ctx=ctx),
                       z3.Tactic('propagate-values', ctx=ctx), z3.Tactic('solve-eqs', ctx=ctx),
                       z3.Tactic('qfnra-nlsat', ctx=ctx), ctx=ctx)
        s = t.solver()
    elif how == 'nra':
        s = z3.SolverFor('QF_NRA', ctx=ctx)
    else:
        s = z3.Solver(ctx=ctx)
    s.set('timeout', ms)
    s.from_string(text)
    try:
        r = s.check()
    except z3.Z3Exception as e:
        return 'unknown', None
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        m = s.model()
        d = {}
        for v in m.decls():
            if v.arity() == 0:
                try:
                    d[v.name()] = val(m[v])
                except Exception:
                    pass
        return 'sat', d
    return 'unknown', None


def val(x):
    if z3.is_rational_value(x):
        return ('q', x.numerator_as_long(), x.denominator_as_long())
    if z3.is_int_value(x):
        return ('i', x.as_long())
    if z3.is_algebraic_value(x):
        a = x.approx(20)
        return ('q', a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(x):
        return ('b', True)
    if z3.is_false(x):
        return ('b', False)
    return None


def _cvc5_try(text, ms):
    import subprocess
    import shutil
    exe = shutil.which('cvc5')
    if not exe:
        return 'unknown', None
    try:
        p = subprocess.run([exe, '--lang=smt2', f'--tlimit={ms}', '--nl-cov'], input='(set-logic ALL)\n' + text + '\n',
                           capture_output=True, text=True, timeout=ms / 1000 + 5)
    except subprocess.TimeoutExpired:
        return 'unknown', None
    o = p.stdout.strip().split('\n')[0] if p.stdout else ''
    return (o if o in ('sat', 'unsat') else 'unknown'), None


def linearised(text, ms):
    """products of variables as variables of their own: linear reasoning only (an unsat answer is sound)"""
    ctx = z3.Context()
    try:
        fs = z3.parse_smt2_string(text, ctx=ctx)
    except z3.Z3Exception:
        return 'unknown'
    fs = [z3.simplify(f, som=True, arith_lhs=True, expand_power=True) for f in fs]
    names, table, seen, pairs = {}, {}, {}, []

    def num(t):
        return z3.is_rational_value(t) or z3.is_int_value(t)

    def factors(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL:
            return [u for c in t.children() for u in factors(c)]
        if k == z3.Z3_OP_POWER and num(t.arg(1)) and t.arg(1).denominator_as_long() == 1 and 0 < t.arg(1).numerator_as_long() < 13:
            return factors(t.arg(0)) * t.arg(1).numerator_as_long()
        return [t]

    st = list(fs)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen[t.get_id()] = t
        if not z3.is_app(t):
            if z3.is_quantifier(t):
                return 'unknown'
            continue
        if t.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_POWER) and t.sort().kind() == z3.Z3_REAL_SORT:
            f = factors(t)
            vs = sorted((u for u in f if not num(u)), key=lambda u: u.get_id())
            if len(vs) > 1:
                key = tuple(u.get_id() for u in vs)
                if key not in table:
                    v = z3.Real(f'mon!{len(table)}', ctx)
                    table[key] = v
                    names[key] = vs
                r = table[key]
                for u in f:
                    if num(u):
                        r = u * r
                pairs.append((t, r))
                continue
        st.extend(t.children())
    if not pairs:
        return 'unknown'
    s = z3.SolverFor('QF_LRA', ctx=ctx) if 'Int' not in text else z3.Solver(ctx=ctx)
    s.set('timeout', ms)
    for f in fs:
        s.add(z3.substitute(f, *pairs))
    for key, v in table.items():
        if len(key) % 2 == 0 and all(key[i] == key[i + 1] for i in range(0, len(key), 2)):
            s.add(v >= 0)
    try:
        return str(s.check())
    except z3.Z3Exception:
        return 'unknown'


def solve_job(job):
    """job: dict(id, variants=[(label, text)], budget seconds); first unsat wins; sat only counts on the full query"""
    t0 = time.time()
    out = {'id': job['id'], 'status': 'unknown', 'by': None, 'model': None, 'time': 0.0}
    budget = job['budget']
    plan = [('nlsat', .12), ('default', .12), ('nra', .26), ('default', .2), ('cvc5', .3)]
    has_int = job.get('has_int')
    if has_int:
        plan = [('default', .3), ('nlsat', .1), ('nra', .2), ('cvc5', .3)]
    for label, text in job['variants']:
        if label in ('cleared', 'full') and linearised(text, 1000) == 'unsat':
            out.update(status='proved', by='z3-linear', time=time.time() - t0)
            return out
    for rnd, (how, frac) in enumerate(plan):
        for label, text in job['variants']:
            ms = int(1000 * budget * frac / len(job['variants']))
            if how == 'cvc5':
                if label != 'full' and len(job['variants']) > 1:
                    continue
                r, m = _cvc5_try(text, ms)
            else:
                r, m = _z3_try(text, how, ms)
            if r == 'unsat':
                out.update(status='proved', by=('cvc5' if how == 'cvc5' else 'z3-' + how))
                out['time'] = time.time() - t0
                return out
            if r == 'sat' and label in ('full', 'cleared'):
                out.update(status='refuted', by=('cvc5' if how == 'cvc5' else 'z3-' + how), model=m)
                if m is None:
                    continue
                out['time'] = time.time() - t0
                return out
        if out['status'] == 'refuted':
            break
    out['time'] = time.time() - t0
    return out


def _init():
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)


class NotCleared(Exception):
    pass


class Clear:
    """replaces quotient variables by the fractions they stand for and clears denominators, atom by atom"""

    def __init__(self, quots):
        self.q = {r.get_id(): (x, y) for r, x, y in quots}
        self.keep = [r for r, _, _ in quots]
        self.memo = {}
        self.dens = {}
        self.bmemo = {}
        self.budget = 4000

    def rat(self, e):
        """(numerator term, {denominator term id: power})"""
        k = e.get_id()
        if k in self.memo:
            return self.memo[k][1]
        self.budget -= 1
        if self.budget < 0:
            raise NotCleared()
        r = self._rat(e)
        self.memo[k] = (e, r)
        return r

    def den_term(self, d):
        t = None
        for k, p in sorted(d.items()):
            for _ in range(p):
                t = self.dens[k] if t is None else t * self.dens[k]
        return z3.RealVal(1) if t is None else t

    def common(self, rs):
        l = {}
        for _, d in rs:
            for k, p in d.items():
                l[k] = max(l.get(k, 0), p)
        out = []
        for n, d in rs:
            miss = {k: p - d.get(k, 0) for k, p in l.items() if p > d.get(k, 0)}
            out.append(n * self.den_term(miss) if miss else n)
        return out, l

    def _rat(self, e):
        if e.get_id() in self.q:
            x, y = self.q[e.get_id()]
            (nx, dx), (ny, dy) = self.rat(x), self.rat(y)
            # (nx/dx) / (ny/dy) = nx*dy / (dx*ny)
            ny = z3.simplify(ny, som=True)
            self.dens[ny.get_id()] = ny
            d = dict(dx)
            up = {}
            for k, p in dy.items():
                c = min(p, d.get(k, 0))
                if c:
                    d[k] -= c
                if p > c:
                    up[k] = p - c
            d[ny.get_id()] = d.get(ny.get_id(), 0) + 1
            n = nx * self.den_term(up) if up else nx
            return n, {k: p for k, p in d.items() if p}
        if z3.is_const(e) or z3.is_rational_value(e) or z3.is_int_value(e):
            return e, {}
        kd = e.decl().kind()
        ch = e.children()
        if kd == z3.Z3_OP_ADD:
            ns, l = self.common([self.rat(c) for c in ch])
            return z3.Sum(ns), l
        if kd == z3.Z3_OP_SUB:
            ns, l = self.common([self.rat(c) for c in ch])
            t = ns[0]
            for u in ns[1:]:
                t = t - u
            return t, l
        if kd == z3.Z3_OP_UMINUS:
            n, d = self.rat(ch[0])
            return -n, d
        if kd == z3.Z3_OP_MUL:
            t, d = None, {}
            for c in ch:
                n, dd = self.rat(c)
                t = n if t is None else t * n
                for k, p in dd.items():
                    d[k] = d.get(k, 0) + p
            return t, d
        if kd == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]):
            n, d = self.rat(ch[0])
            return n / ch[1], d
        if kd == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 < ch[1].numerator_as_long() < 9:
            n, d = self.rat(ch[0])
            m = ch[1].numerator_as_long()
            t = n
            for _ in range(m - 1):
                t = t * n
            return t, {k: p * m for k, p in d.items()}
        if kd == z3.Z3_OP_ITE:
            c = self.boolean(ch[0])
            ns, l = self.common([self.rat(ch[1]), self.rat(ch[2])])
            return z3.If(c, ns[0], ns[1]), l
        if kd in (z3.Z3_OP_TO_REAL, z3.Z3_OP_UNINTERPRETED):
            if any(v in self.names for v in vars_of(e, {})):
                raise NotCleared()
            return e, {}
        raise NotCleared()

    def boolean(self, e):
        k = e.get_id()
        if k in self.bmemo:
            return self.bmemo[k][1]
        r = self._boolean(e)
        self.bmemo[k] = (e, r)
        return r

    def _boolean(self, e):
        kd = e.decl().kind()
        ch = e.children()
        if kd in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or (kd == z3.Z3_OP_EQ and ch[0].sort() == z3.RealSort()):
            if ch[0].sort() != z3.RealSort():
                return e
            ns, l = self.common([self.rat(ch[0]), self.rat(ch[1])])
            d = ns[0] - ns[1]
            if kd != z3.Z3_OP_EQ:
                odd = {k: 1 for k, p in l.items() if p % 2}
                if odd:
                    d = d * self.den_term(odd)
            d = z3.simplify(d, som=True)
            z = z3.RealVal(0)
            return {z3.Z3_OP_LE: d <= z, z3.Z3_OP_GE: d >= z, z3.Z3_OP_LT: d < z, z3.Z3_OP_GT: d > z, z3.Z3_OP_EQ: d == z}[kd]
        if z3.is_bool(e) and kd in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_XOR, z3.Z3_OP_ITE, z3.Z3_OP_DISTINCT):
            if kd in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and ch[0].sort() != z3.BoolSort():
                if any(v in self.names for v in vars_of(e, {})):
                    raise NotCleared()
                return e
            return e.decl()(*[self.boolean(c) for c in ch])
        if any(v in self.names for v in vars_of(e, {})):
            raise NotCleared()
        return e


def cleared(pc, goal, quots):
    quots = [q for q in quots if z3.is_const(q[0])]
    c = Clear(quots)
    c.names = {r.decl().name() for r, _, _ in quots}
    try:
        g = z3.simplify(c.boolean(goal), som=True)
        out = []
        for e in pc:
            b = z3.simplify(c.boolean(e), som=True)
            if not z3.is_true(b):
                out.append(b)
        for t in c.dens.values():
            out.append(t != 0)
    except (NotCleared, RecursionError):
        return None
    return out, g


def make_job(i, pc, goal, budget, meta=None):
    meta = meta or {}
    if meta.get('rel'):
        pc = [z3.simplify(e, som=True) for e in pc]
        goal = z3.simplify(goal, som=True)
    full = smt2(pc, goal)
    variants = []
    if meta.get('quots'):
        k = cleared(pc, goal, meta['quots'])
        if k is not None:
            cp, cg = k
            if z3.is_true(cg):
                variants.append(('cleared', smt2([], cg)))
            else:
                near = cone(cp, cg, 1)
                if len(near) < len(cp):
                    variants.append(('cleared-near', smt2(near, cg)))
                variants.append(('cleared', smt2(cp, cg)))
    c = cone(pc, goal, 99)
    if len(c) < len(pc):
        variants.append(('cone', smt2(c, goal)))
    c2 = cone(pc, goal, 1)
    if len(c2) < len(c):
        variants.append(('near', smt2(c2, goal)))
    variants.append(('full', full))
    return {'id': i, 'variants': variants, 'budget': budget, 'has_int': 'Int' in full}


def run_jobs(jobs, total=None, workers=None):
    """solve jobs in parallel; results by job id"""
    results = {}
    seen, uniq = {}, []
    for j in jobs:
        k = j['variants'][-1][1]
        seen.setdefault(k, []).append(j['id'])
        if len(seen[k]) == 1:
            uniq.append({k2: j[k2] for k2 in ('id', 'variants', 'budget', 'has_int')})
    groups = {v[0]: v for v in seen.values()}
    if uniq:
        workers = workers or min(8, os.cpu_count() or 1)
        ctx = mp.get_context('fork')
        t0 = time.time()
        with ctx.Pool(min(workers, len(uniq)), initializer=_init, maxtasksperchild=400) as pool:
            it = pool.imap_unordered(solve_job, uniq)
            done = 0
            while done < len(uniq):
                try:
                    left = None if total is None else max(0.1, total - (time.time() - t0))
                    r = it.next(timeout=left)
                except mp.TimeoutError:
                    break
                done += 1
                for i in groups[r['id']]:
                    results[i] = dict(r, id=i)
            pool.terminate()
    for j in jobs:
        results.setdefault(j['id'], {'id': j['id'], 'status': 'unknown', 'by': None, 'time': 0.0, 'model': None})
    return results


def discharge(obls, budget=20.0, workers=None, total=None):
    """obls: list of (name, pc, goal, ...). Returns list of result dicts in order."""
    results = [None] * len(obls)
    jobs = []
    for i, ob in enumerate(obls):
        if trivially(ob[1], ob[2]):
            results[i] = {'id': i, 'status': 'proved', 'by': 'z3-simplify', 'time': 0.0, 'model': None}
        else:
            jobs.append(make_job(i, ob[1], ob[2], budget))
    for i, r in run_jobs(jobs, total, workers).items():
        results[i] = r
    return results
