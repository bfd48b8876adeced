"""From a contract and the current source to proof obligations."""
from __future__ import annotations
import types
import z3
from . import core, spec, loops, solve
from .loops import SymSeq
from .core import Path, SR, SI, SB, Unsupported, PathEnd, Control
from .shapes import NS, map_ns, leaves, WrongType, Shape, Obj, ListOf, ANY, relativise, list_eq
from .contract import REGISTRY, SUMMARIES


def sym_leaf(p):
    def leaf(name, kind):
        if kind == 'bool':
            return p.boolean(name)
        if kind == 'len':
            n = SI(z3.Int(name))
            p.assume(n.i >= 0, 'length')
            return n
        if kind in ('int', 'nat', 'posint'):
            return p.integer(name)
        return p.real(name)
    return leaf


def graph(o, acc=None, depth=0, touch=False):
    """ids of the mutable objects reachable from o"""
    acc = {} if acc is None else acc
    if depth > 8 or isinstance(o, (int, float, str, bool, type(None), SR, SI, SB, type, types.FunctionType,
                                   types.MethodType, types.ModuleType, types.BuiltinFunctionType)):
        return acc
    if id(o) in acc:
        return acc
    if isinstance(o, SymSeq):
        acc[id(o)] = o
        xs = list(o._tail)
        if touch and core.cur().branch(loops.J().i < loops.ival(o.size)):
            xs.append(o.at(loops.J()))
        for x in xs:
            graph(x, acc, depth + 1, touch)
    elif isinstance(o, (list, set)):
        acc[id(o)] = o
        for x in (o.now() if isinstance(o, loops.VList) else o):
            graph(x, acc, depth + 1, touch)
    elif isinstance(o, tuple):
        for x in o:
            graph(x, acc, depth + 1, touch)
    elif isinstance(o, dict):
        acc[id(o)] = o
        for x in o.values():
            graph(x, acc, depth + 1, touch)
    elif hasattr(o, '__dict__') and type(o).__module__.startswith('pyrusgeom'):
        import enum
        if isinstance(o, enum.Enum):
            return acc
        acc[id(o)] = o
        for x in vars(o).values():
            graph(x, acc, depth + 1, touch)
    return acc


def static_graph(w):
    """mutable objects owned by modules, classes and default arguments"""
    acc = {}
    mods = [m for n, m in getattr(w, 'modules', {}).items()]
    if not mods:
        import sys
        mods = [m for n, m in sys.modules.items() if n.startswith('pyrusgeom')]
    seen = set()

    def fn(f):
        f = getattr(f, '__func__', f)
        for d in (getattr(f, '__defaults__', None) or ()):
            graph(d, acc)
        for d in (getattr(f, '__kwdefaults__', None) or {}).values():
            graph(d, acc)
        for c in (getattr(f, '__closure__', None) or ()):
            try:
                graph(c.cell_contents, acc)
            except ValueError:
                pass
    for m in mods:
        for k, v in list(vars(m).items()):
            if k.startswith('__'):
                continue
            if isinstance(v, type) and v.__module__.startswith('pyrusgeom') and id(v) not in seen:
                seen.add(id(v))
                for kk, x in list(vars(v).items()):
                    if kk.startswith('__') and kk not in ('__init__',) and not callable(x):
                        continue
                    if isinstance(x, (types.FunctionType, staticmethod, classmethod)):
                        fn(x)
                    else:
                        graph(x, acc)
            elif isinstance(v, types.FunctionType):
                fn(v)
            else:
                graph(v, acc)
    return acc


def state(o, depth=0):
    """deep structure of an object: numbers as leaves"""
    if isinstance(o, (SR, SI, SB, int, float, str, bool, type(None))):
        return o
    if isinstance(o, SymSeq):
        return o
    if isinstance(o, (list, tuple)):
        return [state(x, depth + 1) for x in o]
    if isinstance(o, dict):
        return {str(k): state(v, depth + 1) for k, v in o.items()}
    if hasattr(o, '__dict__') and depth < 8:
        return {k: state(v, depth + 1) for k, v in vars(o).items()}
    return type(o).__name__


def state_eq(a, b):
    """formula: two states are equal; None when the structures differ"""
    if isinstance(a, SymSeq) or isinstance(b, SymSeq):
        if not isinstance(a, (SymSeq, list)) or not isinstance(b, (SymSeq, list)):
            return None
        return list_eq(StateShape, a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return None
        xs = [state_eq(a[k], b[k]) for k in a]
        return None if any(x is None for x in xs) else spec.And(*xs)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return None
        xs = [state_eq(x, y) for x, y in zip(a, b)]
        return None if any(x is None for x in xs) else spec.And(*xs)
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
        return spec.Iff(a, b)
    if isinstance(a, (SR, SI, int, float)) and isinstance(b, (SR, SI, int, float)):
        return core.num(a) == core.num(b)
    if type(a) is type(b) and isinstance(a, (str, type(None))):
        return a == b
    return None


class StateShape:
    @staticmethod
    def eq(a, b):
        e = state_eq(state(a), state(b))
        return False if e is None else e


class Result:
    def __init__(self, c):
        self.contract = c
        self.paths = 0
        self.obligations = []       # (name, [assumptions], goal, kind, meta)
        self.unsupported = []       # reasons
        self.hidden = []            # hidden-state notes
        self.completed = 0          # paths that reached the postcondition
        self.inputs = {}
        self.used_summaries = set()


def install(c, w, p):
    """replace callees by their contracts while the caller runs"""
    undo = []
    by_fn = {}
    for cid in c.uses:
        fn, bind = SUMMARIES[cid]
        by_fn.setdefault(fn, []).append((cid, bind))
    for fn, cands in by_fn.items():
        parts = fn.split('.')
        owner = w.load('pyrusgeom.' + parts[0])
        for k in parts[1:-1]:
            owner = getattr(owner, k, None)
        raw = vars(owner).get(parts[-1]) if owner is not None else None
        if raw is None:
            continue
        static = isinstance(raw, staticmethod)
        orig = raw.__func__ if static else raw

        def stub(*args, __o=orig, __c=cands, **kw):
            if not kw:
                for cid, bind in __c:
                    try:
                        b = bind(w, *args)
                    except TypeError:
                        b = None
                    if b is not None:
                        return apply_summary(cid, b, w, p, c)
            return __o(*args, **kw)
        undo.append((owner, parts[-1], raw))
        setattr(owner, parts[-1], staticmethod(stub) if static else stub)
    return undo


def cases(p, e):
    """explore the alternatives of a disjunction one by one"""
    if z3.is_or(e):
        for x in e.children():
            if z3.is_or(x):
                if p.branch(x):
                    return cases(p, x)
            elif p.branch(x):
                return


def apply_summary(cid, b, w, p, caller, views=False):
    """the result the contract promises for the arguments b (objects, or with views=True their views)"""
    k = next(x for x in REGISTRY if x.id == cid)
    ghost = views
    try:
        views = NS(**{n: b[n] if ghost else s.read(w, b[n]) for n, s in k.args})
    except WrongType as e:
        raise TypeError(str(e))
    p.used_summaries.add(cid)
    p.approx = True
    for n, s in k.args:
        q = s.constrain(getattr(views, n))
        if q is not True:
            p.oblige(f'{caller.id}: precondition of {cid} (shape of {n})', q, 'callee-requires')
            p.assume(core.bexpr(q), 'callee')
    if k.requires:
        q = k.requires(views)
        for e in (q if isinstance(q, (list, tuple)) else [q]):
            if isinstance(e, spec.Every):
                p.oblige(f'{caller.id}: precondition of {cid}', e.goal(), 'callee-requires')
                continue
            p.oblige(f'{caller.id}: precondition of {cid}', e, 'callee-requires')
            p.assume(core.bexpr(e), 'callee')
    key = ('summary', cid) + tuple(('seq', loops.fingerprint(x)) if isinstance(x, SymSeq) else core.tid(z3.simplify(core.bexpr(x) if isinstance(x, (bool, SB)) else core.num(x).e, som=True))
                                   for _, x in leaves(views))
    if key not in p.memo:
        p.n += 1
        pre = f'{cid}!{p.n}'

        def leaf(name, kind):
            if kind == 'bool':
                return SB(z3.Bool(name))
            if kind == 'len':
                p.assume(z3.Int(name) >= 0, 'length')
                return SI(z3.Int(name))
            if kind in ('int', 'nat', 'posint'):
                return SI(z3.Int(name))
            x = SR(z3.Real(name))
            p.finite_term(x.e)
            return x
        if isinstance(k.result, ListOf) and k.result.n is None:
            n = 0
            while n < k.result.most and p.choose(f'{pre} has more than {n} elements'):
                n += 1
            res = [k.result.elem.fresh(leaf, f'{pre}[{i}]') for i in range(n)]
        else:
            res = k.result.fresh(leaf, pre)
        p.memo[key] = (res, views)
        p.assume(core.bexpr(k.result.constrain(res)), 'callee')
        p.in_summary = True
        cl = k.ensures(views, res)
        cl = [e() if isinstance(e, types.FunctionType) else e for n, e in (cl.items() if isinstance(cl, dict) else [('', cl)]) if n not in caller.ignore.get(cid, ())]
        p.in_summary = False
        for e in cl:
            if isinstance(e, (spec.Every, spec.Each)):
                e.assume()
            else:
                p.assume(core.bexpr(e), 'callee-ensures')
        for fid in caller.facts:
            if SUMMARIES[fid][0] == SUMMARIES[cid][0]:
                f = next(x for x in REGISTRY if x.id == fid)
                if [n for n, _ in f.args] != [n for n, _ in k.args]:
                    continue
                fv = NS(**views.__dict__, **{n: getattr(p.views, n) for n, _ in f.ghosts})
                q = f.requires(fv) if f.requires else True
                pre_ = spec.And(*(q if isinstance(q, (list, tuple)) else [q]), *[s.constrain(getattr(fv, n)) for n, s in f.ghosts])
                p.in_summary = True
                cl = f.ensures(fv, res)
                p.in_summary = False
                p.used_summaries.add(fid)
                if p.branch(core.bexpr(pre_)):
                    for e in (cl.values() if isinstance(cl, dict) else [cl]):
                        e = core.bexpr(e)
                        p.assume(e, 'callee-ensures')
                        cases(p, e)
    return p.memo[key][0] if ghost else k.result.build(w, p.memo[key][0])


def quickly(pc, goal, ms=1500, budget=0):
    """decided at once: the invariants that stay (those of the contract are worth more time)"""
    if solve.trivially(pc, goal) or solve.linearly(pc, goal):
        return True
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*pc)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unknown and budget:
        return solve.solve_job(solve.make_job(0, pc, goal, budget))['status'] == 'proved'
    return r == z3.unsat


def verify(c, w, on_path=None):
    """obligations of contract c; with loops over lists of any length, once the invariants that hold are known"""
    if not unbounded(c):
        return verify_once(c, w, on_path, None)
    st = loops.State(c.invariants or [])
    own = {n for n, _, _ in st.templates} | {r.name for r in st.rules}
    for _ in range(12):
        st.dirty = False
        res = verify_once(c, w, on_path, st)
        if not res.unsupported or not st.dirty:
            for name, pc, goal, kind, meta in res.obligations:
                if kind == 'invariant' and st.checked[name] not in st.dropped:
                    meta['proved'] = quickly(pc, goal, budget=10 if st.checked[name][2] in own else 0)
                    if not meta['proved']:
                        st.dropped.add(st.checked[name])
                        st.dirty = True
        if not st.dirty:
            return res
    return res


def unbounded(c):
    return bool(c.yields) or any(getattr(s, 'n', None) == 'any' for _, s in c.args)


def produce(c, p, a, gen):
    """every element a generator yields is an obligation; returns a list of that many elements, of which only the number is known"""
    p.memo['yields'] = core.SI(z3.IntVal(0))
    for x in gen:
        k = p.memo['yields']
        for name, e in c.yields(a, k, core.num(x)).items():
            p.oblige(f'{c.id}: {name}', e)
        p.memo['yields'] = loops.si(k.i + 1)
    n = p.memo.pop('yields')

    def unknown(t):
        raise core.Unsupported('element of what a generator yields')
    return SymSeq(n, unknown)


def verify_once(c, w, on_path, st):
    """obligations of contract c against the instrumented package w"""
    res = Result(c)
    statics = static_graph(w)

    def run(p):
        leaf = sym_leaf(p)
        raw = NS(**{n: s.fresh(leaf, n) for n, s in c.args})
        gh = {n: s.fresh(leaf, n) for n, s in c.ghosts}
        a = NS(**raw.__dict__, **gh)
        if c.rel:
            p.rel = True
            relativise(a, c.rel)
        p.views = a
        p.loops = st
        p.contract = c
        for n, s in list(c.args) + list(c.ghosts):
            p.assume(core.bexpr(s.constrain(getattr(a, n))), 'shape')
        if c.requires:
            q = c.requires(a)
            for e in (q if isinstance(q, (list, tuple)) else [q]):
                if isinstance(e, spec.Every):
                    e.assume()
                else:
                    p.assume(core.bexpr(e), 'requires')
        if p.solver.check() == z3.unsat:
            raise PathEnd('precondition')
        p.contract = c
        p.call = lambda cid, b: apply_summary(cid, b, w, p, c, views=True)
        for e in (c.split(a) if c.split else ()):
            p.branch(core.bexpr(e))
        try:
            objs = NS(**{n: s.build(w, getattr(raw, n)) for n, s in c.args})
        except Control:
            raise
        except Exception as e:
            p.oblige(f'{c.id}: constructing the arguments does not raise ({type(e).__name__}: {e})', False, 'no-exception')
            return
        before = graph(tuple(objs), touch=True)
        if c.axioms:
            for e in c.axioms(a):
                p.assume(core.bexpr(e), 'hint')
        exc = None
        undo = install(c, w, p)
        try:
            r = c.call(w, objs)
            if isinstance(r, types.GeneratorType):
                r = produce(c, p, a, r) if c.yields else list(r)
        except Control:
            raise
        except Exception as e:
            exc = e
        finally:
            for cls, name, old in undo:
                setattr(cls, name, old)
        if exc is not None:
            if c.raises and isinstance(exc, c.raises):
                res.completed += 1
                return
            import traceback
            tb = traceback.extract_tb(exc.__traceback__)
            where = f'{tb[-1].name}:{tb[-1].lineno}' if tb else ''
            p.oblige(f'{c.id}: no {type(exc).__name__} ({exc}) at {where}', False, 'no-exception')
            return
        if c.raises:
            p.oblige(f'{c.id}: raises {getattr(c.raises, "__name__", c.raises)}', False, 'raises')
            return
        if p.fast.check() == z3.unsat:
            raise PathEnd('infeasible path')
        res.completed += 1
        try:
            rv_ = c.result.read(w, r)
        except WrongType as e:
            p.oblige(f'{c.id}: result type ({e})', False, 'result-type')
            return
        try:
            post = NS(**{n: s.read(w, getattr(objs, n)) for n, s in c.args if not isinstance(s, type(ANY))})
        except WrongType as e:
            p.oblige(f'{c.id}: argument still readable ({e})', False, 'result-type')
            return
        # frame
        for n, s in c.args:
            if n not in c.mut:
                p.oblige(f'{c.id}: frame: {n} unchanged', s.eq(getattr(post, n), getattr(raw, n)), 'frame')
        # identity / freshness
        if c.returns:
            p.oblige(f'{c.id}: returns {c.returns} itself', r is getattr(objs, c.returns), 'identity')
        elif c.fresh and isinstance(c.result, (Obj, ListOf)):
            shared = [x for i, x in graph(r, touch=True).items() if i in before]
            p.oblige(f'{c.id}: result shares no state with the arguments'
                     + (f' (shares a {type(shared[0]).__name__})' if shared else ''), not shared, 'fresh')
            sh = [x for i, x in graph(r).items() if i in statics]
            p.oblige(f'{c.id}: result shares no state with the library'
                     + (f' (shares a {type(sh[0]).__name__})' if sh else ''), not sh, 'fresh')
        # mutated arguments: state is that of a freshly built object (induction over histories)
        for n, s in c.args:
            if n in c.mut and isinstance(s, Obj):
                o = getattr(objs, n)
                for n2, s2 in c.args:
                    if n2 != n and isinstance(s2, (Obj, ListOf)):
                        other = graph(getattr(objs, n2), touch=True)
                        sh = [x for i, x in graph(o, touch=True).items() if i in other]
                        if sh and getattr(objs, n2) is not o:
                            p.oblige(f'{c.id}: {n} shares no state with {n2} afterwards', False, 'fresh')
                try:
                    twin = s.build(w, getattr(post, n))
                    e = state_eq(state(o), state(twin))
                except Control:
                    raise
                except Exception:
                    e = None
                if e is None:
                    res.hidden.append(f'{n}: representation differs from a fresh object')
                else:
                    p.oblige(f'{c.id}: {n} is as good as newly built', e, 'canonical')
        if c.ensures:
            k = c.ensures.__code__.co_argcount - len(c.ensures.__defaults__ or ())
            cl = c.ensures(*([a, rv_, post][:k]))
            if not isinstance(cl, dict):
                cl = {'post': cl}
            for name, e in cl.items():
                e = e() if isinstance(e, types.FunctionType) else e
                p.oblige(f'{c.id}: {name}', e.goal() if isinstance(e, spec.Every) else e, 'ensures')

    for p in core.explore(run, c.id, c.max_paths):
        res.paths += 1
        res.inputs.update(p.inputs)
        res.used_summaries |= p.used_summaries
        if p.end == 'unsupported':
            res.unsupported.extend(p.notes)
            # obligations already raised on this path are still meaningful
        if on_path and p.end != 'cut':
            on_path(p)
        pure = not (p.approx or p.trigs or p.memo.get('explog') or any(k[0] == 'pow' for k in p.memo if isinstance(k, tuple)))
        for name, pc, goal, kind in p.obls:
            res.obligations.append((name, pc, goal, kind, {'pure': pure, 'inputs': p.inputs, 'rel': p.rel,
                                                                  'quots': [v for k, v in p.memo.items() if k[0] == 'div']}))
        if len(res.unsupported) > 20:
            break
    return res


def verify_lemma(l):
    res = Result(l)

    def run(p):
        for name, hyp, goal in l.build(p):
            for h in hyp:
                pass
            p.obls.append((f'{l.id}: {name}', [e for e, _ in p.pc] + [core.bexpr(h) for h in hyp], core.bexpr(goal), 'lemma'))
        res.completed += 1
    for p in core.explore(run, l.id):
        res.paths += 1
        if p.end == 'unsupported':
            res.unsupported.extend(p.notes)
        for name, pc, goal, kind in p.obls:
            res.obligations.append((name, pc, goal, kind, {'pure': True, 'inputs': p.inputs}))
    return res
