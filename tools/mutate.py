"""python3-vt tools/mutate.py SEED COUNT WORKER [module ...] : random small changes that pass the tests, and which contracts notice them

Each change is made in a scratch copy; the contracts that name the changed function (or, where none does, its module)
are checked. Prints the changes that pass the tests and that no contract notices: to be read by a person, since many
of them change nothing (tolerances, unreachable text)."""
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyvc.check import load_contracts
from pyvc.contract import REGISTRY
SRC = '/repo/src/pyrusgeom'


class Sites(ast.NodeVisitor):
    def __init__(self):
        self.out, self.stack = [], []

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()

    def visit_FunctionDef(self, n):
        if n.name in ('__repr__', '__str__'):
            return
        self.stack.append(n.name)
        for b in n.body:
            self.visit(b)
        self.stack.pop()

    def generic_visit(self, n):
        if self.stack:
            self.out += [('.'.join(self.stack), n, k) for k in kinds(n)]
        super().generic_visit(n)


OPS = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [], ast.IsNot: []}


def kinds(n):
    if isinstance(n, ast.BinOp) and type(n.op) in OPS:
        yield 'op'
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for i in range(len(CMP.get(type(n.ops[0]), []))):
            yield f'cmp{i}'
    if isinstance(n, ast.BoolOp):
        yield 'bool'
        yield 'drop'
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
        yield 'unary'
    if isinstance(n, ast.Constant) and type(n.value) in (int, float):
        yield 'const'
    if isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords:
        yield 'swap'
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('abs', 'fabs', 'copy', 'x', 'y', 'sqrt', 'left', 'right', 'top', 'bottom', '_x', '_y', 'sin', 'cos', 'origin', 'terminal'):
        yield 'name'
    if isinstance(n, ast.Attribute) and n.attr in ('_x', '_y', '_m11', '_m12', '_m21', '_m22', '_dx', '_dy', '_a', '_b', '_c', '_start', '_end', '_min_radius', '_max_radius', '_length', '_width'):
        yield 'attr'
    if isinstance(n, ast.If):
        yield 'never'
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id == 'EPSILON':
        yield 'zero'
    if isinstance(n, (ast.AugAssign,)):
        yield 'aug'
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
        yield 'pass'


PAIR = {'x': 'y', 'y': 'x', 'sqrt': 'fabs', 'left': 'right', 'right': 'left', 'top': 'bottom', 'bottom': 'top', 'sin': 'cos', 'cos': 'sin', 'origin': 'terminal', 'terminal': 'origin', '_x': '_y', '_y': '_x',
        '_m11': '_m12', '_m12': '_m21', '_m21': '_m12', '_m22': '_m11', '_dx': '_dy', '_dy': '_dx', '_a': '_b', '_b': '_a', '_c': '_a', '_start': '_end', '_end': '_start', '_min_radius': '_max_radius', '_max_radius': '_min_radius', '_length': '_width', '_width': '_length'}


def change(n, k, rng):
    m = copy.deepcopy(n)
    if k == 'op':
        m.op = OPS[type(m.op)]()
    elif k[:3] == 'cmp':
        m.ops = [CMP[type(m.ops[0])][int(k[3])]()]
    elif k == 'bool':
        m.op = ast.And() if isinstance(m.op, ast.Or) else ast.Or()
    elif k == 'drop':
        m.values.pop(rng.randrange(len(m.values)))
        return m if len(m.values) > 1 else m.values[0]
    elif k == 'unary':
        return m.operand
    elif k == 'const':
        m.value = rng.choice([m.value + 1, m.value * 1.001 if m.value else 1e-3, -m.value if m.value else 1])
    elif k == 'swap':
        i = rng.randrange(len(m.args) - 1)
        m.args[i], m.args[i + 1] = m.args[i + 1], m.args[i]
    elif k == 'name':
        if m.func.attr in PAIR:
            m.func.attr = PAIR[m.func.attr]
        elif m.func.attr == 'fabs':
            return m.args[0]
        else:
            return m.func.value
    elif k == 'attr':
        m.attr = PAIR[m.attr]
    elif k == 'never':
        m.test = ast.Constant(False)
    elif k == 'zero':
        return ast.Constant(0.0)
    elif k == 'aug':
        m.op = OPS.get(type(m.op), ast.Sub)()
    elif k == 'pass':
        return ast.Pass()
    return m


class Put(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, n):
        if n is self.old:
            return self.new
        return self.generic_visit(n)


def main():
    seed, count, worker, mods = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4:]
    load_contracts()
    rng = random.Random(seed)
    dest = f'/tmp/mt{worker}'
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree('/repo', dest)
    names = mods or [f[:-3] for f in sorted(os.listdir(SRC)) if f.endswith('.py') and f != '__init__.py']
    allsites = []
    for m in names:
        t = ast.parse(open(f'{SRC}/{m}.py').read())
        v = Sites()
        v.visit(t)
        allsites += [(m, t, *s) for s in v.out]
    rng.shuffle(allsites)
    done = 0
    for m, t, fn, n, k in allsites:
        if done >= count:
            break
        new = change(n, k, rng)
        p = f'{dest}/src/pyrusgeom/{m}.py'
        src = open(f'{SRC}/{m}.py').read()
        seg = ast.get_source_segment(src, n)
        try:
            out = ast.unparse(ast.fix_missing_locations(Put(n, new).visit(copy.deepcopy(t) if False else t)))
        except Exception:
            continue
        finally:
            Put(new, n).visit(t)
        open(p, 'w').write(out)
        what = f'{m}.{fn}:{n.lineno} {k}: {seg.splitlines()[0][:90]}  ->  {ast.unparse(ast.fix_missing_locations(new)).splitlines()[0][:90]}'
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=dest, capture_output=True, text=True, timeout=60,
                               env=dict(os.environ, PYTHONPATH=f'{dest}/src', PYTHONDONTWRITEBYTECODE='1'))
            if r.returncode == 0:
                done += 1
                res = decide(m, fn, dest)
                print(f'{res} | {what}', flush=True)
        except subprocess.TimeoutExpired:
            pass
        shutil.copy(f'{SRC}/{m}.py', p)
    shutil.rmtree(dest)


def decide(m, fn, dest):
    """the contracts that name the function, then those of its module"""
    full = f'{m}.{fn}'
    near = [c for c in REGISTRY if any(f == full for f in getattr(c, 'fns', ()))]
    far = [c for c in REGISTRY if c not in near and any(f.startswith(m + '.') for f in getattr(c, 'fns', ()))]
    kind = ''
    for group, mark in ((near, ''), (far, 'far ')):
        props = {}
        for c in group:
            if not getattr(c, 'known', False):
                props.setdefault(c.props[0], []).append(c.id)
        for p, ids in sorted(props.items(), key=lambda x: len(x[1])):
            try:
                r = subprocess.run(['python3-vt', '-m', 'pyvc.check', p, '--only', '=' + ','.join(ids)], cwd=HERE, capture_output=True, text=True, timeout=600,
                                   env=dict(os.environ, PYVC_REPO=dest, PYVC_EVIDENCE='/tmp/mt-evidence'))
            except subprocess.TimeoutExpired:
                continue
            if r.returncode == 1:
                return f'caught {mark}{p}{" (no input)" if "no-failing-input" in r.stdout else ""}'
            if r.returncode not in (0, 2):
                return f'ERROR {r.returncode} {r.stderr[-200:]}'
    return 'SURVIVED'


if __name__ == '__main__':
    main()
