"""python3 tools/refactor.py KIND DEST: copy of /repo at DEST with a behaviour-preserving rewriting of every function; kinds below"""
import ast
import copy
import os
import shutil
import subprocess
import sys


def locals_of(f):
    """names assigned in f and nowhere declared otherwise"""
    out, bad = set(), set()
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) and n is not f:
            for m in ast.walk(n):
                if isinstance(m, ast.Name):
                    bad.add(m.id)
    a = f.args
    bad |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    return out - bad


class Base(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return self.fn(n) or n

    def fn(self, n):
        pass


class Rename(Base):
    def fn(self, n):
        m = {x: f'the_{x}' for x in locals_of(n)}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]


class Temps(Base):
    """return E -> result = E; return result; if C -> cond = C; if cond"""
    k = 0

    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
                out += [ast.Assign([ast.Name('result_value', ast.Store())], s.value), ast.Return(ast.Name('result_value', ast.Load()))]
            elif isinstance(s, ast.If):
                Temps.k += 1
                v = f'cond_{Temps.k}'
                out += [ast.Assign([ast.Name(v, ast.Store())], s.test)]
                s.test = ast.Name(v, ast.Load())
                out.append(s)
            else:
                out.append(s)
        return out

    def visit(self, n):
        n = super().visit(n)
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                setattr(n, f, self.stmts(b))
        return n


class Flip(Base):
    """if C: A else: B -> if not C: B else: A; early return -> else branch"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def fn(self, n):
        n.body = self.nest(n.body)

    def nest(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Return) and body[i + 1:]:
                s.orelse = self.nest(body[i + 1:])
                return body[:i + 1]
        return body


class Swap(Base):
    """a + b -> b + a, a * b -> b * a for numeric-looking operands, a < b -> b > a"""

    def numeric(self, n):
        t = ast.unparse(n)
        return not any(x in t for x in ('"', "'", 'Vector', 'Angle', 'other', 'point', 'dir', 'angle', '[')) and not isinstance(n, ast.Name)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Add, ast.Mult)) and self.numeric(n.left) and self.numeric(n.right):
            n.left, n.right = n.right, n.left
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            n.left, n.comparators[0], n.ops[0] = n.comparators[0], n.left, m[type(n.ops[0])]()
        return n


class Noop(Base):
    def fn(self, n):
        k = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body[k:k] = [ast.parse('_unused = 0').body[0], ast.parse('if False:\n    pass').body[0]]


class Loops(Base):
    """for i in range(E): B -> i = 0; while i < n: B; i += 1 (bodies without continue)"""
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and len(n.iter.args) == 1 and isinstance(n.target, ast.Name) and not n.orelse:
            Loops.k += 1
            c, e = f'cnt_{Loops.k}', f'end_{Loops.k}'
            pre = ast.parse(f'{c} = 0\n{e} = 0').body
            pre[1].value = n.iter.args[0]
            w = ast.parse(f'while {c} < {e}:\n    {n.target.id} = {c}\n    {c} += 1').body[0]
            w.body += n.body
            return pre + [w]
        if isinstance(n.iter, (ast.Attribute, ast.Name)) and isinstance(n.target, ast.Name) and not n.orelse:
            Loops.k += 1
            q = f'idx_{Loops.k}'
            it = n.iter
            n.iter = ast.parse(f'range(len({ast.unparse(it)}))', mode='eval').body
            n.body.insert(0, ast.parse(f'{n.target.id} = {ast.unparse(it)}[{q}]').body[0])
            n.target = ast.Name(q, ast.Store())
            return n
        return n


class Helper(Base):
    """every method body moves to a helper method"""

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        out = []
        for s in n.body:
            out.append(s)
            if isinstance(s, ast.FunctionDef) and s.name not in ('__init__',) and not s.decorator_list and s.args.args and s.args.args[0].arg == 'self' \
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) and 'super()' not in ast.unparse(s):
                h = copy.deepcopy(s)
                h.name = f'_do_{s.name.strip("_")}_{s.lineno}'
                h.args.defaults, h.args.kw_defaults = [], []
                a = s.args
                args = [x.arg for x in a.args[1:]]
                call = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), h.name, ast.Load()), [ast.Name(x, ast.Load()) for x in args]
                                + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []), [])
                if a.kwonlyargs or a.kwarg:
                    continue
                s.body = [ast.Return(call)]
                out.append(h)
        n.body = out
        return n


class Inlined(Base):
    """self.x() -> self._x for the coordinate accessors of vectors"""

    def visit_ClassDef(self, n):
        if n.name == 'Vector2D':
            self.generic_visit(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('x', 'y') and not n.args and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
            return ast.Attribute(n.func.value, '_' + n.func.attr, ast.Load())
        return n


KINDS = dict(rename=Rename, temps=Temps, flip=Flip, swap=Swap, noop=Noop, loops=Loops, helper=Helper, inlined=Inlined)
if __name__ == '__main__':
    kind, dest = sys.argv[1:3]
    shutil.rmtree(dest, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', dest], check=True)
    src = os.path.join(dest, 'src/pyrusgeom')
    for f in os.listdir(src):
        if f.endswith('.py'):
            p = os.path.join(src, f)
            t = ast.parse(open(p).read())
            for k in kind.split('+'):
                t = KINDS[k]().visit(t)
                ast.fix_missing_locations(t)
            open(p, 'w').write(ast.unparse(t) + '\n')
