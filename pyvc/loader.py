"""Loads the package under test from its sources, rewritten mechanically for the chosen arithmetic.

What the rewriting does (and nothing else):
  float literal      ->  __vc_f__("text")            (the exact decimal; the literal of pi is pi itself)
  a / b, a ** b      ->  __vc_div__(a, b), __vc_pow__(a, b)
  x /= b             ->  x = __vc_idiv__(x, b)
  for / while loops  ->  see loops.py (identical when the iterable is a concrete sequence)
Docstrings, annotations (`from __future__ import annotations` semantics) and f-strings are kept.
The modules then run under CPython with `math` and the numeric builtins replaced by shims.py.
"""
from __future__ import annotations
import ast
import builtins
import importlib
import os
import sys
import types
from . import shims, core

REPO = os.environ.get('PYVC_REPO', '/repo')
PKG = 'pyrusgeom'
REAL_OK = {'typing', 'enum', 'functools', '__future__', 'abc', 'dataclasses', 'collections', 'itertools', 'operator',
           'copy', 'numbers', 'warnings', 'contextlib', 'types', 'collections.abc', 'weakref', 'bisect', 'heapq',
           'string', 'typing_extensions'}


def src_root():
    return os.path.join(REPO, 'src', PKG)


class Rewriter(ast.NodeTransformer):
    def __init__(self, text, loops=None, modname=''):
        self.text = text
        self.loops = loops
        self.modname = modname
        self.scope = []

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            seg = ast.get_source_segment(self.text, n) or repr(n.value)
            seg = seg.replace('_', '')
            return ast.copy_location(call('__vc_f__', ast.Constant(seg)), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        name = {ast.Div: '__vc_div__', ast.Pow: '__vc_pow__'}.get(type(n.op))
        if name:
            return ast.copy_location(call(name, n.left, n.right), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, (ast.Name, ast.Attribute, ast.Subscript)):
            load = ast.parse(ast.unparse(n.target), mode='eval').body
            return ast.copy_location(ast.Assign([n.target], call('__vc_idiv__', load, n.value)), n)
        return n

    def _fn(self, n):
        self.scope.append(n.name)
        n.returns = None
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
            a.annotation = None
        if n.args.vararg:
            n.args.vararg.annotation = None
        if n.args.kwarg:
            n.args.kwarg.annotation = None
        self.generic_visit(n)
        if self.loops is not None:
            n = self.loops.rewrite_function(n, self.modname, '.'.join(self.scope))
        self.scope.pop()
        return n

    visit_FunctionDef = _fn

    def visit_ClassDef(self, n):
        self.scope.append(n.name)
        self.generic_visit(n)
        self.scope.pop()
        return n


def call(name, *args):
    return ast.Call(ast.Name(name, ast.Load()), list(args), [])


class World:
    """One instrumented instance of the package."""

    def __init__(self, mode, loops=None):
        if mode == 'sym' and loops is None:
            from .loops import Loops
            loops = Loops()
        self.mode = mode
        self.loops = loops
        self.modules = {}
        self.sources = {}
        if mode == 'sym':
            self.math = shims.make_math()
            b = dict(float=shims.Float, int=shims.Int, bool=shims.Bool, isinstance=shims.b_isinstance,
                     type=shims.b_type,
                     min=shims.b_min, max=shims.b_max, abs=shims.b_abs, round=shims.b_round, pow=shims.b_pow,
                     divmod=shims.b_divmod, sum=shims.b_sum, hash=shims.b_hash, str=builtins.str,
                     print=lambda *a, **k: None)
            self.helpers = dict(__vc_f__=shims.vc_f, __vc_div__=shims.vc_div, __vc_idiv__=shims.vc_idiv,
                                __vc_pow__=shims.vc_pow)
            if loops is not None:
                self.helpers.update(loops.helpers())
                b.update(loops.builtins())
        elif mode == 'hp':
            self.math = shims.make_math_hp()
            b = dict(float=shims.HFloat, isinstance=shims.h_isinstance, type=shims.h_type,
                     print=lambda *a, **k: None)
            self.helpers = dict(__vc_f__=shims.hp_f, __vc_div__=shims.hp_div, __vc_idiv__=shims.hp_idiv,
                                __vc_pow__=shims.hp_pow)
        else:
            raise ValueError(mode)
        self.builtins = dict(vars(builtins))
        self.builtins.update(b)
        self.builtins['__import__'] = self.import_
        for bad in ('open', 'exec', 'eval', 'compile', 'input', 'breakpoint'):
            self.builtins[bad] = self._blocked(bad)

    @staticmethod
    def _blocked(name):
        def f(*a, **k):
            raise core.Unsupported(f'{name}() is not modelled')
        return f

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or PKG
            base = pkg.split('.')
            base = base[:len(base) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        if name == 'math':
            return self.math
        if name == PKG or name.startswith(PKG + '.'):
            m = self.load(name)
            if fromlist:
                if name == PKG:
                    for f in fromlist:
                        if not hasattr(m, f):
                            setattr(m, f, self.load(f'{PKG}.{f}'))
                return m
            return self.load(PKG)
        if name in REAL_OK or name.split('.')[0] in REAL_OK:
            return importlib.__import__(name, globals, locals, fromlist, 0)
        raise core.Unsupported(f'import of {name}')

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.split('.')[1:]
        path = os.path.join(src_root(), *rel)
        if os.path.isdir(path):
            path, ispkg = os.path.join(path, '__init__.py'), True
        else:
            path, ispkg = path + '.py', False
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        if not os.path.exists(path):
            raise ModuleNotFoundError(f'No module named {name!r}')
        self.modules[name] = m
        with open(path, encoding='utf-8') as f:
            text = f.read()
        self.sources[name] = text
        tree = ast.parse(text, path)
        if self.loops is not None:
            self.loops.scan(tree, name)
        tree = Rewriter(text, self.loops, name).visit(tree)
        ast.fix_missing_locations(tree)
        import __future__
        code = compile(tree, path, 'exec', flags=__future__.annotations.compiler_flag, dont_inherit=True)
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__.update(self.helpers)
        # module-level code may need a current path (constants only)
        old = core.CUR
        if core.CUR is None:
            core.CUR = core.Path([], 'module')
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        finally:
            core.CUR = old
        parent, _, leaf = name.rpartition('.')
        if parent and parent in self.modules:
            setattr(self.modules[parent], leaf, m)
        return m

    def load_all(self):
        self.load(PKG)
        for f in sorted(os.listdir(src_root())):
            if f.endswith('.py') and f != '__init__.py':
                self.load(f'{PKG}.{f[:-3]}')
        return self

    def cls(self, mod, name):
        return getattr(self.load(f'{PKG}.{mod}'), name)

    def __getattr__(self, name):
        """a public class (or module) of the package, by name"""
        if name.startswith('__'):
            raise AttributeError(name)
        cache = self.__dict__.setdefault('_names', {})
        if name in cache:
            return cache[name]
        if os.path.exists(os.path.join(src_root(), name + '.py')):
            cache[name] = self.load(f'{PKG}.{name}')
            return cache[name]
        self.load_all()
        for f in sorted(os.listdir(src_root())):
            if f.endswith('.py') and f != '__init__.py':
                m = self.load(f'{PKG}.{f[:-3]}')
                if name in m.__dict__:
                    cache[name] = m.__dict__[name]
                    return cache[name]
        raise AttributeError(f'{PKG} has no {name}')


class RealWorld:
    """The package as CPython runs it (plain floats)."""
    mode = 'real'

    def __init__(self):
        sys.dont_write_bytecode = True
        p = os.path.join(REPO, 'src')
        if p not in sys.path:
            sys.path.insert(0, p)

    def load(self, name):
        return importlib.import_module(name)

    def load_all(self):
        for f in sorted(os.listdir(src_root())):
            if f.endswith('.py') and f != '__init__.py':
                self.load(f'{PKG}.{f[:-3]}')
        return self

    def cls(self, mod, name):
        return getattr(self.load(f'{PKG}.{mod}'), name)

    def __getattr__(self, name):
        """a public class (or module) of the package, by name"""
        if name.startswith('__'):
            raise AttributeError(name)
        cache = self.__dict__.setdefault('_names', {})
        if name in cache:
            return cache[name]
        if os.path.exists(os.path.join(src_root(), name + '.py')):
            cache[name] = self.load(f'{PKG}.{name}')
            return cache[name]
        self.load_all()
        for f in sorted(os.listdir(src_root())):
            if f.endswith('.py') and f != '__init__.py':
                m = self.load(f'{PKG}.{f[:-3]}')
                if name in m.__dict__:
                    cache[name] = m.__dict__[name]
                    return cache[name]
        raise AttributeError(f'{PKG} has no {name}')
