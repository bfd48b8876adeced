"""What the verifier accepted on the committed tree (baseline/<property>.json, written by --baseline, never at check time).

An obligation that the solvers do not discharge is reported as a violation only when it is new: its text is not among the
obligations accepted before, and the functions its contract executes have changed. So a slow machine never raises an alarm on
code the verifier has already accepted, while a change that makes a proof fail does.
"""
from __future__ import annotations
import ast
import hashlib
import json
import os
import z3
from . import loader

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'baseline')
COMM = {z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF, z3.Z3_OP_XOR}


def _h(s):
    return hashlib.blake2b(s.encode(), digest_size=8).hexdigest()


def term_hash(e, memo):
    """order-insensitive hash of a formula"""
    stack = [e]
    while stack:
        t = stack[-1]
        i = t.get_id()
        if i in memo:
            stack.pop()
            continue
        ch = t.children()
        todo = [c for c in ch if c.get_id() not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        hs = [memo[c.get_id()] for c in ch]
        if z3.is_app(t):
            d = t.decl()
            if d.kind() in COMM:
                hs.sort()
            head = t.sexpr() if not ch else d.name()
        else:
            head = t.sexpr()
        memo[i] = _h(head + '(' + ','.join(hs) + ')')
    return memo[e.get_id()]


def obligation_hash(pc, goal):
    memo = {}
    return _h('|'.join(sorted({term_hash(e, memo) for e in pc})) + '=>' + term_hash(goal, memo))


class Clean(ast.NodeTransformer):
    """without what has no effect: docstrings, bare constants, pass, annotations"""

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                setattr(n, f, [s for s in b if not isinstance(s, ast.Pass) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))])
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.returns = None
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        return n


def sources():
    """function name -> hash of its code; module name -> hash of the rest of the module"""
    out = {}
    for f in sorted(os.listdir(loader.src_root())):
        if not f.endswith('.py'):
            continue
        mod = f[:-3]
        try:
            with open(os.path.join(loader.src_root(), f), encoding='utf-8') as h:
                tree = Clean().visit(ast.parse(h.read()))
        except SyntaxError:
            continue

        def walk(body, pre):
            rest = []
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    k = pre + n.name
                    out[k] = _h(out.get(k, '') + ast.dump(n))
                elif isinstance(n, ast.ClassDef):
                    rest.append(ast.dump(ast.ClassDef(n.name, n.bases, n.keywords, [], n.decorator_list)))
                    rest += walk(n.body, pre + n.name + '.')
                else:
                    rest.append(ast.dump(n))
            return rest
        out[mod] = _h('\n'.join(walk(tree.body, mod + '.')))
    return out


def source_hash(fns, src):
    mods = {f.split('.')[0] for f in fns}
    return _h(';'.join(f'{f}={src.get(f, "")}' for f in sorted(set(fns) | mods)))


def load(prop):
    try:
        with open(os.path.join(DIR, prop + '.json')) as f:
            return json.load(f)
    except FileNotFoundError:
        return {}


def save(prop, data):
    os.makedirs(DIR, exist_ok=True)
    with open(os.path.join(DIR, prop + '.json'), 'w') as f:
        json.dump(data, f, indent=0, sort_keys=True)
