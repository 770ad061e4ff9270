#!/usr/bin/env python3
"""Development helper: mutants of functions, and which ones a check does not detect

usage: mutate.py Cnn cdtb/file.py func1,func2 [max]
Mutants live in scratch copies below /tmp/mut, which are removed.
"""
import ast
import copy
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mutants(src, funcs):
    tree = ast.parse(src)
    targets = []

    def find(node, prefix=''):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                q = prefix + n.name
                if isinstance(n, ast.FunctionDef) and (q in funcs or n.name in funcs or '*' in funcs or prefix.rstrip('.') in funcs):
                    targets.append(n)
                find(n, q + '.')
    find(tree)
    seen = set()
    for fn in targets:
        skip = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or ast.unparse(n).startswith(('logger.', 'print('))):
                skip.update(id(x) for x in ast.walk(n))
            if isinstance(n, ast.Raise):
                skip.update(id(x) for x in ast.walk(n))
        nodes = [n for n in ast.walk(fn) if id(n) not in skip]
        for n in nodes:
            if id(n) in seen:
                continue
            seen.add(id(n))
            for desc, apply, undo in edits(n):
                apply()
                try:
                    new = ast.unparse(tree)
                except Exception:
                    new = None
                undo()
                if new:
                    yield f"{fn.name}:{getattr(n, 'lineno', '?')} {desc}", new


def edits(n):
    def setter(obj, attr, value):
        old = getattr(obj, attr)
        return (lambda: setattr(obj, attr, value)), (lambda: setattr(obj, attr, old))
    if isinstance(n, ast.Compare):
        swaps = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
                 ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
        for c in swaps.get(type(n.ops[0]), ()):
            yield (f"{type(n.ops[0]).__name__}->{c.__name__}", *setter(n, 'ops', [c()] + n.ops[1:]))
    if isinstance(n, ast.BoolOp):
        yield (f"{type(n.op).__name__} flipped", *setter(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()))
        if len(n.values) > 1:
            for i in range(len(n.values)):
                if len(n.values) > 1:
                    vals = n.values[:i] + n.values[i + 1:]
                    yield (f"operand {i} dropped: {ast.unparse(n.values[i])[:40]}", *setter(n, 'values', vals if len(vals) > 1 else vals + [ast.Constant(isinstance(n.op, ast.And))]))
    if isinstance(n, ast.BinOp):
        sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift,
              ast.RShift: ast.LShift, ast.BitXor: ast.BitOr}.get(type(n.op))
        if sw and not (isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, 'value', ''), str)):
            yield (f"{type(n.op).__name__}->{sw.__name__} in {ast.unparse(n)[:50]}", *setter(n, 'op', sw()))
    if isinstance(n, ast.Constant):
        v = n.value
        if v is True or v is False:
            yield (f"{v}->{not v}", *setter(n, 'value', not v))
        elif isinstance(v, int):
            yield (f"{v}->{v + 1}", *setter(n, 'value', v + 1))
            if v:
                yield (f"{v}->{v - 1}", *setter(n, 'value', v - 1))
        elif isinstance(v, str) and v and len(v) < 60:
            yield (f"{v!r} changed", *setter(n, 'value', v[:-1] + ('x' if v[-1] != 'x' else 'y')))
        elif isinstance(v, bytes) and v:
            yield (f"{v!r} changed", *setter(n, 'value', v[:-1] + bytes([v[-1] ^ 1])))
    if isinstance(n, (ast.If, ast.While, ast.IfExp)):
        old = n.test
        yield (f"not ({ast.unparse(old)[:50]})", *setter(n, 'test', ast.UnaryOp(ast.Not(), old)))
    if isinstance(n, ast.Continue) or isinstance(n, ast.Break):
        pass
    for field in ('body', 'orelse', 'finalbody'):
        body = getattr(n, field, None)
        if isinstance(body, list) and not isinstance(n, ast.ClassDef):
            for i, st in enumerate(body):
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    continue
                txt = ast.unparse(st)
                if txt.startswith(('logger.', 'print(', 'pass')):
                    continue
                new = body[:i] + [ast.copy_location(ast.Pass(), st)] + body[i + 1:]
                yield (f"deleted: {txt[:60]!r}", *setter(n, field, new))
                if isinstance(st, ast.Continue):
                    yield ("continue->break", *setter(n, field, body[:i] + [ast.Break()] + body[i + 1:]))
                if isinstance(st, ast.Break):
                    yield ("break->continue", *setter(n, field, body[:i] + [ast.Continue()] + body[i + 1:]))
    if isinstance(n, ast.Slice):
        for a in ('lower', 'upper', 'step'):
            if getattr(n, a) is not None:
                yield (f"slice {a} dropped", *setter(n, a, None))
    if isinstance(n, ast.Call):
        if n.keywords:
            for i in range(len(n.keywords)):
                yield (f"keyword {n.keywords[i].arg} dropped", *setter(n, 'keywords', n.keywords[:i] + n.keywords[i + 1:]))
        if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'set', 'list', 'reversed') and len(n.args) == 1:
            yield (f"{n.func.id}() removed", *setter(n, 'func', ast.Name('iter' if n.func.id == 'sorted' else 'list', ast.Load())))
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('lower', 'strip', 'upper', 'rstrip', 'lstrip') and not n.args:
            lam = ast.Lambda(ast.arguments([], [], None, [], [], None, []), n.func.value)
            yield (f".{n.func.attr}() removed", *setter(n, 'func', lam))


def every(path):
    out = []
    for n in ast.parse(open(f'/repo/{path}').read()).body:
        if isinstance(n, ast.FunctionDef):
            out.append(n.name)
        if isinstance(n, ast.ClassDef):
            out += [f'{n.name}.{m.name}' for m in n.body if isinstance(m, ast.FunctionDef)]
    return out


def main():
    checks, path = sys.argv[1].split(','), sys.argv[2]
    funcs = sys.argv[3].split(',') if len(sys.argv) > 3 and sys.argv[3] != 'all' else every(path)
    limit = int(sys.argv[4]) if len(sys.argv) > 4 else 10000
    src = open(f'/repo/{path}').read()
    base = ast.unparse(ast.parse(src))
    todo = []
    texts = {base}
    for desc, new in mutants(src, funcs):
        if new not in texts:
            texts.add(new)
            todo.append((desc, new))
    if len(todo) > limit:
        step = len(todo) / limit
        todo = [todo[int(i * step)] for i in range(limit)]
    root = f'/tmp/mut/{os.getpid()}'
    os.makedirs(root)

    def run(i):
        desc, new = todo[i]
        d = f'{root}/{i}'
        os.makedirs(d)
        shutil.copytree('/repo/cdtb', d + '/cdtb', ignore=shutil.ignore_patterns('__pycache__'))
        with open(f'{d}/{path}', 'w') as f:
            f.write(new)
        res = []
        for c in checks:
            try:
                p = subprocess.run(['timeout', '300', 'python3-vt', 'check.py', c, '-j', '1'], cwd=HERE, capture_output=True, text=True,
                                   env=dict(os.environ, CDTB_REPO=d, SYMX_EVIDENCE=d + '/ev', SYMX_OUT=d + '/out', SYMX_FAST='1'))
                res.append(p.returncode)
            except Exception as e:
                res.append(repr(e))
            if res[-1] == 1:
                break
        shutil.rmtree(d)
        return desc, res

    killed = 0
    with ThreadPoolExecutor(int(os.environ.get('J', 7))) as ex:
        for desc, res in ex.map(run, range(len(todo))):
            if 1 in res:
                killed += 1
            else:
                print(res, desc, flush=True)
    shutil.rmtree(root)
    print(f"{killed}/{len(todo)} killed")


main()
