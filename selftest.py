#!/usr/bin/env python3-vt
"""Checks that the solver answers, that the code under test can be loaded, and that models agree with what they stand for.

Texts, bytes and numbers: for each operation of harness/models.py, the symbolic result has to be the native one for each value of its domain (z3 decides).
Files: the same sequences of operations are run on the model and in a scratch directory. """
import errno
import itertools
import multiprocessing
import os
import random
import shutil
import sys
import tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import z3
from symx import runner
from symx.engine import Engine
from symx.env import SymEnv, ConcreteEnv
from symx.fs import FS, FakeOS, FakeShutil, open_file
from harness import models


def load():
    eng = Engine()
    out = []

    def body():
        env = SymEnv(eng)
        v = env.load('cdtb.storage').BaseVersion('1.2')
        x = env.uint('x', 8)
        out.append(bool(x > 3) and v.t == (1, 2))
    eng.explore(body)
    assert sorted(out) == [False, True], out


def cases():
    def table(f, values):
        return [(v, models.native(f, v)) for v in values]
    for key, (f, alphabet, n) in models.TEXT.items():
        for k in range(n + 1):
            yield runner.Case(f'{key} {k}', 'run_text', key=key, n=k, cases=table(f, [''.join(t) for t in itertools.product(alphabet, repeat=k)]))
    for key, (f, alphabet, n) in models.DATA.items():
        for k in range(n + 1):
            yield runner.Case(f'{key} {k}', 'run_data', key=key, n=k, cases=table(f, [bytes(t) for t in itertools.product(alphabet, repeat=k)]))
    for key, (f, lo, hi) in models.NUM.items():
        values = range(lo, hi + 1)
        if len(values) > 400:
            values = [lo, lo + 1, (lo + hi) // 2, 65535, 65536, hi - 1, hi]
        yield runner.Case(key, 'run_num', key=key, cases=table(f, values))


def one(case):
    import time
    r = runner.run_case(('harness.models', case, 'quick', time.time() + 300, 5, 'models'))
    return case.name, [v['msg'] for v in r['violations']], [v['msg'] for v in r['unreproduced']], r['incomplete'], r['error'], r['n_mismatches'], r['stats'], r['mismatches'], r['wall']


def texts(only=None):
    todo = [c for c in cases() if only is None or only in c.name]
    bad = paths = queries = 0
    partial = []
    with multiprocessing.Pool(8, maxtasksperchild=8) as pool:
        for name, v, u, inc, error, mism, stats, mm, wall in pool.imap_unordered(one, todo):
            paths += stats['paths']
            queries += stats['queries']
            if wall > 20:
                print(f'  {name}: {wall} s')
            if inc:
                partial.append(name)
                if only:
                    print(name, inc)
            if v or u or error or mism:
                bad += 1
                print('MODEL', name, v[:3], u[:3], error, mm[:2])
    print(f'models: {len(todo)} cases, {paths} paths, {queries} queries, {bad} wrong; not supported (reported as incomplete by checks): {partial}')
    return bad


# ---------------------------------------------------------------- files

NAMES = ['a', 'b', 'a/c', 'b/c', 'a/c/d', 'l', 'l/c', './a', 'a/', 'a//c', '.']


def operation(rnd):
    p, q = rnd.choice(NAMES), rnd.choice(NAMES)
    return rnd.choice([
        ('open', p, rnd.choice(['r', 'rb', 'w', 'wb', 'x', 'ab', 'r+b', 'w+b'])), ('open', p, 'wb'), ('open', p, 'rb'),
        ('mkdir', p), ('makedirs', p, rnd.random() < .5), ('mkdir', p), ('makedirs', p, True), ('remove', p), ('rmdir', p), ('rename', p, q), ('replace', p, q), ('symlink', rnd.choice(['a', 'c', 'b/c', '../a', 'none', '.']), rnd.choice(['l', 'b/l', 'a'])),
        ('readlink', p), ('listdir', p), ('scandir', p), ('exists', p), ('isfile', p), ('isdir', p), ('islink', p), ('lexists', p), ('size', p), ('walk', p), ('rmtree', p), ('copyfile', p, q), ('link', p, q), ('truncate', p), ('seek', p), ('realpath', p), ('removedirs', p),
    ])


def perform(op, args, osm, sh, op_open, osp, rel):
    try:
        if op == 'open':
            with op_open(args[0], args[1]) as f:
                if 'r' in args[1] and '+' not in args[1]:
                    return f.read()
                f.write('xyz' if 'b' not in args[1] else b'xyz')
                return f.tell() if 'b' in args[1] else None
        if op == 'truncate':
            with op_open(args[0], 'r+b') as f:
                f.seek(2)
                f.truncate()
                return f.tell()
        if op == 'seek':
            with op_open(args[0], 'rb') as f:
                f.seek(-2, 2)
                x = f.read(1)
                return x, f.tell(), f.readline(), f.read()
        if op == 'makedirs':
            return osm.makedirs(args[0], exist_ok=args[1])
        if op in ('mkdir', 'remove', 'rmdir', 'rename', 'replace', 'symlink', 'readlink', 'link', 'removedirs'):
            return getattr(osm, op)(*args)
        if op == 'listdir':
            return sorted(osm.listdir(*args))
        if op == 'scandir':
            return sorted((e.name, e.path, e.is_file(), e.is_dir(), e.is_symlink(), e.is_dir(follow_symlinks=False)) for e in osm.scandir(*args))
        if op == 'size':
            return osm.stat(*args).st_size if osp.isfile(*args) else None
        if op == 'walk':
            return sorted((d, sorted(x), sorted(y)) for d, x, y in osm.walk(*args))
        if op == 'rmtree':
            return sh.rmtree(*args)
        if op == 'copyfile':
            return sh.copyfile(*args)
        if op == 'realpath':
            return rel(osp.realpath(*args))
        return getattr(osp, op)(*args)
    except (OSError, ValueError) as e:
        return type(e).__name__, errno.errorcode.get(getattr(e, 'errno', None))


def files(n, length):
    start = os.getcwd()
    bad = count = 0
    for seed in range(n):
        rnd = random.Random(seed)
        top = tempfile.mkdtemp(prefix='selftest')
        try:
            work = os.path.join(top, 'in')
            os.mkdir(work)
            os.chdir(work)
            env = ConcreteEnv({}, {}, {})
            log = []
            for _ in range(length):
                op, *args = operation(rnd)
                if op in ('rename', 'replace', 'rmtree', 'rmdir', 'removedirs') and os.path.realpath(args[0]) == work or '.' in args and op in ('rename', 'replace', 'removedirs'):
                    continue
                log.append((op, *args))
                real = perform(op, args, os, shutil, open, os.path, lambda p: place(os.path.relpath(p, work)))
                sim = perform(op, args, env.os, env_shutil(env), lambda p, m: open_file(env.fs, p, m), env.os.path, lambda p: place(os.path.relpath(p, '/work')))
                count += 1
                if failed(real) and failed(sim) and (op in ('rmtree', 'rename', 'replace', 'link', 'copyfile') or args[0].endswith('/')):
                    sim = real  # several reasons to fail
                if real != sim:
                    bad += 1
                    print('FILES', seed, log[-8:], 'real', real, 'model', sim)
                    break
        finally:
            os.chdir(start)
            shutil.rmtree(top)
    print(f'files: {n} sequences, {count} operations, {bad} wrong')
    return bad


def failed(x):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0].endswith('Error')


def place(p):
    return 'outside' if p.startswith('..') else p


def env_shutil(env):
    return FakeShutil(env.fs)


if __name__ == '__main__':
    load()
    print('ok', z3.get_version_string())
    quick = '--quick' in sys.argv
    args = [a for a in sys.argv[1:] if a[0] != '-']
    bad = files(150 if quick else 2000, 40) if not args else 0
    bad += texts(args[0] if args else None)
    sys.exit(1 if bad else 0)
