#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: makes seeded/<id>/ from (id, property, file, old, new, demo, needs, breaks) in BUGS, after confirming it in a scratch copy of /repo"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/plantrepo'
HEAD = '''import os, sys, tempfile, shutil, struct, io, json
sys.path.insert(0, os.getcwd())
work = tempfile.mkdtemp(prefix='cdtb-demo-')
os.environ['HOME'] = work
os.environ['CDRAGON_DATA'] = work
hashdir = work + '/hashes/lol'
os.makedirs(hashdir)
for n in ('lcu', 'game', 'rst.xxh64', 'rst.xxh3', 'binentries', 'binfields', 'binhashes', 'bintypes'):
    open(hashdir + '/hashes.' + n + '.txt', 'w').close()
def main():
    try:
        demo()
    finally:
        shutil.rmtree(work, ignore_errors=True)
'''
DEMO_SH = '''#!/bin/bash
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests():
    r = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=SCRATCH, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    return r.stdout.strip().splitlines()[-1]


def main():
    only = sys.argv[2:]
    for spec in sys.argv[1:2]:
        ns = {}
        exec(open(spec).read(), ns)
        for b in ns['BUGS']:
            if not only or b['id'] in only:
                plant(b)


def plant(b):
    shutil.rmtree(SCRATCH, ignore_errors=True)
    run(['cp', '-a', '/repo', SCRATCH])
    run(['git', '-C', SCRATCH, 'checkout', '-q', '--', '.'])
    d = os.path.join('/tmp/plant', b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    open(d + '/demo.py', 'w').write(HEAD + b['demo'].strip() + '\n\nmain()\n')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r = run(['bash', d + '/demo.sh'], cwd=SCRATCH)
    if r.returncode:
        return print(b['id'], 'BAD: demo fails on the unchanged tree\n' + r.stdout[-1500:])
    edits = b.get('edits') or [(b['file'], b['old'], b['new'])]
    for file, old, new in edits:
        p = os.path.join(SCRATCH, file)
        s = open(p).read()
        if s.count(old) != 1:
            return print(b['id'], 'BAD: old text found', s.count(old), 'times')
        open(p, 'w').write(s.replace(old, new))
    r = run(['bash', d + '/demo.sh'], cwd=SCRATCH)
    if r.returncode == 0:
        return print(b['id'], 'BAD: demo passes with the change')
    why = r.stdout.strip().splitlines()[-1:]
    t = tests()
    if 'failed' in t or 'error' in t or 'passed' not in t:
        return print(b['id'], 'BAD: tests', t)
    open(d + '/patch.diff', 'w').write(run(['git', '-C', SCRATCH, 'diff']).stdout)
    dst = os.path.join(HERE, 'seeded', b['id'])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    print(b['id'], 'ok', t, why)
    shutil.rmtree(SCRATCH, ignore_errors=True)


main()
