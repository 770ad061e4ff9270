#!/usr/bin/env python3
"""bugs.py [id...]: applies each seeded change to a copy of /repo's package, and runs the check of its property on it (J at a time)"""
from concurrent.futures import ThreadPoolExecutor
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(i):
    d = f'{HERE}/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    work = tempfile.mkdtemp(prefix='cdtb-bug-')
    try:
        shutil.copytree('/repo/cdtb', work + '/cdtb', ignore=shutil.ignore_patterns('__pycache__'))
        subprocess.run(['git', 'apply', d + '/patch.diff'], check=True, cwd=work)
        t = time.time()
        r = subprocess.run(['python3-vt', 'check.py', prop, '--tier', 'quick'], cwd=HERE, capture_output=True, text=True,
                           env=dict(os.environ, CDTB_REPO=work, SYMX_EVIDENCE=work + '/ev', SYMX_OUT=work + '/out'))
        caught = r.returncode == 1 and f'VIOLATION property={prop} ' in r.stdout
        print(i, prop, 'caught' if caught else f'MISSED rc={r.returncode}', f'{time.time() - t:.0f} s', flush=True)
    finally:
        shutil.rmtree(work)


with ThreadPoolExecutor(int(os.environ.get('J', 3))) as ex:
    list(ex.map(run, sys.argv[1:] or sorted(os.listdir(HERE + '/seeded'))))
