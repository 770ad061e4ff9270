#!/usr/bin/env python3-vt
"""Run one check: check.py C01 [--tier quick|thorough] [--case NAME] [-v]; or check.py replay FILE"""
import argparse
import os
import sys

os.environ.setdefault('PYTHONHASHSEED', '0')
if os.environ.get('PYTHONHASHSEED') != '0' or not sys.flags.hash_randomization == 0:
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, *sys.argv])

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import runner

if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'replay':
        sys.exit(runner.replay_file(sys.argv[2]))
    p = argparse.ArgumentParser()
    p.add_argument('check')
    p.add_argument('--tier', default=None)
    p.add_argument('--case', default=None)
    p.add_argument('-j', type=int, default=None)
    p.add_argument('-v', action='store_true')
    a = p.parse_args()
    sys.exit(runner.main(a.check, a.tier, a.case, a.v, a.j))
