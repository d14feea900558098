#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--case SUBSTRING] [-v]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)

if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    from symx import runner
    rc = runner.main(a.property, a.tier, int(os.environ.get('VERIF_SEED', '1') or 1), a.case, a.v)
    sys.stdout.flush()
    os._exit(rc)
