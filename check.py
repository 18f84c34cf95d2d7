#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
if __name__ == '__main__':
    from dv import run
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    if len(sys.argv) > 2: tier = sys.argv[2]
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    sys.exit(run.check(sys.argv[1], tier, seed))
