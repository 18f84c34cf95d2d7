#!/usr/bin/env python3
"""seedtest.py ID [checks...] : apply seeded/ID to /repo, build, test, demo, run the checks, undo. (development helper)"""
import sys, os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(i, checks, fast=False):
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    checks = checks or [meta['property']]
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else [])
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    r = sh('cd /repo && bash %s/demo.sh' % d)
    print('demo clean exit', r.returncode, '' if r.returncode == 0 else r.stdout[-500:])
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode: print('APPLY FAILED', a.stdout); return
    try:
        if not fast:
            b = sh('bash /opt/vp/test.sh /tmp/sd/out.json'); o = json.load(open('/tmp/sd/out.json'))
            print('tests: passed %d failed %s' % (len(o['passed']), o['failed'][:5]))
        r = sh('cd /repo && bash %s/demo.sh' % d); print('demo patched exit', r.returncode, r.stdout[-200:].strip())
        for c in checks:
            r = sh('cd %s && python3-vt check.py %s' % (V, c)); print(c, 'exit', r.returncode); print(r.stdout[-900:])
    finally:
        sh('git -C /repo checkout -- .')
fast = '-f' in sys.argv
av = [x for x in sys.argv[1:] if x != '-f']
main(av[0], av[1:], fast)
