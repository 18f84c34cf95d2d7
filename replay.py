#!/usr/bin/env python3
"""Re-runs the failing inputs of a replay file against /repo's current tree."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dv import native
d = json.load(open(sys.argv[1])); b = native.Build()
for v in d['failing_inputs']:
    p = b.proc(v['target'])
    print(v['target'], v['line']); print('  got now :', p.run([v['line']])[0] if p else 'does not build'); print('  got then:', v['got']); print('  problem :', v['why'])
for f in d['failed_obligations']: print('failed obligation:', f['function'], '::', f['obligation'], '\n  verifier output:', f['info'], '\n  model:', f.get('model'))
