"""writes MANIFEST.json from dv/props.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from dv import props
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []
for p in ids:
    if p not in props.PROPS: continue
    s = props.PROPS[p]
    checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % p,
                   'technique': s.get('technique', 'contract-based deductive verification: symbolic execution of the compiled real code against per-function contracts, obligations discharged by rewriting and SMT'),
                   'level': s['level'], 'level_note': s.get('note', '')})
na = [{'property': p, 'reason': props.NA.get(p, 'not built yet: the contracts for this part are still being written')} for p in ids if p not in props.PROPS]
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sys; sys.path.insert(0, \'.\'); from dv import selftest_terms; selftest_terms.run(2000)"', 'checks': checks, 'not_applicable': na,
     'notes': 'Each check recompiles /repo/cpp to LLVM IR (and assembles/compiles the asm and Java) and re-proves the contracts on every run; it also runs the sanitizer build of /repo on generated inputs to turn failed obligations into failing inputs. No hooks are added to /repo.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
