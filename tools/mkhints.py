"""record which candidate invariants survive, per contract
   python3-vt tools/mkhints.py [ID...]   (all contracts by default)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc import dsl, prove
dsl.load_all()
P = os.path.join(HERE, 'contracts', 'hints.json')
old = json.load(open(P)) if os.path.exists(P) else {}
def match(c):
    return any(c == a or a.endswith('*') and c.startswith(a[:-1]) for a in sys.argv[1:])
if len(sys.argv) > 1:
    ids = [c for c in dsl.CONTRACTS if match(c)]
else:
    ids = [c for c in dsl.CONTRACTS if dsl.CONTRACTS[c].prove]
    old = {}
os.environ['PYVC_NOHINTS'] = '1' if '--fresh' in os.environ.get('HINTS', '') else ''
if not os.environ['PYVC_NOHINTS']:
    del os.environ['PYVC_NOHINTS']
res = prove.run_many(ids, 'thorough', jobs=7)
for c, r in res.items():
    print(f"{c}: {r['status']} {r['discharged']}/{r['obligations']} {r['wall']:.1f}s {r['reason'][:200]}")
    if r['status'] == 'proved':
        l = {k: v for k, v in r['loops'].items() if v['mode'] == 'inv'}
        if l:
            old[c] = l
        else:
            old.pop(c, None)
with open(P, 'w') as f:
    json.dump(old, f, indent=0, sort_keys=True)
