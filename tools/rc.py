"""debugging: prove the named contracts and show the outcome
   python3-vt tools/rc.py ID...   (prefix* allowed)"""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from pyvc import dsl, prove
dsl.load_all()
v = '-v' in sys.argv
for a in sys.argv[1:]:
    for c in list(dsl.CONTRACTS):
        if c == a or a.endswith('*') and c.startswith(a[:-1]):
            r = prove.run_contract(dsl.CONTRACTS[c])
            print(f"{c}: {r['status']} {r['discharged']}/{r['obligations']} "
                  f"paths {r['paths']} {r['wall']:.1f}s {r['reason'][:600]}")
            if r['status'] != 'proved' or v:
                for f in r['failed'][:4]:
                    print('   FAILED', f['kind'], f['name'], f['info'].get('verdict'))
                    print('      goal', f['info'].get('goal', '')[:400])
                    print('      model', f['info'].get('model'), f['info'].get('ce_error', ''))
                print('   ', (r.get('trace') or '')[-600:])
            if v:
                print(r['inlined'], r['assumptions'], r['externals'])
