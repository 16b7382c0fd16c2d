"""prove every contract in parallel and list what is not proved
   python3-vt tools/rcall.py [PREFIX...]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from pyvc import dsl, prove
dsl.load_all()
pre = tuple(sys.argv[1:])
ids = [c.id for c in dsl.CONTRACTS.values() if c.prove
       and (not pre or c.id.startswith(pre))]
rs = prove.run_many(ids, 'quick', jobs=7)
for i in ids:
    r = rs[i]
    if r['status'] != 'proved' or r['wall'] > 15:
        print(f"{i}: {r['status']} {r['discharged']}/{r['obligations']} "
              f"{r['wall']:.1f}s {r['reason'][:300]}")
print(len(ids), 'contracts', sum(r['status'] == 'proved' for r in rs.values()),
      'proved')
