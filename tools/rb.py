"""run the bounded part of a property and list failures:
   python3-vt tools/rb.py c07 [limit] [only]"""
import json, os, sys, tempfile, shutil, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import check
d = tempfile.mkdtemp(prefix='rb-')
try:
    req = dict(contracts=[], tier=os.environ.get('VERIF_TIER', 'quick'), seed=int(os.environ.get('VERIF_SEED', 1)),
               api=sys.argv[1], prop=sys.argv[1].upper(),
               apilimit=float(sys.argv[2]) if len(sys.argv) > 2 else 100,
               known=[k for k in json.load(open('/verif/known_findings.json'))
                      if k['property'] == sys.argv[1].upper()
                      and k.get('status') == 'known'], maxfail=400)
    r = check.Native(d, req, 900).result()
    a = r['api']
    if not a:
        print(r.get('log', '')[-3000:])
    else:
        print({k: (v if k not in ('fails', 'samples', 'rule') else len(v)) for k, v in a.items()})
        for f in a['fails'][:int(os.environ.get('N', 12))]:
            print('-', f.get('key'), '|', str(f.get('msg') or f)[:int(os.environ.get('W', 900))])
finally:
    shutil.rmtree(d, ignore_errors=True)
