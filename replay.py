#!/usr/bin/env python3-vt
"""Runs one reported violation again on /repo's current tree:
   replay.py evidence/replay/<file>.json      exit 1: it still fails"""
import json
import os
import pickle
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import check


def main():
    d = json.load(open(sys.argv[1]))
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        bad = False
        if d['kind'] == 'api':
            r = check.Native(scratch, dict(
                contracts=[], tier=d['tier'], seed=d['seed'],
                api=d['property'].lower(), prop=d['property'], apilimit=600,
                only=d['failure']['key'], known=[]), 700).result()
            for f in r['api']['fails']:
                print(f['key'], f['msg'])
            bad = bool(r['api']['fails'])
        elif d['kind'] == 'contract':
            f = d['failure']
            req = dict(contracts=[d['contract']], tier='quick',
                       seed=d['seed'], prop=d['property'], n=20000,
                       tlimit=120)
            if f.get('ce') is not None:
                with open(scratch + '/ces.pkl', 'wb') as g:
                    pickle.dump({d['contract']: [f['ce']]}, g)
                req['ces'] = scratch + '/ces.pkl'
            r = check.Native(scratch, req, 300).result()
            f = r['contracts'][d['contract']]['fail']
            print(json.dumps(f, indent=1, default=str))
            bad = f is not None
        elif d['kind'] == 'proof':
            from pyvc import dsl, prove
            dsl.load_all()
            c = d['verifier']['contract']
            r = prove.run_many([c], 'quick', jobs=1)[c]
            print(c, r['status'], r['reason'])
            for f in r['failed']:
                print('  ', f['kind'], f['name'], f['info'].get('verdict'))
            bad = r['status'] != 'proved'
        else:
            print(d.get('failure'), d.get('log'))
            bad = True
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
