"""writes MANIFEST.json: a property is claimed when it has contracts that
are proved; the others are listed with the reason"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc import dsl
dsl.load_all()
NA = {
    'C24': 'what is logged is fixed by the body of some eighty public '
           'methods and by an sqlite or shelve database; the obligation '
           '"every public entry calls handleLogging once" has no contract '
           'smaller than the whole library within reach of the verifier',
}
PENDING = 'no contract of this property is discharged yet'
NOTES = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    cs = [c for c in dsl.CONTRACTS.values() if i in c.props]
    pr = [c for c in cs if c.prove]
    bo = [c for c in cs if not c.prove]
    if not pr or i in NA:
        na.append(dict(property=i, reason=NA.get(i, PENDING)))
        continue
    fns = sorted({c.target.split(':')[1] for c in pr})
    note = (f'proved for all inputs: the contracts of {", ".join(fns)}. '
            + ('Bounded only (contract evaluated on generated inputs): '
               + ', '.join(sorted({c.target.split(":")[1] for c in bo}))
               + '. ' if bo else '')
            + 'The public operations around them (numpy, pandas and scipy '
              'code) are covered by bounded comparison with a table model, '
              'never counted as proved. Assumptions are listed in the '
              'evidence and in DESIGN.md.')
    checks.append(dict(
        property=i, quick_cmd=f'python3-vt check.py {i} quick',
        thorough_cmd=f'python3-vt check.py {i} thorough',
        technique='contracts on the real functions, obligations generated '
                  'from /repo\'s source by pyvc and discharged by z3/cvc5; '
                  'the same contracts and a table model evaluated on the '
                  'running code as a labelled bounded part',
        level='proof', level_note=note))
json.dump(dict(version=1, setup_cmd='true', checks=checks,
               not_applicable=na),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print([c['property'] for c in checks])
