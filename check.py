#!/usr/bin/env python3-vt
"""Check of one property:  check.py C07 [quick|thorough]

1. proof part: every contract of the property is parsed from /repo's current
   source, its obligations generated and discharged (pyvc/prove.py);
2. runtime part, in the repository's interpreter: the same contracts are
   evaluated on generated inputs of the real functions, and the bounded
   API-level checks of the property run (pyvc/native.py, bounded/);
3. an obligation that is not discharged is searched for a failing input with
   the same contract; the evidence file is written.
"""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
REPO = os.environ.get('NIMBLE_REPO', '/repo')
PY = '/opt/venv/bin/python'


def native_env(scratch):
    e = {k: v for k, v in os.environ.items()
         if k not in ('PYTHONPATH', 'PYTHONHOME', 'VIRTUAL_ENV')}
    e.update(HOME=scratch, LANG='C.UTF-8', LC_ALL='C.UTF-8',
             PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin',
             PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             PYTHONPATH=f'{REPO}:{HERE}', MPLBACKEND='Agg',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             MKL_NUM_THREADS='1', CUDA_VISIBLE_DEVICES='-1',
             TF_CPP_MIN_LOG_LEVEL='3', TMPDIR=scratch,
             NIMBLE_VERIF_SCRATCH=scratch)
    return e


class Native:
    def __init__(self, scratch, req, limit):
        self.d = tempfile.mkdtemp(dir=scratch)
        self.req, self.out = self.d + '/req.json', self.d + '/out.json'
        with open(self.req, 'w') as f:
            json.dump(req, f)
        self.log = open(self.d + '/log', 'w')
        self.limit = limit
        self.p = subprocess.Popen(
            [PY, '-m', 'pyvc.native', self.req, self.out], cwd=self.d,
            env=native_env(self.d), stdout=self.log,
            stderr=subprocess.STDOUT, start_new_session=True)
        self.t = time.time()

    def result(self):
        try:
            self.p.wait(max(1, self.limit - (time.time() - self.t)))
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, 9)
            self.p.wait()
        self.log.close()
        for f in (self.out, self.out + '.part'):
            if os.path.exists(f):
                r = json.load(open(f))
                r['complete'] = f == self.out
                if not r['complete']:
                    r['log'] = open(self.d + '/log').read()[-3000:]
                return r
        return dict(contracts={}, api=None, complete=False,
                    log=open(self.d + '/log').read()[-3000:])


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
        'VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    try:
        return run(prop, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def merge(parts):
    """the results of the API part over several seeds as one"""
    res = dict(contracts={}, complete=all(r['complete'] for _, r in parts),
               log='\n'.join(r.get('log') or '' for _, r in parts
                             if not r['complete']), api=None)
    if any(r['api'] is None for _, r in parts):
        return res
    a = [(s, r['api']) for s, r in parts]
    res['api'] = dict(
        cases=sum(r['cases'] for _, r in a),
        distinct=sum(r['distinct'] for _, r in a),
        fails=[dict(f, seed=s) for s, r in a for f in r['fails']],
        samples=a[0][1]['samples'], rule=a[0][1]['rule'], seeds=[
            s for s, _ in a],
        known={k: v for _, r in reversed(a) for k, v in r['known'].items()},
        wall=sum(r['wall'] for _, r in a))
    return res


def run(prop, tier, seed, scratch):
    t0 = time.time()
    from pyvc import dsl, prove
    dsl.load_all()
    cids = [c.id for c in dsl.CONTRACTS.values() if prop in c.props
            and (tier == 'thorough' or not c.thorough)]
    pids = [c for c in cids if dsl.CONTRACTS[c].prove]
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k['property'] == prop
                 and k.get('status') == 'known']
    quick = tier == 'quick'
    nat = [Native(scratch, dict(
        contracts=cids, tier=tier, seed=seed, prop=prop,
        tlimit=8 if quick else 40), 300 if quick else 600)]

    def shard(i):
        return Native(scratch, dict(
            contracts=[], tier=tier, seed=seed + 101 * i, api=prop.lower(),
            prop=prop, apilimit=100 if quick else 480, known=known),
            400 if quick else 700)
    api = [shard(0)]
    proofs = prove.run_many(pids, tier, jobs=6) if pids else {}
    # more seeds once the cores are free
    api += [shard(i) for i in range(1, 6 if quick else 8)]
    nres = nat[0].result()
    ares = merge([(seed + 101 * i, a.result()) for i, a in enumerate(api)])

    violations = []
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)

    def violation(name, data, found):
        path = os.path.join(rdir, f'{prop}-{name}.json')
        data['property'] = prop
        data['replay_cmd'] = f'python3-vt /verif/replay.py {path}'
        with open(path, 'w') as f:
            json.dump(data, f, indent=1, default=str)
        violations.append((path, found))

    failedruntime = set()
    for cid, r in nres['contracts'].items():
        if r['fail'] is not None and r['fail'].get('kind') != 'missing':
            failedruntime.add(cid)
            violation('contract-' + cid, dict(
                kind='contract', contract=cid, seed=seed,
                target=dsl.CONTRACTS[cid].target, **{
                    'failure': r['fail']}), True)
    if ares['api'] is not None:
        for i, f in enumerate(ares['api']['fails'][:3]):
            violation(f'api-{i}', dict(kind='api', seed=f['seed'],
                                       tier=tier, failure=f), True)
    missing = [c for c in cids if c not in nres['contracts']]
    apifile = os.path.exists(os.path.join(HERE, 'bounded',
                                          prop.lower() + '.py'))
    if missing or (apifile and ares['api'] is None):
        violation('runtime', dict(
            kind='runtime', failure='the runtime part did not finish',
            log=nres.get('log', '') + '\n' + ares.get('log', '')), False)

    notproved = [c for c, r in proofs.items() if r['status'] != 'proved']
    search = [c for c in notproved if c not in failedruntime]
    if search:
        cefile = scratch + '/ces.pkl'
        ces = {c: proofs[c]['ces'] for c in search}
        try:
            with open(cefile, 'wb') as f:
                pickle.dump(ces, f)
        except Exception:
            with open(cefile, 'wb') as f:
                pickle.dump({}, f)
        n2 = Native(scratch, dict(
            contracts=search, tier=tier, seed=seed + 1000, prop=prop,
            ces=cefile, n=6000 if quick else 40000,
            tlimit=25 if quick else 60), 240 if quick else 400).result()
        for cid in search:
            r = n2['contracts'].get(cid)
            p = proofs[cid]
            info = dict(
                contract=cid, target=p['target'], status=p['status'],
                reason=p['reason'], failed_obligations=p['failed'],
                trace=p.get('trace', ''))
            if r is not None and r['fail'] is not None and \
                    r['fail'].get('kind') != 'missing':
                violation('contract-' + cid, dict(
                    kind='contract', seed=seed + 1000, verifier=info,
                    failure=r['fail'], contract=cid,
                    target=p['target']), True)
            else:
                violation('proof-' + cid, dict(
                    kind='proof', verifier=info,
                    note='the obligation is no longer discharged; no '
                         'failing input was found'), False)
    write_evidence(prop, tier, seed, t0, cids, proofs, nres, ares,
                   violations, known)
    for k in known:
        hit = (ares['api'] or {}).get('known', {}).get(k['key'])
        print(f"KNOWN-FINDING: property={prop} {k['text']}"
              + (f' (seen in: {hit[:160]})' if hit else ''))
    nob = sum(r['obligations'] for r in proofs.values())
    ndis = sum(r['discharged'] for r in proofs.values())
    print(f'{prop} {tier}: {len(proofs)} functions under contract, '
          f'{ndis}/{nob} obligations discharged; runtime '
          f"{sum(r['run'] for r in nres['contracts'].values())} contract "
          f"runs, {(ares['api'] or {}).get('cases', 0)} API cases; "
          f'{time.time() - t0:.1f} s')
    # violations with a failing input first
    violations.sort(key=lambda v: not v[1])
    if any(f for _, f in violations):
        violations = [v for v in violations if v[1]]
    for path, found in violations:
        print(f'VIOLATION property={prop} replay={path}'
              + ('' if found else ' no-failing-input-found'))
    return 1 if violations else 0


def write_evidence(prop, tier, seed, t0, cids, proofs, nres, ares,
                   violations, known):
    from pyvc import dsl
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = next((c['level'] for c in man['checks']
                  if c['property'] == prop), 'proof')
    by = {}
    for r in proofs.values():
        for k, n in r['by'].items():
            by[k] = by.get(k, 0) + n
    assumptions = {
        'machine integers and numpy integers are treated as mathematical '
        'integers; floats as reals extended with nan and the infinities',
        'strings are uninterpreted (equality, and listed operations only)',
        'termination is not proved',
        'the verifier itself (pyvc) and its solvers are trusted; it is '
        'cross-checked against CPython on generated inputs in every run',
        'extraction drops docstrings, decorators that only document, log '
        'or check an optional dependency, and the text of error messages'}
    ext = set()
    for r in proofs.values():
        assumptions.update(r['assumptions'])
        ext.update(r['externals'])
        ext.update('contract ' + u for u in r['used'])
    for c in cids:
        if dsl.CONTRACTS[c].note:
            assumptions.add(f'{c}: {dsl.CONTRACTS[c].note}')
    api = ares['api'] or {}
    cov = dict(
        obligations=sum(r['obligations'] for r in proofs.values()),
        discharged=sum(r['discharged'] for r in proofs.values()),
        checker_cmd=f'python3-vt /verif/check.py {prop} {tier}',
        trusted_base=['pyvc (/verif/pyvc)', 'z3', 'cvc5', 'CPython ast',
                      *sorted('assumed contract: ' + x for x in ext)],
        discharged_by=by,
        solver_seconds=round(sum(r['solver_s'] for r in proofs.values()), 2),
        functions=[dict(contract=r['id'], function=r['target'],
                        status=r['status'], obligations=r['obligations'],
                        discharged=r['discharged'], kinds=r['kinds'],
                        paths=r['paths'], wall_s=round(r['wall'], 2),
                        inlined=r['inlined'], reason=r['reason'])
                   for r in proofs.values()],
        evaluations=sum(r['run'] for r in nres['contracts'].values())
        + api.get('cases', 0),
        distinct_nontrivial=sum(r['distinct'] for r in
                                nres['contracts'].values())
        + api.get('distinct', 0),
        rule='BOUNDED part, not counted as proved: contracts evaluated on '
             'generated inputs of the real functions (distinct by printed '
             'input, after the precondition filter), and API-level cases '
             '(distinct by case key): ' + api.get('rule', ''),
        samples=[dict(contract=k, input=s) for k, r in
                 nres['contracts'].items() for s in r['samples'][:1]][:8]
        + [dict(api=s) for s in api.get('samples', [])][:4],
        bounded=dict(contract_runs={k: r['run'] for k, r in
                                    nres['contracts'].items()},
                     api_cases=api.get('cases', 0),
                     api_wall_s=round(api.get('wall', 0), 1)),
        known_findings=[k['key'] for k in known])
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=cov, assumptions=sorted(assumptions),
              wall_s=round(time.time() - t0, 2),
              violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
