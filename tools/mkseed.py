"""plant bugs:  tools/mkseed.py SPECFILE [ID...]

SPECFILE is a python file with SEEDS = [dict(id, prop, edits=[(file, old,
new)], needs, breaks, demo=python source)].  Each is applied in a scratch
copy of /repo, the demonstration is run with and without it and the stable
tests are run with it; only confirmed ones are written to seeded/."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

SH = '''#!/bin/bash
# exit 0 when the behaviour holds, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
export HOME=$(mktemp -d) PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH=$PWD OMP_NUM_THREADS=1 MPLBACKEND=Agg TF_CPP_MIN_LOG_LEVEL=3
export SCRATCH=$HOME
/opt/venv/bin/python "$here/demo.py"
rc=$?
rm -rf "$HOME"
exit $rc
'''
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True,
                          text=True, **kw)


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:]
    for s in seeds:
        if want and s['id'] not in want:
            continue
        d = tempfile.mkdtemp(prefix='seed-')
        try:
            one(s, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def one(s, d):
    out = f"{ROOT}/seeded/{s['id']}"
    if os.path.exists(out):
        return
    c = d + '/repo'
    sh(f'cp -a /repo {c}', '/')
    sh('git checkout -- .', c)
    os.makedirs(d + '/x')
    open(d + '/x/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/x/demo.sh', 'w').write(SH)
    json.dump(dict(property=s['prop'], needs=s['needs'],
                   what_it_breaks=s['breaks']),
              open(d + '/x/meta.json', 'w'), indent=1)
    r = sh(f'bash {d}/x/demo.sh', c)
    if r.returncode:
        print(s['id'], 'DEMO FAILS ON CLEAN TREE', r.stdout[-500:],
              r.stderr[-1500:], flush=True)
        return
    for f, old, new in s['edits']:
        t = open(f'{c}/{f}').read()
        if t.count(old) != 1:
            print(s['id'], f, 'EDIT MATCHES', t.count(old), flush=True)
            return
        open(f'{c}/{f}', 'w').write(t.replace(old, new))
    sh(f'git diff > {d}/x/patch.diff', c)
    r = sh(f'bash {d}/x/demo.sh', c)
    if not r.returncode:
        print(s['id'], 'DEMO PASSES WITH THE PATCH', flush=True)
        return
    print(s['id'], 'demo:', (r.stdout + r.stderr).strip()[-200:], flush=True)
    for f in ('test.sh', 'env.sh'):
        t = open('/opt/vp/' + f).read().replace('/opt/vp/env.sh',
                                                d + '/env.sh')
        open(f'{d}/{f}', 'w').write(t.replace('/repo', c))
    sh(f'bash {d}/test.sh {d}/out.json', c)
    r = sh(f'python3 {ROOT}/tools/stable.py {d}/out.json', c)
    if r.returncode:
        print(s['id'], 'TESTS', r.stdout[-600:], flush=True)
        return
    shutil.copytree(d + '/x', out)
    print(s['id'], 'KEPT', flush=True)


main()
