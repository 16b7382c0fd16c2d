#!/bin/bash
# evaluate contracts natively on generated inputs: tools/rn.sh PREFIX...
here=$(realpath "$(dirname "$0")/..")
d=$(mktemp -d); cd "$d"
HOME=$d PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=${NIMBLE_REPO:-/repo}:$here /opt/venv/bin/python -W ignore - "$@" <<'P'
import sys
from pyvc import dsl, native
dsl.load_all()
for c in dsl.CONTRACTS.values():
    if any(c.id.startswith(a) for a in sys.argv[1:]):
        r = native.run_contract(c, 1, 1000, 5)
        print(c.id, 'run', r['run'], 'of', r['tried'], 'distinct', r['distinct'], str(r['fail'] or 'ok')[:700])
P
rm -r "$d"
