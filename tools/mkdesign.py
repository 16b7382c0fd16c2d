"""DESIGN.md from tools/DESIGN.tmpl, the registered contracts and seeds"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc import dsl
dsl.load_all()
P = {}
for c in dsl.CONTRACTS.values():
    for p in c.props:
        P.setdefault(p, {}).setdefault(c.prove, set()).add(
            c.target.split('.')[-1] if ':' not in c.target else
            c.target.split(':')[1])
out = []
for p in sorted(P):
    out.append(f'* **{p}** proved: {", ".join(sorted(P[p].get(True, [])))}'
               + (f'; bounded: {", ".join(sorted(P[p][False]))}'
                  if False in P[p] else ''))
sd = []
d = os.path.join(HERE, 'seeded')
caught = {}
f = os.path.join(HERE, 'tools', 'caught.json')
if os.path.exists(f):
    caught = json.load(open(f))
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, 'meta.json')))
    sd.append(f'* {i}: {m["what_it_breaks"]} (needs {m["needs"]}). '
              f'Caught by {caught.get(i, m["property"])}.')
t = open(os.path.join(HERE, 'tools', 'DESIGN.tmpl')).read()
t = t.replace('@SEEDS@', '\n'.join(sd)).replace('@FUNCS@', '\n'.join(out))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)
