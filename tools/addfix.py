"""addfix.py PROPERTY COMMIT: record a repaired defect in known_findings.json."""
import json, subprocess, sys
prop, h = sys.argv[1:3]
msg = subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%h %s', h],
                     capture_output=True, text=True).stdout.split(' ', 1)
h, text = msg[0], msg[1].strip().removeprefix('fix: ')
p = '/verif/known_findings.json'
d = json.load(open(p))
if not any(h in e['text'] for e in d):
    d.append({'property': prop, 'status': 'fixed', 'key': f'fix-{h}',
              'text': f'fixed: property={prop} {h} {text}'})
    json.dump(d, open(p, 'w'), indent=1)
