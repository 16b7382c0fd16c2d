"""compare a test result with the baseline: tools/stable.py OUT.json"""
import json
import sys
b = json.load(open('/opt/vp/BASELINE.json'))
o = json.load(open(sys.argv[1]))
key = 'stable'
miss = set(b[key]) - set(o['passed'])
print(len(b[key]), 'stable;', len(miss), 'not passing', sorted(miss)[:10])
sys.exit(bool(miss))
