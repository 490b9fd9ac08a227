#!/usr/bin/python3
"""fx.py PROP COMMIT text : record a repaired defect;  fx.py PROP known:demo text : record a finding"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(p))
prop, c, w = sys.argv[1:4]
if c.startswith('known:'):
    k['findings'].append(dict(property=prop, status='known', demo=c[6:], what=w))
else:
    k['findings'].append(dict(property=prop, status='fixed', commit=c, what='fixed: property=%s %s %s' % (prop, c, w)))
json.dump(k, open(p, 'w'), indent=1)
