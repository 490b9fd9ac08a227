#!/usr/bin/python3
"""Write MANIFEST.json: a property is claimed when pbt/props/<id>.py exists and is listed in READY."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from ready import READY, NOTES
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {'C30': 'generated-input search applies (round trips and corrupted files) but the check is not built: time went to the MED files, where all of the fields and groups features are (C28, C29)'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in READY:
        c = 'python3 pbt/run.py %s' % i
        checks.append(dict(property=i, quick_cmd=c, thorough_cmd=c, evidence_file='evidence/%s.json' % i,
                           technique=READY[i], level='exploration',
                           level_note='Every case is drawn from VERIF_SEED and judged by an oracle that does not share code with the library; '
                           'assurance is that of the explored cases (counted in the evidence file), not a proof. ' + NOTES.get(i, '')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'the generated-input check of this property is not built yet')))
m = dict(version=1, setup_cmd='python3 pbt/build.py rel asan' if 'C36' in READY else 'python3 pbt/build.py rel', checks=checks, not_applicable=na,
         notes='No hooks: the checks drive the public API of the unmodified sources, built from /repo/src by build/CMakeLists.txt. '
         'python3 pbt/run.py <id> [--seed n] [--only subcheck] [--replay file].')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
