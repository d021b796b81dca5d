#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from targets.py and properties.jsonl."""
import json, os, subprocess, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
sys.path.insert(0, T)
from targets import PROPS, NOTES, NA
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
CONC = 'stateless model checking of the compiled code: every interleaving (within the stated bounds) with state caching'
SEQ = 'explicit enumeration of every operation sequence on the compiled code against a reference model'
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        tech = CONC if 'schedules' in p['quantifier']['over'] else SEQ
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique=tech, level='model_checking', level_note=NOTES.get(i, NOTES['conc' if tech == CONC else 'seq'])))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet; nothing is claimed')))
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.split('\n')
hc = [l.split()[0] for l in hooks if 'guarded' in l and 'verification builds' in l or 'verification hook' in l or 'settable under INDEXRESEARCH_VERIF' in l]
m = dict(version=1, setup_cmd='python3 check.py --build-all',
         hooks=dict(guard='INDEXRESEARCH_VERIF_PAGE_SIZE and other INDEXRESEARCH_VERIF_* defines', enable='check.py passes -DINDEXRESEARCH_VERIF_...=<small size> when it compiles the drivers', source_commits=hc),
         checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
