#!/usr/bin/env python3
"""writes MANIFEST.json from lib/props.py and properties.jsonl"""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           technique=p['technique'], level=p['level'], level_note=p['note'] + (' Bounded: ' + p['bounded'] + '.' if p.get('bounded') else '') + (' Assumes: ' + '; '.join(p['assumptions']) + '.' if p.get('assumptions') else '')))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
         hooks=dict(guard='cfg rust_3d_verif', enable="RUSTFLAGS='--cfg rust_3d_verif' (set by check.py for the bounded native checks; the verifier needs no hook)", source_commits=['f9aa054']),
         notes='Contracts are spliced into the extracted source on every run. known_findings.txt lists known findings and fixes.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not applicable')
