#!/usr/bin/env python3
import json, sys
sys.path.insert(0, '/verif')
import check
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE = json.load(open('/verif/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    units = [u for u in check.UNITS if i in check.UNITS[u]['props']]
    if units:
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough',
            technique='contract-based deductive verification of the real code (Verus), unit ' + ', '.join(units), level='proof',
            level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NOTE[i]))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
  notes='Every check rebuilds the extractor, the expanded sources, the proof text and the harness from the current /repo; nothing is kept between runs.'),
  open('/verif/MANIFEST.json', 'w'), indent=1)
