#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the checks in props/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'tools', 'level_notes.json')))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if os.path.exists(os.path.join(V, 'props', i.lower() + '.py')):
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i,
                           thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           technique=tech, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason='specified in properties.jsonl; its check is still under construction'))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='TLA+ specifications in spec/, checked with TLC; see DESIGN.md'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
