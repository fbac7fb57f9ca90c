#!/usr/bin/env python3
"""Write MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from engine import registry
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i in registry.TECH:
        mod, level, tech = registry.TECH[i][:3]
        note = registry.TECH[i][3] if len(registry.TECH[i]) > 3 else 'Static analysis of the compiled source; see DESIGN.md for what is analysed and the rule applied.'
        checks.append({'property': i, 'quick_cmd': 'python3-vt /verif/run.py %s quick' % i, 'thorough_cmd': 'python3-vt /verif/run.py %s thorough' % i,
                       'technique': tech, 'level': level, 'level_note': note})
    else:
        na.append({'property': i, 'reason': registry.NA.get(i, 'check not built yet')})
doc = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
       'notes': 'All checks are static analyses over /repo\'s current sources; see DESIGN.md.'}
json.dump(doc, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
