#!/usr/bin/env python3
"""writes MANIFEST.json from tools/table.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import table
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = getattr(table, 'NOT_APPLICABLE', {})
checks, na = [], []
for p in props:
    i = p['id']
    if i in table.CHECKS:
        s = table.CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 run.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + i,
          'technique': s.get('technique', 'contracts on the real code: symbolic execution of the compiled functions, obligations discharged algebraically per shape'),
          'level': s['level'], 'level_note': s.get('note', s['explanation'])})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
